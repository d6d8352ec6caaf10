"""Deterministic simulation of diwire: kernel, virtual-time loop, worlds, oracles, runner."""
