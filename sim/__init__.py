"""Deterministic simulation of RSM: see /verif/DESIGN.md."""
