"""Deterministic simulation of mygrations against a simulated MySQL server."""
