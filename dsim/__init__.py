"""Deterministic simulation with fault injection for NREL/rdtools."""
