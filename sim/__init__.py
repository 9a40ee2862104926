"""Deterministic simulation of converter21 with fault injection (see /verif/DESIGN.md)."""
