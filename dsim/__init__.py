"""Deterministic simulation of blaze/datashape.  See /verif/DESIGN.md."""
