"""Symbolic execution of Python code with z3 (see ../DESIGN.md)."""
