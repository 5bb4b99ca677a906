"""Symbolic execution of the real lattpy sources over a symbolic numpy (z3 back end)."""
