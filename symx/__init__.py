"""Symbolic execution of the real Python source (see DESIGN.md)."""
