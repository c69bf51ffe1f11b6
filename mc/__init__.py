"""Bounded exhaustive exploration of dedalus: shared machinery (see DESIGN.md)."""
