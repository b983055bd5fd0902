"""Bounded exhaustive exploration of conmech (see DESIGN.md)."""
