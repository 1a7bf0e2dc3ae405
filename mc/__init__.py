"""Bounded exhaustive model checking of mondeja/mdpo (see DESIGN.md)."""
