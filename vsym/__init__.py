"""Symbolic execution of the real vspec_vsm sources (see DESIGN.md)."""
