"""Bounded exhaustive model checking of diatche/curvepy (see ../DESIGN.md)."""
