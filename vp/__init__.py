"""Contract-based deductive verification of tomopy (see ../DESIGN.md)."""
