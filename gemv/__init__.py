"""Runtime monitors for gym-electric-motor (see ../DESIGN.md)."""
