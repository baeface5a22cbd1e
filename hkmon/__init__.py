"""Runtime monitors for dm-haiku. See /verif/DESIGN.md."""
