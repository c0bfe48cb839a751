"""pyvc: a small deductive verifier for the Python of /repo (see DESIGN.md)."""
