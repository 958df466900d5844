"""pydv: a small contract-based deductive verifier for the Python of /repo (see /verif/DESIGN.md)."""
