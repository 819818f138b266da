"""PyVC: contract-based deductive verifier for the Python code of /repo (see /verif/DESIGN.md)."""
