"""Property-based checks for variantlib (see /verif/DESIGN.md)."""
