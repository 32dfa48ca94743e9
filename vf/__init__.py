"""Property-based checking framework for openscm (see /verif/DESIGN.md)."""
