"""Static analysis machinery for Viscid (see DESIGN.md)."""
