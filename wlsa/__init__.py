"""Static analyser for the weatherlink package (see /verif/DESIGN.md)."""
