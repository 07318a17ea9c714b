"""Hand-written parts of DESIGN.md per property."""
NOTES = {}
TAIL = ""
