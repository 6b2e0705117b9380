"""Per-property notes for DESIGN.md."""
N = {}
CAUGHT = {}
