"""symx: dynamic symbolic execution of the real impurityModel sources with z3."""
