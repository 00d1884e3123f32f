"""Deterministic simulator used by every check of this repository."""
