"""Shared machinery of the property checks (see DESIGN.md)."""
