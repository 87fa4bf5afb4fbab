"""Property-based checks of ramannoodle."""
