"""Contract-based deductive verification of the real thinc sources (see DESIGN.md)."""
