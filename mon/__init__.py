"""Runtime monitors for wwcphy/electrode (see DESIGN.md)."""
