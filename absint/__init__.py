"""Abstract interpretation of the repository's Python sources."""
