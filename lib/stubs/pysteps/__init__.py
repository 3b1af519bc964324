"""Stand-in for the one pysteps function that improver calls."""
