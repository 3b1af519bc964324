"""Stand-in for the parts of cartopy that improver uses (crs transforms only)."""
__version__ = "0.19-standin"
