"""Stand-in for statsmodels: ordinary least squares only."""
