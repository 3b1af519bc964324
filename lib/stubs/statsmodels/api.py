"""Ordinary least squares, as statsmodels.api offers it."""
import numpy as np


def add_constant(data, prepend=True, has_constant="skip"):
    data = np.asarray(data)
    if data.ndim == 1:
        data = data[:, None]
    ones = np.ones((data.shape[0], 1), data.dtype)
    return np.hstack([ones, data] if prepend else [data, ones])


class _Fit:
    def __init__(self, params):
        self.params = params


class OLS:
    def __init__(self, endog, exog=None):
        self.endog, self.exog = np.asarray(endog), np.asarray(exog)

    def fit(self):
        return _Fit(np.linalg.pinv(self.exog, rcond=1e-15) @ self.endog)
