from pandas import DataFrame  # noqa: F401
