import dask.array as da
import numpy as np
import numpy.ma as ma


def is_lazy_data(data):
    return hasattr(data, "compute")


def as_concrete_data(data):
    if is_lazy_data(data):
        data = data.compute(scheduler="synchronous")
        if not isinstance(data, np.ndarray):
            data = np.asanyarray(data)
    return data


def as_lazy_data(data, chunks=None, asarray=False):
    if not is_lazy_data(data):
        if isinstance(data, ma.core.MaskedConstant):
            data = ma.masked_array(data.data, mask=data.mask)
        data = da.from_array(data, chunks=data.shape if data.shape else -1, asarray=asarray)
    return data
