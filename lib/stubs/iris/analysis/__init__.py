"""Aggregators and interpolation schemes of the iris API stand-in."""
from collections.abc import Iterable

import numpy as np
import numpy.ma as ma
import scipy.stats.mstats

import iris.coords
import iris.exceptions


class _Aggregator:
    def __init__(self, cell_method, call_func, units_func=None, lazy_func=None, **kwargs):
        self.cell_method = cell_method
        self.call_func = call_func
        self.units_func = units_func
        self.lazy_func = lazy_func
        self._kwargs = kwargs

    def name(self):
        return "_".join((self.cell_method or "").split())

    def lazy_aggregate(self, data, axis, **kwargs):
        if self.lazy_func is None:
            raise iris.exceptions.LazyAggregatorError("no lazy aggregator")
        kwargs = dict(list(self._kwargs.items()) + list(kwargs.items()))
        return self.lazy_func(data, axis=axis, **kwargs)

    def aggregate(self, data, axis, **kwargs):
        kwargs = dict(list(self._kwargs.items()) + list(kwargs.items()))
        mdtol = kwargs.pop("mdtol", None)
        result = self.call_func(data, axis=axis, **kwargs)
        if mdtol is not None and ma.isMaskedArray(data):
            fraction_not_missing = data.count(axis=axis) / data.shape[axis]
            mask_update = 1 - mdtol > fraction_not_missing
            if ma.isMaskedArray(result):
                result.mask = result.mask | mask_update
            else:
                result = ma.array(result, mask=mask_update)
        return result

    def update_metadata(self, cube, coords, **kwargs):
        if self.units_func is not None:
            cube.units = self.units_func(cube.units)
        if self.cell_method:
            kwargs = dict(list(self._kwargs.items()) + list(kwargs.items()))
            coord_names = [
                c.name() if isinstance(c, iris.coords.Coord) else c for c in coords
            ]
            cube.add_cell_method(
                iris.coords.CellMethod(self.cell_method.format(**kwargs), coord_names)
            )

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        collapsed_cube.data = data_result
        return collapsed_cube

    def aggregate_shape(self, **kwargs):
        return ()


class Aggregator(_Aggregator):
    pass


class WeightedAggregator(Aggregator):
    _WEIGHTING_KEYWORDS = ("returned", "weights")

    def uses_weighting(self, **kwargs):
        return any(k in self._WEIGHTING_KEYWORDS for k in kwargs)

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        if kwargs.get("returned", False):
            collapsed_cube.data, weights = data_result
            return collapsed_cube, weights
        collapsed_cube.data = data_result
        return collapsed_cube


class PercentileAggregator(_Aggregator):
    def __init__(self, units_func=None, lazy_func=None, **kwargs):
        self._name = "percentile"
        self._args = ["percent"]
        super().__init__(None, _percentile, units_func=units_func, lazy_func=lazy_func, **kwargs)

    def name(self):
        return self._name

    def aggregate(self, data, axis, **kwargs):
        msg = "{} aggregator requires the mandatory keyword argument {!r}."
        if "percent" not in kwargs:
            raise ValueError(msg.format(self.name(), "percent"))
        return super().aggregate(data, axis, **kwargs)

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        cubes = iris.cube.CubeList()
        points = kwargs["percent"]
        names = [coord.name() for coord in coords]
        coord_name = "{}_over_{}".format(self.name(), "_".join(names))
        if not isinstance(points, Iterable):
            points = [points]
        for point in points:
            cube = collapsed_cube.copy()
            coord = iris.coords.AuxCoord(point, long_name=coord_name, units="percent")
            cube.add_aux_coord(coord)
            cubes.append(cube)
        collapsed_cube = cubes.merge_cube()
        if self.aggregate_shape(**kwargs):
            data_result = np.rollaxis(data_result, -1)
        collapsed_cube.data = data_result
        return collapsed_cube

    def aggregate_shape(self, **kwargs):
        points = kwargs["percent"]
        shape = ()
        if not isinstance(points, Iterable):
            points = [points]
        points = np.array(points)
        if points.shape > (1,):
            shape = points.shape
        return shape


def _percentile(data, axis, percent, fast_percentile_method=False, **kwargs):
    data = np.rollaxis(data, axis, data.ndim)
    shape = data.shape[:-1]
    if shape:
        data = data.reshape([np.prod(shape), data.shape[-1]])
    quantiles = np.array(percent) / 100.0
    if fast_percentile_method:
        msg = "Cannot use fast np.percentile method with masked array."
        if ma.is_masked(data):
            raise TypeError(msg)
        result = np.percentile(data, percent, axis=-1)
        result = result.T
    else:
        quantiles = np.array(percent) / 100.0
        result = scipy.stats.mstats.mquantiles(data, quantiles, axis=-1, **kwargs)
    if not ma.isMaskedArray(data) and not ma.is_masked(result):
        result = np.asarray(result)
    else:
        result = ma.MaskedArray(result)
    # Ensure to unflatten any leading dimensions.
    if shape:
        if not isinstance(percent, Iterable):
            percent = [percent]
        percent = np.array(percent)
        if percent.shape > (1,):
            shape = shape + percent.shape
        result = result.reshape(shape)
    return result


def _sum(array, **kwargs):
    axis = kwargs.get("axis")
    weights = kwargs.get("weights")
    if weights is not None:
        result = np.sum(weights * array, axis=axis)
    else:
        result = np.sum(array, axis=axis)
    if kwargs.get("returned", False):
        if weights is None:
            weights = np.ones_like(array)
        return result, np.sum(weights, axis=axis)
    return result


def _count(array, **kwargs):
    func = kwargs.pop("function")
    return np.ma.sum(func(array), **kwargs)


def _proportion(array, function, axis, **kwargs):
    array_length = array.shape[axis]
    return _count(array, axis=axis, function=function) / float(array_length)


def _rms(array, axis, **kwargs):
    return np.sqrt(ma.average(np.square(array), axis=axis, **kwargs))


COUNT = Aggregator("count", _count, units_func=lambda units: 1)
GMEAN = Aggregator("geometric_mean", scipy.stats.mstats.gmean)
HMEAN = Aggregator("harmonic_mean", scipy.stats.mstats.hmean)
MAX = Aggregator("maximum", ma.max)
MEAN = WeightedAggregator("mean", ma.average)
MEDIAN = Aggregator("median", ma.median)
MIN = Aggregator("minimum", ma.min)
PERCENTILE = PercentileAggregator(alphap=1, betap=1)
PROPORTION = Aggregator("proportion", _proportion, units_func=lambda units: 1)
RMS = WeightedAggregator("root mean square", _rms)
STD_DEV = Aggregator("standard_deviation", ma.std, ddof=1)
SUM = WeightedAggregator("sum", _sum)
VARIANCE = Aggregator("variance", ma.var, units_func=lambda units: units * units, ddof=1)


class Linear:
    LINEAR_EXTRAPOLATION_MODES = ["extrapolate", "error", "nan", "mask", "nanmask"]

    def __init__(self, extrapolation_mode="linear"):
        modes = ["linear"] + self.LINEAR_EXTRAPOLATION_MODES
        if extrapolation_mode not in modes:
            raise ValueError("Extrapolation mode {!r} not supported.".format(extrapolation_mode))
        self.extrapolation_mode = extrapolation_mode

    def __repr__(self):
        return "Linear({!r})".format(self.extrapolation_mode)

    def _normalised_extrapolation_mode(self):
        return "extrapolate" if self.extrapolation_mode == "linear" else self.extrapolation_mode

    def interpolator(self, cube, coords):
        from iris.analysis._interp import RectilinearInterpolator

        return RectilinearInterpolator(cube, coords, "linear", self._normalised_extrapolation_mode())

    def regridder(self, src_grid, target_grid):
        from iris.analysis._interp import RectilinearRegridder

        return RectilinearRegridder(
            src_grid, target_grid, "linear", self._normalised_extrapolation_mode()
        )


class Nearest:
    def __init__(self, extrapolation_mode="extrapolate"):
        if extrapolation_mode not in ["extrapolate", "error", "nan", "mask", "nanmask"]:
            raise ValueError("Extrapolation mode {!r} not supported.".format(extrapolation_mode))
        self.extrapolation_mode = extrapolation_mode

    def __repr__(self):
        return "Nearest({!r})".format(self.extrapolation_mode)

    def interpolator(self, cube, coords):
        from iris.analysis._interp import RectilinearInterpolator

        return RectilinearInterpolator(cube, coords, "nearest", self.extrapolation_mode)

    def regridder(self, src_grid, target_grid):
        from iris.analysis._interp import RectilinearRegridder

        return RectilinearRegridder(src_grid, target_grid, "nearest", self.extrapolation_mode)


class AreaWeighted:
    def __init__(self, mdtol=1):
        self.mdtol = mdtol

    def regridder(self, src, tgt):
        raise NotImplementedError("AreaWeighted is not part of the stand-in")


import iris.cube  # noqa: E402  (circular by design, as in iris)
