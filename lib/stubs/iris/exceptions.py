"""Exceptions of the iris API stand-in (same names and hierarchy as iris 3.0)."""


class IrisError(Exception):
    pass


class CoordinateCollapseError(IrisError):
    pass


class CoordinateNotFoundError(KeyError):
    def __str__(self):
        return Exception.__str__(self)


class CellMeasureNotFoundError(KeyError):
    pass


class AncillaryVariableNotFoundError(KeyError):
    pass


class CoordinateMultiDimError(ValueError):
    def __init__(self, msg):
        if not isinstance(msg, str):
            msg = "Multi-dimensional coordinate not supported: '%s'" % msg.name()
        super().__init__(msg)


class CoordinateNotRegularError(ValueError):
    pass


class InvalidCubeError(IrisError):
    pass


class ConstraintMismatchError(IrisError):
    pass


class NotYetImplementedError(IrisError):
    pass


class TranslationError(IrisError):
    pass


class IgnoreCubeException(IrisError):
    pass


class ConcatenateError(IrisError):
    def __init__(self, differences):
        self.differences = differences

    def __str__(self):
        return "\n  ".join(
            ["failed to concatenate into a single cube."] + list(self.differences)
        )


class MergeError(IrisError):
    def __init__(self, differences):
        self.differences = differences

    def __str__(self):
        return "\n  ".join(["failed to merge into a single cube."] + list(self.differences))


class DuplicateDataError(MergeError):
    def __init__(self, msg):
        self.differences = [msg]


class LazyAggregatorError(Exception):
    pass


class UnitConversionError(IrisError):
    pass
