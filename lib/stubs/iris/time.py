"""PartialDateTime of the iris API stand-in."""
import functools


@functools.total_ordering
class PartialDateTime:
    __slots__ = ("year", "month", "day", "hour", "minute", "second", "microsecond")

    def __init__(
        self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None
    ):
        self.year = year
        self.month = month
        self.day = day
        self.hour = hour
        self.minute = minute
        self.second = second
        self.microsecond = microsecond

    def __repr__(self):
        attr_pieces = [
            "{}={}".format(name, getattr(self, name))
            for name in self.__slots__
            if getattr(self, name) is not None
        ]
        return "PartialDateTime({})".format(", ".join(attr_pieces))

    def __gt__(self, other):
        if isinstance(other, PartialDateTime):
            raise TypeError("Cannot compare two PartialDateTimes")
        result = False
        try:
            for attr_name in self.__slots__:
                attr = getattr(self, attr_name)
                other_attr = getattr(other, attr_name)
                if attr is not None and attr != other_attr:
                    result = attr > other_attr
                    break
        except AttributeError:
            result = NotImplemented
        return result

    def __eq__(self, other):
        if isinstance(other, PartialDateTime):
            return all(getattr(self, n) == getattr(other, n) for n in self.__slots__)
        result = True
        try:
            for attr_name in self.__slots__:
                attr = getattr(self, attr_name)
                other_attr = getattr(other, attr_name)
                if attr is not None and attr != other_attr:
                    result = False
                    break
        except AttributeError:
            result = NotImplemented
        return result

    def __lt__(self, other):
        res = self.__gt__(other)
        if res is NotImplemented:
            return res
        return not res and not (self == other)

    def __hash__(self):
        return hash(tuple(getattr(self, n) for n in self.__slots__))

    def __ne__(self, other):
        result = self.__eq__(other)
        if result is not NotImplemented:
            result = not result
        return result

    def __cmp__(self, other):
        raise NotImplementedError
