"""Stand-in for the part of pandas that improver's table lookup uses (a labelled
2-D table). Everything else raises AttributeError on use."""
import datetime

import numpy as np


class Index(list):
    def astype(self, dtype):
        return Index([dtype(v) for v in self])

    @property
    def values(self):
        return np.array(list(self))

    def to_numpy(self):
        return self.values

    def __array__(self, dtype=None):
        return np.array(list(self), dtype=dtype)


class DataFrame:
    def __init__(self, data=None, index=None, columns=None):
        self._cells = {}
        cols, idx = [], []
        if isinstance(data, dict):
            for c, rows in data.items():
                cols.append(c)
                items = rows.items() if isinstance(rows, dict) else enumerate(rows)
                for r, v in items:
                    if r not in idx:
                        idx.append(r)
                    self._cells[(r, c)] = v
            if index is not None:
                self._cells = {(index[r], c): v for (r, c), v in self._cells.items()}
                idx = list(index)
        elif data is not None:
            arr = np.asarray(data)
            idx = list(index) if index is not None else list(range(arr.shape[0]))
            cols = list(columns) if columns is not None else list(range(arr.shape[1]))
            for i, r in enumerate(idx):
                for j, c in enumerate(cols):
                    self._cells[(r, c)] = arr[i, j]
        self._index, self._columns = Index(idx), Index(cols)

    @classmethod
    def from_dict(cls, data, **_):
        return cls(data)

    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, new):
        m = dict(zip(self._columns, new))
        self._cells = {(r, m[c]): v for (r, c), v in self._cells.items()}
        self._columns = Index(new)

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, new):
        m = dict(zip(self._index, new))
        self._cells = {(m[r], c): v for (r, c), v in self._cells.items()}
        self._index = Index(new)

    def reindex(self, labels=None, axis=0, **kwargs):
        new = DataFrame()
        new._cells = dict(self._cells)
        new._index, new._columns = Index(self._index), Index(self._columns)
        if axis in (1, "columns"):
            new._columns = Index(labels)
        else:
            new._index = Index(labels)
        return new

    def sort_index(self, axis=0, **_):
        return self.reindex(sorted(self._columns if axis in (1, "columns") else self._index), axis=axis)

    def to_numpy(self):
        return np.array(
            [[self._cells.get((r, c), np.nan) for c in self._columns] for r in self._index]
        )

    @property
    def values(self):
        return self.to_numpy()

    @property
    def shape(self):
        return (len(self._index), len(self._columns))


class Timedelta(datetime.timedelta):
    def __new__(cls, value=0, **kwargs):
        return datetime.timedelta.__new__(cls, **kwargs)


class Timestamp(datetime.datetime):
    """A time given as YYYYmmddTHHMMZ (or by its components)."""

    def __new__(cls, value, *args, **kwargs):
        if isinstance(value, str):
            for fmt in ("%Y%m%dT%H%MZ", "%Y-%m-%d %H:%M:%S", "%Y-%m-%d"):
                try:
                    value = datetime.datetime.strptime(value, fmt)
                    break
                except ValueError:
                    continue
        if isinstance(value, datetime.datetime):
            args = tuple(value.timetuple())[1:6] + (value.microsecond,)
            value = value.year
        return datetime.datetime.__new__(cls, value, *args, **kwargs)
