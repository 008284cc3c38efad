"""A small stand-in for the part of pandas that causalnex touches.

Not a re-implementation: labels are python objects in lists, columns are numpy arrays, and whatever is not modelled raises
StandInGap (never a silently different answer).  Semantics follow pandas 1.0: labels align on assignment of a Series, lookups are by
label equality, scalars come back as numpy scalars, object columns hold python objects.
"""
import datetime as _dt

import sys

import numpy as np

from mc.core import StandInGap

__version__ = "1.0.5+standin"
NA = NaT = None
nan = np.nan


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("pandas.%s" % name)


class _Gap:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise StandInGap("pandas %s.%s" % (type(self).__name__, name))


def _is_listlike(x):
    return isinstance(x, (list, tuple, np.ndarray, Series, Index, range, set, frozenset)) or \
        (hasattr(x, "__iter__") and not isinstance(x, (str, bytes, dict)))


def _null(x):
    if x is None:
        return True
    try:
        return bool(x != x)
    except Exception:  # pylint: disable=broad-except
        return False


def _arr(values):
    """List of scalars -> 1d numpy array with the dtype pandas would infer."""
    if isinstance(values, (Series, Index)):
        return values.values.copy()
    if isinstance(values, np.ndarray):
        if values.ndim != 1:
            raise ValueError("Data must be 1-dimensional")
        return values.astype(object) if values.dtype.kind in "US" else values.copy()
    values = list(values)
    kinds = set()
    for v in values:
        if isinstance(v, (bool, np.bool_)):
            kinds.add("b")
        elif isinstance(v, (int, np.integer)):
            kinds.add("i")
        elif isinstance(v, (float, np.floating)):
            kinds.add("f")
        elif v is None:
            kinds.add("n")
        else:
            kinds.add("o")
    if kinds == {"b"}:
        return np.array(values, dtype=bool)
    if kinds == {"i"}:
        try:
            return np.array(values, dtype=np.int64)
        except OverflowError:
            pass
    elif kinds and kinds <= {"i", "f", "n"} and "n" not in kinds or kinds in ({"f", "n"}, {"i", "n"}, {"i", "f", "n"}):
        return np.array([np.nan if v is None else v for v in values], dtype=float)
    res = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        res[i] = v
    if not values:
        return res
    return res


def _same(a, b):
    if a is b:
        return True
    try:
        return bool(a == b) and (isinstance(a, tuple) == isinstance(b, tuple))
    except Exception:  # pylint: disable=broad-except
        return False


class Index(_Gap):
    _dt = None

    def __init__(self, data=(), dtype=None, copy=False, name=None, **kw):
        if kw:
            raise StandInGap("Index(%s)" % ",".join(kw))
        if isinstance(data, Index) and name is None:
            name = data.name
        self._labels = list(data)
        self._dt = getattr(data, "_dt", None)
        self.name = name
        self._map = None

    # -- lookup
    def _where(self, label):
        try:
            if self._map is None:
                m = {}
                for i, x in enumerate(self._labels):
                    m.setdefault(x, []).append(i)
                self._map = m
            return self._map.get(label, [])
        except TypeError:
            return [i for i, x in enumerate(self._labels) if _same(x, label)]

    def get_loc(self, label):
        w = self._where(label)
        if not w:
            raise KeyError(label)
        return w[0] if len(w) == 1 else np.array([i in w for i in range(len(self))])

    @property
    def names(self):
        return [self.name]

    @names.setter
    def names(self, v):
        (self.name,) = v

    @property
    def values(self):
        # an empty part of an index keeps its type
        return np.array([], dtype=self._dt) if not self._labels and self._dt is not None else _arr(self._labels)

    @property
    def dtype(self):
        return self.values.dtype

    def _part(self, labels):
        res = type(self)(labels, name=self.name)
        if not labels:
            res._dt = self.dtype
        return res

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    @property
    def empty(self):
        return not len(self)

    @property
    def nlevels(self):
        return 1

    @property
    def is_unique(self):
        return all(len(self._where(x)) == 1 for x in self._labels)

    @property
    def has_duplicates(self):
        return not self.is_unique

    @property
    def is_monotonic(self):
        return all(not self._labels[i] > self._labels[i + 1] for i in range(len(self) - 1))

    is_monotonic_increasing = is_monotonic

    def tolist(self):
        return [x.item() if isinstance(x, np.generic) else x for x in self._labels]

    to_list = tolist

    def to_numpy(self):
        return self.values

    def sort_values(self):
        return type(self)(sorted(self._labels), name=self.name)

    def isin(self, values):
        vs = list(values)
        return np.array([any(_same(x, v) for v in vs) for x in self._labels], dtype=bool)

    def difference(self, other):
        other = list(other)
        res = []
        for x in self._labels:
            if not any(_same(x, y) for y in other) and not any(_same(x, y) for y in res):
                res.append(x)
        try:
            res.sort()
        except TypeError:
            pass
        return Index(res)

    def intersection(self, other):
        other = list(other)
        return Index([x for x in self._labels if any(_same(x, y) for y in other)])

    def union(self, other):
        res = list(self._labels) + [y for y in other if not any(_same(x, y) for x in self._labels)]
        try:
            res.sort()
        except TypeError:
            pass
        return Index(res)

    def duplicated(self):
        return np.array([any(_same(x, y) for y in self._labels[:i]) for i, x in enumerate(self._labels)], dtype=bool)

    def unique(self):
        return Index([x for x, d in zip(self._labels, self.duplicated()) if not d])

    def equals(self, other):
        return len(self) == len(other) and all(_same(a, b) for a, b in zip(self, other))

    def get_level_values(self, level):
        if level in (0, self.name):
            return self
        raise KeyError(level)

    def map(self, f):
        return Index([f(x) if callable(f) else f[x] for x in self._labels])

    def copy(self, deep=True):
        return type(self)(self._labels, name=self.name)

    def astype(self, t):
        return Index(list(self.values.astype(t)), name=self.name)

    def rename(self, name):
        return Index(self._labels, name=name)

    def append(self, other):
        return Index(self._labels + list(other))

    def max(self):
        return max(self._labels)

    def min(self):
        return min(self._labels)

    def __len__(self):
        return len(self._labels)

    def __iter__(self):
        return iter(self.tolist()) if type(self) is Index else iter(self._labels)

    def __contains__(self, x):
        return bool(self._where(x))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._part(self._labels[k])
        if isinstance(k, (list, np.ndarray)):
            k = np.asarray(k)
            if k.dtype == bool:
                k = np.where(k)[0]
            return self._part([self._labels[i] for i in k])
        return self._labels[k]

    def __array__(self, dtype=None, copy=None):
        return self.values if dtype is None else self.values.astype(dtype)

    def _cmp(self, other, op):
        if isinstance(other, (Index, Series, list, np.ndarray)):
            o = list(other)
            if len(o) != len(self):
                raise ValueError("Lengths must match to compare")
        else:
            o = [other] * len(self)
        return np.array([op(a, b) for a, b in zip(self._labels, o)], dtype=bool)

    def __eq__(self, other):
        return self._cmp(other, _same)

    def __ne__(self, other):
        return self._cmp(other, lambda a, b: not _same(a, b))

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    __hash__ = None

    def __sub__(self, other):
        return Index(list(self.values - np.asarray(other)))

    def __add__(self, other):
        return Index([x + other for x in self._labels])

    def __repr__(self):
        return "Index(%r)" % (self._labels,)


class RangeIndex(Index):
    def __init__(self, data=(), stop=None, **kw):
        if stop is not None:
            data = range(data, stop)
        elif isinstance(data, int):
            data = range(data)
        super().__init__(data, **kw)
        self._dt = np.dtype("int64")

    def __iter__(self):
        return iter(self.tolist())


class MultiIndex(Index):
    def __init__(self, tuples=(), names=None, name=None):
        super().__init__([tuple(t) for t in tuples])
        n = len(self._labels[0]) if self._labels else len(names or ())
        self._names = list(names) if names is not None else [None] * n

    @property
    def names(self):
        return list(self._names)

    @names.setter
    def names(self, v):
        self._names = list(v)

    @property
    def nlevels(self):
        return len(self._names)

    @property
    def values(self):
        res = np.empty(len(self), dtype=object)
        for i, x in enumerate(self._labels):
            res[i] = x
        return res

    @classmethod
    def from_product(cls, iterables, sortorder=None, names=None):
        import itertools
        its = [list(i) for i in iterables]
        if names is not None and len(names) != len(its):
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        # pandas keeps the labels of a level apart by hash, so equal labels collapse; labels here are distinct
        return cls(list(itertools.product(*its)), names=names)

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        return cls(list(tuples), names=names)

    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        return cls(list(zip(*[list(a) for a in arrays])), names=names)

    @classmethod
    def from_frame(cls, df, sortorder=None, names=None):
        cols = list(df.columns)
        return cls(list(zip(*[list(df._cols[i]) for i in range(len(cols))])), names=cols if names is None else names)

    def get_level_values(self, level):
        i = self._names.index(level) if level in self._names else level
        return Index([t[i] for t in self._labels], name=self._names[i])

    def copy(self, deep=True):
        return MultiIndex(self._labels, names=self._names)

    def __getitem__(self, k):
        r = super().__getitem__(k) if not isinstance(k, (slice, list, np.ndarray)) else None
        if r is not None:
            return r
        if isinstance(k, slice):
            return MultiIndex(self._labels[k], names=self._names)
        k = np.asarray(k)
        if k.dtype == bool:
            k = np.where(k)[0]
        return MultiIndex([self._labels[i] for i in k], names=self._names)

    def _partial(self, key):
        key = key if isinstance(key, tuple) else (key,)
        return [i for i, t in enumerate(self._labels) if all(_same(a, b) for a, b in zip(t, key))]

    def __repr__(self):
        return "MultiIndex(%r, names=%r)" % (self._labels, self._names)


def _index(x, n=None):
    if x is None:
        return RangeIndex(n)
    if isinstance(x, Index):
        return x.copy()
    x = list(x)
    if x and all(isinstance(t, tuple) for t in x):
        return MultiIndex(x)
    return Index(x)


class _Loc:
    """.loc / .iloc / .at / .iat of a Series or DataFrame."""

    def __init__(self, obj, positional, scalar=False):
        self.obj, self.pos, self.scalar = obj, positional, scalar

    def _resolve(self, index, key):
        """-> (list of positions, scalar?)"""
        n = len(index)
        if isinstance(key, slice):
            if self.pos:
                return list(range(n))[key], False
            lab = index._labels
            lo, hi = 0, n
            if key.step not in (None, 1):
                raise StandInGap("loc slice with step")
            if key.start is not None:
                lo = self._bound(index, key.start, True)
            if key.stop is not None:
                hi = self._bound(index, key.stop, False)
            return list(range(lo, hi)), False
        if isinstance(key, Series):
            key = key.values
        if isinstance(key, (list, np.ndarray, Index)):
            k = list(key)
            if k and all(isinstance(v, (bool, np.bool_)) for v in k) and not (
                    len(k) != n and all(v in index for v in k)):
                if len(k) != n:
                    raise IndexError("Boolean index has wrong length")
                return [i for i, v in enumerate(k) if v], False
            res = []
            for v in k:
                if self.pos:
                    res.append(range(n)[v])
                else:
                    w = index._where(v)
                    if not w:
                        raise KeyError("%r not in index" % (v,))
                    res.extend(w)
            return res, False
        if self.pos:
            if not isinstance(key, (int, np.integer)):
                raise TypeError("Cannot index by location index with a non-integer key")
            if not -n <= key < n:
                raise IndexError("single positional indexer is out-of-bounds")
            return [range(n)[key]], True
        if isinstance(key, (bool, np.bool_)) and not any(isinstance(x, (bool, np.bool_)) for x in index._labels):
            raise KeyError("%s: boolean label can not be used without a boolean index" % key)
        w = index._where(key)
        if not w and isinstance(index, MultiIndex):
            w = index._partial(key)
            if w and index.nlevels > len(key if isinstance(key, tuple) else (key,)):
                raise StandInGap("partial MultiIndex key")
        if not w:
            raise KeyError(key)
        return w, len(w) == 1

    @staticmethod
    def _bound(index, label, left):
        lab = index._labels
        w = index._where(label)
        if w:
            return w[0] if left else w[-1] + 1
        try:
            if any(lab[i] > lab[i + 1] for i in range(len(lab) - 1)):
                raise KeyError(label)
            return sum(1 for x in lab if (x < label if left else x <= label))
        except TypeError:
            raise KeyError(label) from None

    def _split(self, key):
        o = self.obj
        if isinstance(o, DataFrame):
            if isinstance(key, tuple) and len(key) == 2 and not (isinstance(o.index, MultiIndex) and not self.pos):
                return key
            return key, slice(None)
        return (key if not (isinstance(key, tuple) and len(key) == 1 and not isinstance(o.index, MultiIndex)) else key[0]), None

    def __getitem__(self, key):
        o = self.obj
        if callable(key):
            key = key(o)
        rk, ck = self._split(key)
        if isinstance(o, Series):
            rows, s = self._resolve(o.index, rk)
            if s:
                return o._v[rows[0]]
            return Series(o._v[rows], index=o.index[rows], name=o.name)
        if isinstance(rk, DataFrame):
            raise StandInGap("loc[DataFrame]")
        rows, rs = self._resolve(o.index, rk)
        cols, cs = self._resolve(o.columns, ck)
        if rs and cs:
            return o._cols[cols[0]][rows[0]]
        if cs:
            return Series(o._cols[cols[0]][rows], index=o.index[rows], name=o.columns._labels[cols[0]])
        if rs:
            return o._row(rows[0], cols)
        return o._take(rows, cols)

    def __setitem__(self, key, value):
        o = self.obj
        if callable(key):
            key = key(o)
        rk, ck = self._split(key)
        if isinstance(o, Series):
            try:
                rows, s = self._resolve(o.index, rk)
            except KeyError:
                if self.pos or isinstance(rk, (slice, list, np.ndarray)):
                    raise
                o.index = Index(o.index._labels + [rk])
                o._v = _arr(list(o._v) + [value])
                return
            old, o._v = o._v, _assign(o._v, rows, value if not isinstance(value, Series) else value.values)
            _through(o._src, old, o._v)
            return
        if not self.pos and not isinstance(ck, (slice, list, np.ndarray, Index)) and ck not in o.columns:
            o[ck] = np.full(len(o), np.nan)
        try:
            rows, rs = self._resolve(o.index, rk)
        except KeyError:
            if self.pos or isinstance(rk, (slice, list, np.ndarray, Series, Index)):
                raise
            o._enlarge(rk)
            rows, rs = [len(o.index) - 1], True
        cols, cs = self._resolve(o.columns, ck)
        if isinstance(value, (Series, DataFrame)):
            raise StandInGap("loc assignment of a labelled object")
        v = np.asarray(value, dtype=object) if not np.isscalar(value) and value is not None else None
        for j, c in enumerate(cols):
            if v is None:
                part = value
            elif v.ndim == 2:
                part = list(v[:, j])
            elif rs and not cs:
                part = v[j]
            elif cs or len(cols) == 1:
                part = list(v)
            else:
                part = v[j]
            old, o._cols[c] = o._cols[c], _assign(o._cols[c], rows, part)
            if o.__dict__.get("_src") is not None:
                _through((o._src, c), old, o._cols[c])


def _outside():
    return sys._getframe(2).f_globals.get("__name__") != __name__


def _through(src, old, new):
    """write to what the changed object shares its data with"""
    if isinstance(src, tuple):
        frame, c = src
        if isinstance(frame, DataFrame):
            if c < len(frame._cols) and frame._cols[c].dtype == new.dtype and len(frame._cols[c]) == len(new):
                was, frame._cols[c] = frame._cols[c], new.copy()
                if frame.__dict__.get("_src") is not None:
                    _through((frame._src, c), was, new)
        elif frame.ndim == 2 and frame.dtype == new.dtype and len(frame) == len(new):
            frame[:, c] = new
    elif isinstance(src, Series):
        if src._v.dtype == new.dtype and len(src) == len(new):
            was, src._v = src._v, new.copy()
            _through(src._src, was, new)
    elif isinstance(src, np.ndarray):
        if src.dtype == new.dtype and src.shape == new.shape:
            src[...] = new


def _assign(arr, rows, value):
    vals = list(value) if _is_listlike(value) and not isinstance(value, tuple) else [value] * len(rows)
    if len(vals) != len(rows):
        raise ValueError("cannot set using a list-like indexer with a different length than the value")
    new = list(arr)
    for r, v in zip(rows, vals):
        new[r] = v
    res = _arr(new)
    if arr.dtype.kind == "f" and res.dtype.kind in "ib":
        res = res.astype(float)
    if arr.dtype == object and res.dtype != object:
        res = res.astype(object)
    return res


class _Str(_Gap):
    def __init__(self, s):
        self.s = s

    def _do(self, f):
        return Series([f(x) for x in self.s._v], index=self.s.index, name=self.s.name)

    def lower(self):
        return self._do(str.lower)

    def strip(self, *a):
        return self._do(lambda x: x.strip(*a))


class Series(_Gap):
    def __init__(self, data=None, index=None, dtype=None, name=None, copy=False):
        given = data
        shares = isinstance(data, np.ndarray) or isinstance(data, Series) and index is None
        if isinstance(data, dict):
            if index is None:
                index = list(data)
                data = list(data.values())
            else:
                index = list(index)
                data = [data.get(k, np.nan) for k in index]
        elif isinstance(data, Series):
            if index is None:
                index = data.index
            name = data.name if name is None else name
            if index is not data.index:
                data = [data._v[data.index._where(k)[0]] if k in data.index else np.nan for k in index]
        elif data is None:
            data = [] if index is None else [np.nan] * len(list(index))
        elif not _is_listlike(data):
            data = [data] * (len(list(index)) if index is not None else 1)
        self._v = _arr(data)
        if dtype is not None:
            self._v = self._v.astype(dtype)
        self._i = _index(index, len(self._v))
        if len(self._i) != len(self._v):
            raise ValueError("Length of passed values is %d, index implies %d." % (len(self._v), len(self._i)))
        self.name = name
        # pandas shares the data of a Series or array it is built from: what is set here later is set there too
        self._src = given if dtype is None and not copy and _outside() and shares else None

    _src = None

    index = property(lambda self: self._i, lambda self, v: setattr(self, "_i", _index(v)))
    values = property(lambda self: self._v)
    dtype = property(lambda self: self._v.dtype)
    shape = property(lambda self: self._v.shape)
    size = property(lambda self: self._v.size)
    ndim = 1
    empty = property(lambda self: not len(self._v))
    loc = property(lambda self: _Loc(self, False))
    iloc = property(lambda self: _Loc(self, True))
    at = property(lambda self: _Loc(self, False))
    iat = property(lambda self: _Loc(self, True))
    str = property(_Str)

    def to_numpy(self, *a, **k):
        return self._v

    def __array__(self, dtype=None, copy=None):
        return self._v if dtype is None else self._v.astype(dtype)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v.tolist())

    def __contains__(self, k):
        return k in self.index

    def tolist(self):
        return self._v.tolist()

    to_list = tolist

    def items(self):
        return zip(self.index, self._v)

    iteritems = items

    def keys(self):
        return self.index

    def to_dict(self):
        return {k: v for k, v in zip(self.index.tolist(), self.tolist())}

    def get(self, key, default=None):
        return self[key] if key in self.index else default

    def __getitem__(self, key):
        if isinstance(key, slice):
            return Series(self._v[key], index=self.index[key], name=self.name) if not any(
                isinstance(x, str) for x in (key.start, key.stop)) else self.loc[key]
        if isinstance(key, (Series, list, np.ndarray, Index)):
            return self.loc[key]
        w = self.index._where(key)
        if not w and isinstance(key, (int, np.integer)) and not isinstance(key, bool) and not any(
                isinstance(x, (int, np.integer)) for x in self.index._labels):
            return self._v[key]
        return self.loc[key]

    def __setitem__(self, key, value):
        if isinstance(key, slice) and key == slice(None) and _is_listlike(value) and len(value) == len(self):
            # pandas 1.0 to 1.2: a full replacement takes the type of the new values
            old, self._v = self._v, _arr(value.values if isinstance(value, Series) else value)
            _through(self._src, old, self._v)
            return
        self.loc[key] = value

    def unique(self):
        seen, res = set(), []
        for x in self._v:
            k = "nan" if isinstance(x, float) and x != x else x
            if k not in seen:
                seen.add(k)
                res.append(x)
        return np.array(res, dtype=self._v.dtype) if self._v.dtype != object else _obj(res)

    def nunique(self):
        return len([x for x in self.unique() if not _null(x)])

    def map(self, f, na_action=None):
        if isinstance(f, dict):
            g = lambda x: f[x] if x in f else np.nan  # noqa: E731
        elif isinstance(f, Series):
            g = lambda x: f.loc[x] if x in f.index else np.nan  # noqa: E731
        else:
            g = f
        return Series([g(x) for x in self._v.tolist()], index=self.index, name=self.name)

    def apply(self, f, args=(), **kw):
        return Series([f(x, *args, **kw) for x in self._v.tolist()], index=self.index, name=self.name)

    def replace(self, d):
        return Series([d.get(x, x) for x in self._v.tolist()], index=self.index, name=self.name)

    def astype(self, t):
        if t in ("category",):
            raise StandInGap("category")
        v = _obj([str(x) for x in self._v]) if t is str else self._v.astype(t)
        return Series(v, index=self.index, name=self.name)

    def copy(self, deep=True):
        return Series(self._v.copy() if deep else self._v, index=self.index, name=self.name)

    def isnull(self):
        return Series([_null(x) for x in self._v], index=self.index, name=self.name)

    isna = isnull

    def notnull(self):
        return Series([not _null(x) for x in self._v], index=self.index, name=self.name)

    notna = notnull

    def isin(self, vs):
        return Series(Index(list(self._v)).isin(vs), index=self.index, name=self.name)

    def idxmax(self):
        if not len(self):
            raise ValueError("attempt to get argmax of an empty sequence")
        v = self._v.astype(float)
        return self.index._labels[int(np.nanargmax(v))]

    def idxmin(self):
        return self.index._labels[int(np.nanargmin(self._v.astype(float)))]

    argmax = lambda self: int(np.argmax(self._v))  # noqa: E731

    def any(self, *a, **k):
        return bool(np.any(self._v.astype(bool)))

    def all(self, *a, **k):
        return bool(np.all(self._v.astype(bool)))

    def sum(self, *a, **k):
        return self._v.sum()

    def mean(self, *a, **k):
        return self._v.mean()

    def max(self, *a, **k):
        return self._v.max()

    def min(self, *a, **k):
        return self._v.min()

    def std(self, ddof=1):
        return self._v.std(ddof=ddof)

    def round(self, n=0):
        return Series(np.round(self._v, n), index=self.index, name=self.name)

    def value_counts(self, normalize=False, sort=True):
        u = list(self.unique())
        c = [int(sum(1 for y in self._v if _same(x, y))) for x in u]
        o = sorted(range(len(u)), key=lambda i: -c[i]) if sort else range(len(u))
        t = float(len(self)) if normalize else 1
        return Series([c[i] / t if normalize else c[i] for i in o], index=[u[i] for i in o])

    def reset_index(self, drop=False):
        if drop:
            return Series(self._v, name=self.name)
        raise StandInGap("Series.reset_index")

    def rename(self, name):
        if callable(name) or isinstance(name, dict):
            return Series(self._v, index=self.index.map(name), name=self.name)
        return Series(self._v, index=self.index, name=name)

    def sort_index(self):
        o = sorted(range(len(self)), key=lambda i: self.index._labels[i])
        return Series(self._v[o], index=self.index[o], name=self.name)

    def sort_values(self, ascending=True):
        o = sorted(range(len(self)), key=lambda i: self._v[i], reverse=not ascending)
        return Series(self._v[o], index=self.index[o], name=self.name)

    def reindex(self, index):
        return Series(self, index=list(index))

    def to_frame(self, name=None):
        return DataFrame({self.name if name is None else name: self})

    def dropna(self):
        return self[~np.array([_null(x) for x in self._v])]

    def fillna(self, x):
        return Series([x if _null(y) else y for y in self._v], index=self.index, name=self.name)

    def head(self, n=5):
        return self[:n]

    def _bin(self, other, f):
        if isinstance(other, Series):
            if not self.index.equals(other.index):
                other = Series(other, index=list(self.index))
            o = other._v
        elif _is_listlike(other):
            o = _arr(other)
            if len(o) != len(self):
                raise ValueError("Lengths must match")
        else:
            o = other
        if self._v.dtype == object or (isinstance(o, np.ndarray) and o.dtype == object) or isinstance(o, (type(""), tuple)):
            os_ = list(o) if isinstance(o, np.ndarray) else [o] * len(self)
            r = _arr([f(a, b) for a, b in zip(self._v.tolist(), os_)])
        else:
            r = f(self._v, o)
        return Series(r, index=self.index, name=self.name)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b)

    def __invert__(self):
        return Series(~self._v, index=self.index, name=self.name)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __neg__(self):
        return Series(-self._v, index=self.index, name=self.name)

    def abs(self):
        return Series(abs(self._v), index=self.index, name=self.name)

    __abs__ = abs
    __hash__ = None

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def __repr__(self):
        return "Series(%r, index=%r, name=%r)" % (self._v.tolist(), list(self.index), self.name)


__builtins_str = str


def _obj(values):
    res = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        res[i] = v
    return res


class DataFrame(_Gap):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=False):
        cols = None
        self.__dict__["_src"] = data if dtype is None and not copy and index is None and columns is None and isinstance(
            data, (DataFrame, np.ndarray)) and _outside() else None
        if isinstance(data, DataFrame):
            cols = [c.copy() for c in data._cols]
            columns0 = data.columns.copy()
            idx = data.index.copy()
            if columns is not None or index is not None:
                t = data
                if columns is not None:
                    t = t[list(columns)]
                if index is not None:
                    t = t.loc[list(index)]
                cols, columns0, idx = t._cols, t.columns, t.index
            self._set(cols, idx, columns0)
        elif isinstance(data, dict):
            keys = list(columns) if columns is not None else list(data)
            n, idx = None, _index(index) if index is not None else None
            for k in keys:
                v = data.get(k)
                if isinstance(v, Series):
                    if idx is None:
                        idx = v.index.copy()
                if _is_listlike(v):
                    n = len(v) if n is None else n
            if idx is None:
                idx = RangeIndex(n or 0)
            cols = []
            for k in keys:
                v = data.get(k, np.nan)
                if isinstance(v, Series):
                    v = Series(v, index=list(idx))._v if not v.index.equals(idx) else v._v.copy()
                elif not _is_listlike(v):
                    v = _arr([v] * len(idx))
                else:
                    v = _arr(v)
                if len(v) != len(idx):
                    raise ValueError("arrays must all be same length")
                cols.append(v)
            self._set(cols, idx, _index(columns if columns is not None else (data if not data else list(data))))
        elif isinstance(data, (np.ndarray, list, tuple, type(None))) or (_is_listlike(data) and not isinstance(data, (Series,))):
            if data is None:
                nrow = len(list(index)) if index is not None else 0
                names = _index(columns, 0) if columns is not None else Index([])
                cols = [np.full(nrow, np.nan) if nrow else _obj([]) for _ in range(len(names))]
                self._set(cols, _index(index, nrow), names)
            elif isinstance(data, np.ndarray):
                a = data
                if a.ndim == 1:
                    a = a.reshape(-1, 1)
                if a.ndim != 2:
                    raise ValueError("Must pass 2-d input")
                names = _index(columns, a.shape[1])
                if len(names) != a.shape[1]:
                    raise ValueError("Shape of passed values is %s, indices imply %s" % (a.shape, (a.shape[0], len(names))))
                if a.dtype == object:
                    cols = [_obj(list(a[:, j])) for j in range(a.shape[1])]
                else:
                    cols = [_arr(a[:, j]) for j in range(a.shape[1])]
                self._set(cols, _index(index, a.shape[0]), names)
            else:
                rows = list(data)
                if rows and all(isinstance(r, dict) for r in rows):
                    keys = list(columns) if columns is not None else list(dict.fromkeys(k for r in rows for k in r))
                    self._set([_arr([r.get(k, np.nan) for r in rows]) for k in keys], _index(index, len(rows)), _index(keys))
                elif rows and all(isinstance(r, Series) for r in rows):
                    keys = list(columns) if columns is not None else list(rows[0].index)
                    self._set([_arr([r.loc[k] for r in rows]) for k in keys],
                              _index(index if index is not None else [r.name for r in rows]), _index(keys))
                else:
                    if rows and not _is_listlike(rows[0]):
                        rows = [[r] for r in rows]
                    w = len(rows[0]) if rows else (len(list(columns)) if columns is not None else 0)
                    names = _index(columns, w)
                    if any(len(r) != w for r in rows) or len(names) != w:
                        raise ValueError("%d columns passed, passed data had %d columns" % (len(names), w))
                    self._set([_arr([r[j] for r in rows]) for j in range(w)], _index(index, len(rows)), names)
        elif isinstance(data, Series):
            name = data.name if columns is None else list(columns)[0]
            self._set([data._v.copy()], data.index.copy(), Index([0 if name is None else name]))
        else:
            raise StandInGap("DataFrame(%s)" % type(data).__name__)
        if dtype is not None:
            self._cols = [c.astype(dtype) for c in self._cols]
        for c in self._cols:
            if len(c) != len(self._i):
                raise ValueError("Shape of passed values is (%d, %d), indices imply (%d, %d)" % (
                    len(c), len(self._cols), len(self._i), len(self._cols)))

    def _set(self, cols, idx, names):
        self.__dict__["_cols"] = list(cols)
        self.__dict__["_i"] = idx
        self.__dict__["_c"] = names
        if len(names) != len(cols):
            raise ValueError("Length mismatch: %d columns, %d names" % (len(cols), len(names)))

    @classmethod
    def _new(cls, cols, idx, names):
        r = cls.__new__(cls)
        r._set(cols, idx, names)
        return r

    def _take(self, rows, cols):
        return DataFrame._new([self._cols[c][rows] for c in cols], self._i[rows], self._c[cols])

    def _row(self, r, cols=None):
        cols = range(len(self._cols)) if cols is None else cols
        dts = {self._cols[c].dtype for c in cols}
        vals = [self._cols[c][r] for c in cols]
        if len(dts) > 1 and not all(d.kind in "if" for d in dts):
            vals = _obj([v.item() if isinstance(v, np.generic) and False else v for v in vals])
        elif len(dts) > 1:
            vals = np.array(vals, dtype=float)
        else:
            vals = np.array(vals, dtype=dts.pop()) if dts and next(iter(dts)) != object else _obj(vals)
        return Series(vals, index=self._c[list(cols)], name=self._i._labels[r])

    def _enlarge(self, label):
        self._i = Index(self._i._labels + [label])
        self._cols = [_arr(list(c) + [np.nan]) for c in self._cols]

    # -- attributes
    index = property(lambda self: self._i)
    columns = property(lambda self: self._c)

    @index.setter
    def index(self, v):
        v = _index(v)
        if len(v) != len(self._i):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._i), len(v)))
        self._i = v

    @columns.setter
    def columns(self, v):
        v = _index(v)
        if len(v) != len(self._c):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._c), len(v)))
        self._c = v

    def __setattr__(self, k, v):
        if k in ("_cols", "_i", "_c", "is_copy", "_is_copy", "name", "attrs"):
            self.__dict__[k] = v
        elif k in ("index", "columns"):
            getattr(type(self), k).fset(self, v)
        elif k in self.__dict__.get("_c", ()):
            self[k] = v
        else:
            self.__dict__[k] = v

    def __getattr__(self, k):
        if k.startswith("__") or "_c" not in self.__dict__:
            raise AttributeError(k)
        if k in self._c:
            return self[k]
        raise StandInGap("pandas DataFrame.%s" % k)

    @property
    def values(self):
        if not self._cols:
            return np.empty((len(self._i), 0))
        kinds = {c.dtype.kind for c in self._cols}
        if len({c.dtype for c in self._cols}) == 1:
            t = self._cols[0].dtype
        elif kinds <= {"i", "f", "u"}:
            t = float if "f" in kinds else np.int64
        else:
            t = object
        res = np.empty((len(self._i), len(self._cols)), dtype=t)
        for j, c in enumerate(self._cols):
            res[:, j] = c
        return res

    def to_numpy(self, dtype=None, **k):
        return self.values if dtype is None else self.values.astype(dtype)

    def __array__(self, dtype=None, copy=None):
        return self.values if dtype is None else self.values.astype(dtype)

    shape = property(lambda self: (len(self._i), len(self._cols)))
    ndim = 2
    size = property(lambda self: len(self._i) * len(self._cols))
    empty = property(lambda self: not (len(self._i) and len(self._cols)))
    dtypes = property(lambda self: Series(_obj([c.dtype for c in self._cols]), index=self._c.copy()))
    loc = property(lambda self: _Loc(self, False))
    iloc = property(lambda self: _Loc(self, True))
    at = property(lambda self: _Loc(self, False))
    iat = property(lambda self: _Loc(self, True))
    T = property(lambda self: self.transpose())

    def transpose(self):
        v = self.values
        return DataFrame(v.T, index=self._c.copy(), columns=self._i.copy())

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(self._c)

    def keys(self):
        return self._c

    def __contains__(self, k):
        return k in self._c

    def items(self):
        for j, c in enumerate(self._c):
            yield c, Series(self._cols[j], index=self._i, name=c)

    iteritems = items

    def iterrows(self):
        for r, lab in enumerate(self._i):
            yield lab, self._row(r)

    def itertuples(self, index=True, name="Pandas"):
        for r, lab in enumerate(self._i):
            yield tuple(([lab] if index else []) + [c[r] for c in self._cols])

    def __getitem__(self, key):
        if callable(key):
            key = key(self)
        if isinstance(key, slice):
            return self.iloc[key, :] if not isinstance(key.start, str) else self.loc[key, :]
        if isinstance(key, DataFrame):
            raise StandInGap("df[mask frame]")
        if isinstance(key, (Series, np.ndarray, list, Index)):
            k = list(key)
            if k and all(isinstance(v, (bool, np.bool_)) for v in k) and not (
                    len(k) != len(self) and all(v in self._c for v in k)):
                if isinstance(key, Series) or len(k) == len(self):
                    return self.loc[np.array(k, dtype=bool), :]
            pos = []
            for v in k:
                w = self._c._where(v)
                if not w:
                    raise KeyError("%r not in index" % (v,))
                pos.extend(w)
            return self._take(list(range(len(self))), pos)
        w = self._c._where(key)
        if not w and isinstance(self._c, MultiIndex):
            if self._c._partial(key):
                if self._c.nlevels == 1:
                    w = self._c._partial(key)
                else:
                    raise StandInGap("partial MultiIndex column key")
        if not w:
            raise KeyError(key)
        if len(w) > 1:
            return self._take(list(range(len(self))), w)
        s = Series.__new__(Series)
        s.__dict__.update(_v=self._cols[w[0]], _i=self._i, name=self._c._labels[w[0]])
        return s

    def get(self, key, default=None):
        return self[key] if key in self._c else default

    def __setitem__(self, key, value):
        if isinstance(key, (list, np.ndarray, Index)):
            v = value.values if isinstance(value, (DataFrame,)) else np.asarray(value)
            for j, k in enumerate(key):
                self[k] = v[:, j] if v.ndim == 2 else v
            return
        if isinstance(value, DataFrame):
            if value.shape[1] != 1:
                raise ValueError("Columns must be same length as key")
            value = value[list(value.columns)[0]]
        if isinstance(value, Series):
            v = value._v.copy() if value.index.equals(self._i) or not len(self._c) else Series(value, index=list(self._i))._v
            if not len(self._c):
                self._i = value.index.copy()
        elif _is_listlike(value) and not isinstance(value, tuple):
            v = _arr(list(value) if not isinstance(value, np.ndarray) else value)
            if len(v) != len(self._i):
                if len(self._c) or len(self._i):
                    raise ValueError("Length of values does not match length of index")
                self._i = RangeIndex(len(v))
        else:
            v = _arr([value] * len(self._i))
        w = self._c._where(key)
        if w:
            for j in w:
                self._cols[j] = v
        else:
            self._cols = self._cols + [v]
            if isinstance(self._c, MultiIndex):
                raise StandInGap("new column on MultiIndex columns")
            self._c = Index(self._c._labels + [key], name=self._c.name)

    def __delitem__(self, key):
        w = self._c._where(key)
        if not w:
            raise KeyError(key)
        keep = [j for j in range(len(self._cols)) if j not in w]
        self._set([self._cols[j] for j in keep], self._i, self._c[keep])

    def pop(self, key):
        s = self[key].copy()
        del self[key]
        return s

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def insert(self, loc, column, value):
        if column in self._c:
            raise ValueError("cannot insert %s, already exists" % (column,))
        self[column] = value
        order = list(range(len(self._cols) - 1))
        order.insert(loc, len(self._cols) - 1)
        self._set([self._cols[j] for j in order], self._i, self._c[order])

    # -- whole-frame methods
    def copy(self, deep=True):
        return DataFrame._new([c.copy() if deep else c for c in self._cols], self._i.copy(), self._c.copy())

    def __copy__(self):
        return self.copy(False)

    def __deepcopy__(self, memo):
        return self.copy(True)

    def _finish(self, r, inplace):
        if inplace:
            self._set(r._cols, r._i, r._c)
            return None
        return r

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors="raise"):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        r = self.copy()
        if columns is not None:
            cs = list(columns) if _is_listlike(columns) and not isinstance(columns, tuple) else [columns]
            for c in cs:
                if c not in r._c:
                    if errors == "raise":
                        raise KeyError("%r not found in axis" % (cs,))
                    continue
                del r[c]
        if index is not None:
            ls = list(index) if _is_listlike(index) and not isinstance(index, tuple) else [index]
            for x in ls:
                if x not in r._i and errors == "raise":
                    raise KeyError("%r not found in axis" % (ls,))
            keep = [k for k, x in enumerate(r._i._labels) if not any(_same(x, y) for y in ls)]
            r = r._take(keep, list(range(len(r._cols))))
        return self._finish(r, inplace)

    def rename(self, mapper=None, index=None, columns=None, axis=None, copy=True, inplace=False, errors="ignore"):
        if mapper is not None:
            if axis in (1, "columns"):
                columns = mapper
            else:
                index = mapper
        r = self.copy()

        def new(idx, m):
            return Index([m(x) if callable(m) else (m[x] if x in m else x) for x in idx._labels], name=idx.name)
        if columns is not None:
            r._c = new(r._c, columns)
        if index is not None:
            r._i = new(r._i, index)
        return self._finish(r, inplace)

    def set_index(self, keys, drop=True, append=False, inplace=False, verify_integrity=False):
        ks = keys if isinstance(keys, list) else [keys]
        if append or len(ks) != 1:
            raise StandInGap("set_index with several keys")
        r = self.copy()
        r._i = Index(list(r[ks[0]]._v.tolist()) if False else list(r[ks[0]]._v), name=ks[0])
        if drop:
            del r[ks[0]]
        return self._finish(r, inplace)

    def reset_index(self, level=None, drop=False, inplace=False):
        r = self.copy()
        if not drop:
            name = self._i.name if self._i.name is not None else "index"
            r._set([self._i.values] + r._cols, r._i, Index([name] + r._c._labels))
        r._i = RangeIndex(len(self))
        return self._finish(r, inplace)

    def reindex(self, labels=None, index=None, columns=None, axis=None):
        if labels is not None:
            columns, index = (labels, index) if axis in (1, "columns") else (columns, labels)
        r = self
        if columns is not None:
            cs = list(columns)
            r = DataFrame._new([r[c]._v.copy() if c in r._c else np.full(len(r), np.nan) for c in cs], r._i.copy(), _index(cs))
        if index is not None:
            ix = list(index)
            r = DataFrame._new([Series(Series(c, index=r._i), index=ix)._v for c in r._cols], _index(ix), r._c.copy())
        return r

    def astype(self, t):
        r = self.copy()
        for j, c in enumerate(r._c):
            u = t.get(c) if isinstance(t, dict) else t
            if u is not None:
                r._cols[j] = Series(r._cols[j]).astype(u)._v
        return r

    def select_dtypes(self, include=None, exclude=None):
        def hit(dt, spec):
            spec = [spec] if not isinstance(spec, (list, tuple)) else spec
            for s in spec:
                if s in ("number", np.number):
                    if dt.kind in "iufc":
                        return True
                elif s in ("object", object, "O"):
                    if dt == object:
                        return True
                elif s in ("bool", bool):
                    if dt.kind == "b":
                        return True
                else:
                    try:
                        if dt == np.dtype(s):
                            return True
                    except TypeError:
                        raise StandInGap("select_dtypes(%r)" % (s,)) from None
            return False
        keep = [j for j, c in enumerate(self._cols)
                if (include is None or hit(c.dtype, include)) and (exclude is None or not hit(c.dtype, exclude))]
        return self._take(list(range(len(self))), keep)

    def apply(self, f, axis=0, raw=False, result_type=None, args=(), **kw):
        if raw or result_type is not None:
            raise StandInGap("apply(raw/result_type)")
        if axis in (1, "columns"):
            if not len(self):
                return self.copy()
            res = [f(self._row(r), *args, **kw) for r in range(len(self))]
            idx = self._i
        else:
            res = [f(self[c], *args, **kw) for c in self._c]
            idx = self._c
        if res and isinstance(res[0], Series):
            if axis in (1, "columns"):
                return DataFrame([list(x) for x in res], index=idx.copy(), columns=list(res[0].index))
            return DataFrame({c: x for c, x in zip(self._c, res)})
        return Series(res, index=idx.copy())

    def applymap(self, f):
        return DataFrame._new([_arr([f(x) for x in c.tolist()]) for c in self._cols], self._i.copy(), self._c.copy())

    def _map(self, f):
        return DataFrame._new([f(c) for c in self._cols], self._i.copy(), self._c.copy())

    def isnull(self):
        return self._map(lambda c: np.array([_null(x) for x in c], dtype=bool))

    isna = isnull

    def notnull(self):
        return self._map(lambda c: np.array([not _null(x) for x in c], dtype=bool))

    notna = notnull

    def fillna(self, x):
        return self._map(lambda c: _arr([x if _null(y) else y for y in c]))

    def dropna(self):
        return self[~self.isnull().values.any(axis=1)]

    def _reduce(self, axis, f, colf):
        if axis is None:
            return f(self.values)
        if axis in (0, "index"):
            return Series([colf(c) for c in self._cols], index=self._c.copy())
        return Series([colf(np.asarray([c[r] for c in self._cols])) for r in range(len(self))], index=self._i.copy())

    def any(self, axis=0, **k):
        return self._reduce(axis, lambda v: bool(v.astype(bool).any()), lambda c: bool(c.astype(bool).any()))

    def all(self, axis=0, **k):
        return self._reduce(axis, lambda v: bool(v.astype(bool).all()), lambda c: bool(c.astype(bool).all()))

    def sum(self, axis=0, **k):
        return self._reduce(axis, lambda v: v.sum(), lambda c: c.sum())

    def mean(self, axis=0, **k):
        return self._reduce(axis, lambda v: v.mean(), lambda c: c.mean())

    def max(self, axis=0, **k):
        return self._reduce(axis, lambda v: v.max(), lambda c: c.max())

    def min(self, axis=0, **k):
        return self._reduce(axis, lambda v: v.min(), lambda c: c.min())

    def std(self, axis=0, ddof=1):
        return self._reduce(axis, lambda v: v.std(ddof=ddof), lambda c: c.std(ddof=ddof))

    def abs(self):
        return self._map(np.abs)

    def round(self, n=0):
        return self._map(lambda c: np.round(c, n))

    def idxmax(self, axis=0):
        if axis in (1, "columns"):
            return Series([self._row(r).idxmax() for r in range(len(self))], index=self._i.copy())
        return Series([self[c].idxmax() for c in self._c], index=self._c.copy())

    def head(self, n=5):
        return self.iloc[:n, :]

    def tail(self, n=5):
        return self.iloc[max(0, len(self) - n):, :]

    def sort_index(self, axis=0, ascending=True):
        if axis in (1, "columns"):
            o = sorted(range(len(self._cols)), key=lambda j: self._c._labels[j], reverse=not ascending)
            return self._take(list(range(len(self))), o)
        o = sorted(range(len(self)), key=lambda j: self._i._labels[j], reverse=not ascending)
        return self._take(o, list(range(len(self._cols))))

    def sort_values(self, by, ascending=True):
        by = by if isinstance(by, list) else [by]
        o = sorted(range(len(self)), key=lambda r: tuple(self[b]._v[r] for b in by), reverse=not ascending)
        return self._take(o, list(range(len(self._cols))))

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [{c: self._cols[j][r] for j, c in enumerate(self._c)} for r in range(len(self))]
        if orient == "list":
            return {c: self._cols[j].tolist() for j, c in enumerate(self._c)}
        if orient == "dict":
            return {c: dict(zip(self._i.tolist(), self._cols[j].tolist())) for j, c in enumerate(self._c)}
        if orient == "index":
            return {i: {c: self._cols[j][r] for j, c in enumerate(self._c)} for r, i in enumerate(self._i.tolist())}
        raise StandInGap("to_dict(%s)" % orient)

    def drop_duplicates(self):
        seen, keep = set(), []
        for r in range(len(self)):
            k = tuple(c[r] for c in self._cols)
            if k not in seen:
                seen.add(k)
                keep.append(r)
        return self._take(keep, list(range(len(self._cols))))

    def equals(self, other):
        return isinstance(other, DataFrame) and self._i.equals(other._i) and self._c.equals(other._c) and all(
            len(a) == len(b) and all(_same(x, y) or (_null(x) and _null(y)) for x, y in zip(a, b))
            for a, b in zip(self._cols, other._cols))

    def _bin(self, other, f):
        if isinstance(other, DataFrame):
            return DataFrame._new([f(a, b) for a, b in zip(self._cols, other[list(self._c)]._cols)], self._i.copy(), self._c.copy())
        if isinstance(other, Series):
            o = Series(other, index=list(self._c))._v
            return DataFrame._new([f(a, b) for a, b in zip(self._cols, o)], self._i.copy(), self._c.copy())
        return self._map(lambda c: f(c, other))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __invert__(self):
        return self._map(lambda c: ~c)

    __hash__ = None

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous.")

    def __repr__(self):
        return "DataFrame(%r)" % {str(c): self._cols[j].tolist() for j, c in enumerate(self._c)}


def isnull(x):
    if isinstance(x, (Series, DataFrame)):
        return x.isnull()
    if isinstance(x, (list, tuple, np.ndarray, Index)):
        a = x if isinstance(x, np.ndarray) else list(x)
        if isinstance(a, np.ndarray) and a.ndim > 1:
            return np.array([[_null(v) for v in r] for r in a], dtype=bool)
        return np.array([_null(v) for v in a], dtype=bool)
    return _null(x)


isna = isnull


def notnull(x):
    r = isnull(x)
    return ~r if not isinstance(r, bool) else not r


notna = notnull


def unique(values):
    return Series(list(values)).unique()


def get_dummies(data, prefix=None, prefix_sep="_", dummy_na=False, columns=None, drop_first=False, dtype=None, **k):
    if isinstance(data, DataFrame) or prefix is not None or dummy_na or drop_first or k:
        raise StandInGap("get_dummies of a frame / with options")
    s = data if isinstance(data, Series) else Series(list(data))
    levels = [x for x in s.unique() if not _null(x)]
    try:
        levels = sorted(levels)
    except TypeError:
        pass
    t = np.uint8 if dtype is None else dtype
    return DataFrame._new([np.array([_same(x, v) for x in s._v], dtype=t) for v in levels], s.index.copy(), Index(levels))


def concat(objs, axis=0, join="outer", ignore_index=False, sort=False, keys=None, **k):
    objs = [o for o in objs if o is not None]
    if keys is not None or k:
        raise StandInGap("concat(keys=...)")
    if not objs:
        raise ValueError("No objects to concatenate")
    if axis in (1, "columns"):
        fr = [o if isinstance(o, DataFrame) else o.to_frame() for o in objs]
        idx = fr[0]._i
        for f in fr[1:]:
            if not f._i.equals(idx):
                labels = list(idx._labels) + [x for x in f._i._labels if x not in idx]
                try:
                    labels = sorted(labels)
                except TypeError:
                    pass
                if join == "inner":
                    labels = [x for x in idx._labels if x in f._i]
                idx = Index(labels)
        cols, names = [], []
        for f in fr:
            g = f if f._i.equals(idx) else f.reindex(index=idx._labels)
            cols += [c.copy() for c in g._cols]
            names += f._c._labels
        r = DataFrame._new(cols, idx.copy(), _index(names) if not ignore_index else RangeIndex(len(names)))
        return r
    if all(isinstance(o, Series) for o in objs):
        vals = [v for o in objs for v in o._v]
        return Series(vals, index=None if ignore_index else [x for o in objs for x in o.index])
    names = []
    for o in objs:
        names += [c for c in o._c._labels if c not in names]
    if join == "inner":
        names = [c for c in names if all(c in o._c for o in objs)]
    cols = [_arr([v for o in objs for v in (o[c]._v if c in o._c else [np.nan] * len(o))]) for c in names]
    idx = RangeIndex(sum(len(o) for o in objs)) if ignore_index else _index([x for o in objs for x in o._i._labels])
    return DataFrame._new(cols, idx, _index(names))


def date_range(start, periods=None, freq="D", **k):
    if k or freq != "D":
        raise StandInGap("date_range")
    d0 = _dt.datetime.fromisoformat(start) if isinstance(start, str) else start
    return Index([d0 + _dt.timedelta(days=i) for i in range(periods)])


def to_numeric(x):
    return x.astype(float) if isinstance(x, Series) else np.asarray(x, dtype=float)


class _Types:
    @staticmethod
    def is_numeric_dtype(x):
        d = getattr(x, "dtype", x)
        return np.dtype(d).kind in "iufcb"

    is_integer_dtype = staticmethod(lambda x: np.dtype(getattr(x, "dtype", x)).kind in "iu")
    is_float_dtype = staticmethod(lambda x: np.dtype(getattr(x, "dtype", x)).kind == "f")
    is_bool_dtype = staticmethod(lambda x: np.dtype(getattr(x, "dtype", x)).kind == "b")


class _Api:
    types = _Types()


api = _Api()
