"""Stand-in for the part of PyTorch used by causalnex: numpy arrays with reverse-mode differentiation.

Differences that are meant: every floating tensor is double precision (the properties speak about values, not about rounding), there is
one device, and what is not modelled raises StandInGap.  In-place changes under differentiation give the tensor a new value; other views
of the same storage may then no longer be read (StandInGap), because this stand-in does not propagate such changes through views.
"""
import math
import numbers

import numpy as np

from mc.core import StandInGap

float64 = double = np.dtype("float64")
float32 = float = np.dtype("float64")
_pyfloat = __builtins__["float"] if isinstance(__builtins__, dict) else __builtins__.float
int64 = long = np.dtype("int64")
int32 = int = np.dtype("int64")
_pyint = __builtins__["int"] if isinstance(__builtins__, dict) else __builtins__.int
bool = np.dtype("bool")
_pybool = __builtins__["bool"] if isinstance(__builtins__, dict) else __builtins__.bool
uint8 = int8 = int16 = np.dtype("int64")
_pymax, _pymin, _pysum, _pyabs, _pyround = max, min, sum, abs, round

rng = np.random.RandomState(0)
_enabled = [True]


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("torch.%s" % name)


class Size(tuple):
    def numel(self):
        return _pyint(np.prod(self)) if len(self) else 1


class device:
    def __init__(self, type="cpu", index=None):
        self.type = str(type)
        if self.type.split(":")[0] != "cpu":
            raise StandInGap("torch device %r" % (type,))

    def __eq__(self, o):
        return isinstance(o, device) or o == "cpu"

    def __hash__(self):
        return 1

    def __repr__(self):
        return "device(type='cpu')"


class _Mode:
    """no_grad / enable_grad / set_grad_enabled: context manager and decorator"""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old = _enabled[0]
        _enabled[0] = self.on

    def __exit__(self, *exc):
        _enabled[0] = self.old
        return False

    def __call__(self, f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            with _Mode(self.on):
                return f(*a, **k)
        return g


def no_grad():
    return _Mode(False)


def enable_grad():
    return _Mode(True)


class set_grad_enabled(_Mode):
    def __init__(self, on):
        _Mode.__init__(self, on)


def is_grad_enabled():
    return _enabled[0]


def get_default_dtype():
    return float64


def set_default_dtype(d):
    pass


def manual_seed(s):
    rng.seed(s % 2**32)


def _norm(a):
    """numpy array in one of the modelled dtypes"""
    a = np.asarray(a)
    if a.dtype.kind == "f":
        return a if a.dtype == float64 else a.astype(float64)
    if a.dtype.kind in "iu":
        return a if a.dtype == int64 else a.astype(int64)
    if a.dtype.kind == "b":
        return a
    raise TypeError("can't convert np.ndarray of type %s." % a.dtype)


def _unbroadcast(g, shape):
    if g.shape == shape:
        return g
    g = g.sum(axis=tuple(range(g.ndim - len(shape))))
    keep = tuple(i for i, s in enumerate(shape) if s == 1 and g.shape[i] != 1)
    return g.sum(axis=keep, keepdims=True) if keep else g


class _Node:
    __slots__ = ("parents", "back", "n")
    count = 0

    def __init__(self, parents, back):
        # parents: the (leaf or inner) endpoints at the time of the operation
        self.parents, self.back = parents, back
        _Node.count += 1
        self.n = _Node.count


class Tensor:
    def __init__(self, *size):
        if len(size) == 1 and isinstance(size[0], (list, np.ndarray)):
            self._init(_norm(np.array(size[0], dtype=float64)))
        elif len(size) == 1 and isinstance(size[0], tuple):
            self._init(np.zeros(size[0]))
        else:
            self._init(np.zeros(size))      # uninitialised memory in torch

    def _init(self, d, node=None, req=False, base=None):
        self._arr = d
        self._node = node
        self._req = req
        self.grad = None
        self._base = base                   # the leaf this is a view of, if any
        self._fam = [0]
        self._ver = 0

    # -- reading ------------------------------------------------------------------------
    @property
    def _d(self):
        if self._ver != self._fam[0]:
            raise StandInGap("torch: reading a tensor after another view of it was changed in place")
        return self._arr

    @property
    def requires_grad(self):
        return self._req or self._node is not None

    @requires_grad.setter
    def requires_grad(self, v):
        self.requires_grad_(v)

    def requires_grad_(self, v=True):
        if self._node is not None:
            if not v:
                raise RuntimeError("you can only change requires_grad flags of leaf variables.")
            return self
        if v and self._arr.dtype.kind != "f":
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        self._req = _pybool(v)
        return self

    is_leaf = property(lambda self: self._node is None)
    is_sparse = False
    is_cuda = False
    layout = "strided"
    grad_fn = property(lambda self: self._node)
    dtype = property(lambda self: self._arr.dtype)
    device = property(lambda self: device("cpu"))
    shape = property(lambda self: Size(self._arr.shape))
    ndim = property(lambda self: self._arr.ndim)
    T = property(lambda self: self.permute(*range(self.ndim - 1, -1, -1)))

    @property
    def data(self):
        return _alias(self, self._d)

    @data.setter
    def data(self, v):
        if not isinstance(v, Tensor):
            raise TypeError("Variable data has to be a tensor, but got %s" % type(v).__name__)
        self._arr = v._d
        self._fam, self._ver = [0], 0

    def detach(self):
        return _alias(self, self._d)

    def detach_(self):
        self._node, self._req = None, False
        return self

    def cpu(self):
        return self

    def cuda(self, *a):
        raise StandInGap("cuda")

    def to(self, *args, **kw):
        r = self
        for a in list(args) + [v for k, v in kw.items() if k in ("dtype", "device", "other")]:
            if isinstance(a, Tensor):
                a = a.dtype
            if isinstance(a, np.dtype):
                r = r._cast(a)
        return r

    def type(self, t=None):
        return "torch.DoubleTensor" if t is None else self._cast(t)

    def _cast(self, dt):
        if self._arr.dtype == dt:
            return self
        d = self._d
        if dt.kind == "f":
            return _op(d.astype(dt), [self], lambda g: (None,))
        if d.dtype.kind == "f" and dt.kind == "i" and not np.all(np.isfinite(d)):
            raise StandInGap("torch: integer of nan or infinity")
        return _raw(d.astype(dt))

    def float(self):
        return self._cast(float64)

    double = float

    def long(self):
        return self._cast(int64)

    int = long

    def bool(self):
        return self._cast(bool)

    def type_as(self, o):
        return self._cast(o.dtype)

    def numpy(self):
        if self.requires_grad:
            raise RuntimeError("Can't call numpy() on Variable that requires grad. Use var.detach().numpy() instead.")
        return self._d

    def __array__(self, dtype=None, copy=None):
        d = self.numpy()
        return d if dtype is None else d.astype(dtype)

    def item(self):
        if self._d.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return self._d.reshape(-1)[0].item()

    def tolist(self):
        return self._d.tolist()

    def __float__(self):
        return _pyfloat(self.item())

    def __int__(self):
        return _pyint(self.item())

    def __index__(self):
        v = self.item()
        if not isinstance(v, _pyint):
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return v

    def __bool__(self):
        if self._d.size != 1:
            raise RuntimeError("bool value of Tensor with more than one value is ambiguous")
        return _pybool(self.item())

    def __len__(self):
        if not self.ndim:
            raise TypeError("len() of a 0-d tensor")
        return self._arr.shape[0]

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "tensor(%s)" % self._arr

    def __deepcopy__(self, memo):
        if self._node is not None:
            raise RuntimeError("Only Tensors created explicitly by the user (graph leaves) support the deepcopy protocol at the moment")
        r = type(self).__new__(type(self))
        Tensor._init(r, self._d.copy(), req=self._req)
        if self.grad is not None:
            r.grad = _raw(self.grad._d.copy())
        memo[id(self)] = r
        return r

    def __reduce_ex__(self, proto):
        raise StandInGap("pickling a tensor")

    def __getattr__(self, name):
        if name in ("_arr", "_fam", "_ver", "_node", "_req", "_base", "bounds") or name.startswith("__"):
            raise AttributeError(name)
        if hasattr(np.ndarray, name) or name in _KNOWN:
            raise StandInGap("torch.Tensor.%s" % name)
        raise AttributeError("'Tensor' object has no attribute '%s'" % name)

    # -- shape --------------------------------------------------------------------------
    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    def dim(self):
        return self.ndim

    def numel(self):
        return self._arr.size

    nelement = numel

    def new(self, *size):
        if len(size) == 1 and not isinstance(size[0], numbers.Integral):
            size = tuple(size[0])
        return _raw(np.zeros(size, dtype=self.dtype))

    def new_zeros(self, *size, **k):
        return self.new(*size)

    def new_full(self, size, v, **k):
        return _raw(np.full(tuple(size), v))

    def new_tensor(self, x, **k):
        return tensor(x)

    def to_dense(self):
        return self

    def contiguous(self):
        return self

    def is_contiguous(self):
        return self._arr.flags.c_contiguous

    def view(self, *shape, _copy=False):
        shape = _sizes(shape)
        d = self._d
        try:
            v = np.reshape(d, shape, copy=False)
        except ValueError:
            if not _copy:
                try:
                    np.reshape(d, shape)
                except ValueError:
                    raise RuntimeError("shape '%s' is invalid for input of size %d" % (list(shape), d.size)) from None
                raise RuntimeError("view size is not compatible with input tensor's size and stride. Use .reshape(...) instead.") from None
            try:
                v = np.reshape(d, shape)
            except ValueError:
                raise RuntimeError("shape '%s' is invalid for input of size %d" % (list(shape), d.size)) from None
        old = d.shape
        return _view(self, v, lambda g: (g.reshape(old),))

    def reshape(self, *shape):
        return self.view(*shape, _copy=True)

    def view_as(self, o):
        return self.view(o.shape)

    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        s = self.shape
        end = end_dim % len(s) if s else 0
        return self.reshape(*(s[:start_dim] + (-1,) + s[end + 1:]))

    def ravel(self):
        return self.reshape(-1)

    def squeeze(self, dim=None):
        d = self._d
        if dim is None:
            shape = tuple(s for s in d.shape if s != 1)
        else:
            dim = _axis(dim, d.ndim)
            shape = d.shape[:dim] + d.shape[dim + 1:] if d.shape[dim] == 1 else d.shape
        old = d.shape
        return _view(self, d.reshape(shape), lambda g: (g.reshape(old),))

    def unsqueeze(self, dim):
        d = self._d
        dim = _axis(dim, d.ndim + 1)
        old = d.shape
        return _view(self, d.reshape(old[:dim] + (1,) + old[dim:]), lambda g: (g.reshape(old),))

    def permute(self, *dims):
        dims = _sizes(dims)
        inv = np.argsort(dims)
        return _view(self, self._d.transpose(dims), lambda g: (g.transpose(inv),))

    def transpose(self, a, b):
        dims = list(range(self.ndim))
        dims[a], dims[b] = dims[b], dims[a]
        return self.permute(*dims)

    def t(self):
        if self.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions, but self is %dD" % self.ndim)
        return self.T

    def expand(self, *sizes):
        sizes = _sizes(sizes)
        old = self._d.shape
        pad = (1,) * (len(sizes) - len(old)) + old
        shape = tuple(p if s == -1 else s for s, p in zip(sizes, pad))
        return _op(np.broadcast_to(self._d.reshape(pad), shape).copy(), [self], lambda g: (_unbroadcast(g, pad).reshape(old),))

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *sizes):
        raise StandInGap("torch.Tensor.repeat")

    def clone(self):
        return _op(self._d.copy(), [self], lambda g: (g,))

    def diagonal(self, *a):
        return diag(self)

    def diag(self):
        return diag(self)

    def movedim(self, a, b):
        return movedim(self, a, b)

    def swapaxes(self, a, b):
        return self.transpose(a, b)

    def split(self, size, dim=0):
        return split(self, size, dim)

    def chunk(self, chunks, dim=0):
        return chunk(self, chunks, dim)

    def unbind(self, dim=0):
        return unbind(self, dim)

    def addmm(self, a, b, beta=1, alpha=1):
        return addmm(self, a, b, beta, alpha)

    def new_ones(self, *size, **k):
        return ones(*size)

    def ndimension(self):
        return self.ndim

    def masked_select(self, mask):
        return self[mask]

    def logical_not(self):
        return logical_not(self)

    def trace(self):
        return diag(self).sum()

    # -- indexing -----------------------------------------------------------------------
    def __getitem__(self, key):
        k = _key(key, self._d)
        d = self._d
        v = d[k]
        if not isinstance(v, np.ndarray):
            v = np.asarray(v)
        shape = d.shape

        def back(g):
            z = np.zeros(shape)
            np.add.at(z, k, g)
            return (z,)
        if np.shares_memory(v, d):
            return _view(self, v, back)
        if not v.ndim and not _advanced(k):
            v = d[k + (Ellipsis,) if isinstance(k, tuple) else (k, Ellipsis)]
            return _view(self, v, back)
        return _op(v, [self], back)

    def __setitem__(self, key, value):
        k = _key(key, self._d)
        val = value if isinstance(value, Tensor) else _wrap(value)
        vd = val._d
        target = self._d[k]
        while vd.ndim > np.ndim(target) and vd.shape[0] == 1:
            vd = vd.reshape(vd.shape[1:])
        try:
            np.broadcast_to(vd, np.shape(target))
        except ValueError:
            raise RuntimeError("shape mismatch: value tensor of shape %s cannot be broadcast to indexing result of shape %s" % (
                list(vd.shape), list(np.shape(target)))) from None
        vshape = val._d.shape

        def change(d):
            d[k] = vd

        def back(g):
            g1 = g.copy()
            g1[k] = 0
            return g1, _unbroadcast(np.asarray(g[k]), vd.shape).reshape(vshape)
        self._inplace(change, [self, val], back)

    def _inplace(self, change, parents, back):
        need = _enabled[0] and any(p.requires_grad for p in parents)
        if _enabled[0] and self._node is None and self._req:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        if _enabled[0] and self._base is not None and self._base._req and self._base._node is None:
            raise RuntimeError("a view of a leaf Variable that requires grad is being used in an in-place operation.")
        if not need:
            change(self._d)
            return self
        d = self._d.copy()
        change(d)
        node = _Node([_end(p) for p in parents], back)
        self._fam[0] += 1
        self._fam, self._ver = [0], 0
        self._arr, self._node = d, node
        return self

    def gather(self, dim, index, **k):
        d, ix = self._d, index._d
        if ix.dtype.kind != "i":
            raise RuntimeError("gather(): Expected dtype int64 for index")
        if ix.ndim != d.ndim:
            raise RuntimeError("Index tensor must have the same number of dimensions as input tensor")
        dim = _axis(dim, d.ndim)
        if ix.size and (ix.min() < 0 or ix.max() >= d.shape[dim]):
            raise RuntimeError("index out of range in gather")
        grid = list(np.meshgrid(*[np.arange(s) for s in ix.shape], indexing="ij"))
        grid[dim] = ix
        k = tuple(grid)
        shape = d.shape

        def back(g):
            z = np.zeros(shape)
            np.add.at(z, k, g)
            return (z,)
        return _op(d[k], [self], back)

    def index_select(self, dim, index):
        return self[(slice(None),) * _axis(dim, self.ndim) + (index,)]

    def masked_fill(self, mask, value):
        return where(mask, _wrap(value), self)

    def fill_(self, v):
        return self._inplace(lambda d: d.__setitem__(Ellipsis, v), [self], lambda g: (np.zeros(g.shape),))

    def zero_(self):
        return self.fill_(0)

    def fill_diagonal_(self, v):
        if self.ndim != 2:
            raise StandInGap("fill_diagonal_ of %d dimensions" % self.ndim)

        def back(g):
            g = g.copy()
            np.fill_diagonal(g, 0)
            return (g,)
        return self._inplace(lambda d: np.fill_diagonal(d, v), [self], back)

    def masked_fill_(self, mask, v):
        m = mask._d

        def change(d):
            d[np.broadcast_to(m, d.shape)] = v
        return self._inplace(change, [self], lambda g: (np.where(m, 0.0, g),))

    def scatter_(self, dim, index, src):
        if isinstance(src, Tensor) or self.requires_grad:
            raise StandInGap("scatter_ of a tensor")
        return self._inplace(lambda d: np.put_along_axis(d, index._d, src, dim), [self], None)

    def copy_(self, o):
        def change(d):
            d[...] = o._d
        return self._inplace(change, [self, o], lambda g: (np.zeros(g.shape), _unbroadcast(g, o._arr.shape)))

    def uniform_(self, a=0.0, b=1.0):
        u = rng.uniform(a, b, size=self.shape)
        return self._inplace(lambda d: d.__setitem__(Ellipsis, u), [self], lambda g: (np.zeros(g.shape),))

    def normal_(self, mean=0.0, std=1.0):
        u = rng.normal(mean, std, size=self.shape)
        return self._inplace(lambda d: d.__setitem__(Ellipsis, u), [self], lambda g: (np.zeros(g.shape),))

    # -- arithmetic ---------------------------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        raise StandInGap("torch floor division")

    def __pow__(self, o):
        return pow(self, o)

    def __rpow__(self, o):
        return pow(_wrap(o), self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __neg__(self):
        return mul(self, -1)

    def __abs__(self):
        return abs(self)

    def __invert__(self):
        return _raw(~self._d)

    def _iop(self, f, o):
        r = f(_clone_handle(self), o)
        if r.shape != self.shape:
            raise RuntimeError("output with shape %s doesn't match the broadcast shape %s" % (list(self.shape), list(r.shape)))
        if self.dtype.kind != "f" and r.dtype.kind == "f":
            raise RuntimeError("result type Float can't be cast to the desired output type Long")
        rd = r._d

        def change(d):
            d[...] = rd
        if isinstance(r._node, _Node) or r.requires_grad:
            return self._inplace(change, [self, r], lambda g: (None, g))
        return self._inplace(change, [self], lambda g: (g,))

    def __iadd__(self, o):
        return self._iop(add, o)

    def __isub__(self, o):
        return self._iop(sub, o)

    def __imul__(self, o):
        return self._iop(mul, o)

    def __itruediv__(self, o):
        return self._iop(div, o)

    add_, sub_, mul_, div_ = __iadd__, __isub__, __imul__, __itruediv__

    def _cmp(self, o, f):
        return _raw(f(self._d, o._d if isinstance(o, Tensor) else o))

    def __eq__(self, o):
        if not isinstance(o, (Tensor, numbers.Number)):
            return False
        return self._cmp(o, lambda a, b: np.asarray(a == b))

    def __ne__(self, o):
        if not isinstance(o, (Tensor, numbers.Number)):
            return True
        return self._cmp(o, lambda a, b: np.asarray(a != b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: np.asarray(a < b))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: np.asarray(a <= b))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: np.asarray(a > b))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: np.asarray(a >= b))

    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    def any(self, dim=None):
        return _raw(np.asarray(self._d.any(axis=dim)))

    def all(self, dim=None):
        return _raw(np.asarray(self._d.all(axis=dim)))

    def sum(self, dim=None, keepdim=False, axis=None, dtype=None):
        dim = axis if dim is None else dim
        d = self._d
        ax = _axes(dim, d.ndim)
        shape = d.shape
        v = np.asarray(d.sum(axis=ax, keepdims=keepdim))
        keep = v.shape if keepdim else tuple(1 if ax is None or i in ax else s for i, s in enumerate(shape))
        return _op(_norm(v), [self], lambda g: (np.broadcast_to(g.reshape(keep), shape),))

    def mean(self, dim=None, keepdim=False, axis=None, dtype=None):
        if self.dtype.kind != "f":
            raise RuntimeError("Can only calculate the mean of floating types. Got Long instead.")
        dim = axis if dim is None else dim
        ax = _axes(dim, self.ndim)
        n = self._d.size if ax is None else _pyint(np.prod([self.shape[i] for i in ax]))
        return self.sum(dim=dim, keepdim=keepdim) / n if n else _raw(np.asarray(np.nan))

    def var(self, dim=None, unbiased=True, keepdim=False):
        ax = _axes(dim, self.ndim)
        n = self._d.size if ax is None else _pyint(np.prod([self.shape[i] for i in ax]))
        c = self - self.mean(dim=dim, keepdim=True) if dim is not None else self - self.mean()
        return (c * c).sum(dim=dim, keepdim=keepdim) / (n - 1 if unbiased else n)

    def std(self, dim=None, unbiased=True, keepdim=False):
        return self.var(dim, unbiased, keepdim).sqrt()

    def max(self, dim=None, keepdim=False):
        return _extreme(self, np.argmax, dim, keepdim)

    def min(self, dim=None, keepdim=False):
        return _extreme(self, np.argmin, dim, keepdim)

    def argmax(self, dim=None, keepdim=False):
        return argmax(self, dim, keepdim)

    def argmin(self, dim=None, keepdim=False):
        return argmax(mul(self, -1), dim, keepdim)

    def norm(self, p=2, dim=None, keepdim=False):
        if p != 2:
            raise StandInGap("torch norm p=%r" % (p,))
        return (self * self).sum(dim=dim, keepdim=keepdim).sqrt()

    # -- differentiation ----------------------------------------------------------------
    def backward(self, gradient=None, retain_graph=None, create_graph=False, inputs=None):
        if not self.requires_grad:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if gradient is None:
            if self._arr.size != 1:
                raise RuntimeError("grad can be implicitly created only for scalar outputs")
            g = np.ones(self.shape)
        else:
            g = gradient._d
        for leaf, v in _propagate([(self, g)]):
            if leaf.grad is None:
                leaf.grad = _raw(v.copy())
            else:
                leaf.grad = _raw(leaf.grad._d + v)


_KNOWN = {"half", "register_hook", "requires_grad_", "unbind", "chunk", "split", "scatter_", "scatter", "roll", "flip", "tril", "triu",
          "topk", "sort", "cumsum", "cumprod", "masked_select", "nonzero", "bmm", "mm", "mv", "addmm", "lerp", "erf", "softplus"}


def _raw(d):
    t = Tensor.__new__(Tensor)
    Tensor._init(t, _norm(d))
    return t


def _alias(src, d):
    t = _raw(d)
    t._fam, t._ver = src._fam, src._fam[0]
    return t


def _clone_handle(t):
    """the present value of t, connected to its history"""
    return _op(t._d.copy(), [t], lambda g: (g,)) if t.requires_grad else _raw(t._d.copy())


def _end(t):
    """what gradients for t flow to: its operation, or t itself when it is a leaf"""
    return t._node if t._node is not None else (t if t._req else None)


def _op(d, parents, back):
    t = _raw(d)
    if _enabled[0] and t._arr.dtype.kind == "f" and any(p.requires_grad for p in parents):
        t._node = _Node([_end(p) for p in parents], back)
    return t


def _view(src, d, back):
    t = _op(d, [src], back)
    t._arr = d
    t._fam, t._ver = src._fam, src._fam[0]
    t._base = src._base if src._base is not None else src
    return t


def _propagate(outs):
    """gradients of the leaves: [(leaf tensor, array)]"""
    grads, order, leaves = {}, [], {}
    seen = set()
    stack = [_end(t) for t, _ in outs]
    while stack:
        n = stack.pop()
        if n is None or id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, _Node):
            order.append(n)
            stack.extend(n.parents)
        else:
            leaves[id(n)] = n
    for t, g in outs:
        e = _end(t)
        if e is not None:
            grads[id(e)] = grads.get(id(e), 0) + np.broadcast_to(np.asarray(g, dtype=float64), t.shape)
    order.sort(key=lambda n: -n.n)
    for n in order:
        g = grads.get(id(n))
        if g is None:
            continue
        res = n.back(np.asarray(g))
        for p, v in zip(n.parents, res):
            if p is None or v is None:
                continue
            grads[id(p)] = grads[id(p)] + v if id(p) in grads else np.asarray(v)
    return [(l, np.broadcast_to(grads[i], l.shape)) for i, l in leaves.items() if i in grads]


def _sizes(a):
    if len(a) == 1 and not isinstance(a[0], numbers.Integral):
        a = tuple(a[0])
    return tuple(_pyint(x) for x in a)


def _axis(dim, n):
    dim = _pyint(dim)
    if not -n <= dim < _pymax(n, 1):
        raise IndexError("Dimension out of range (expected to be in range of [%d, %d], but got %d)" % (-n, n - 1, dim))
    return dim % n if n else 0


def _axes(dim, n):
    if dim is None:
        return None
    if isinstance(dim, (tuple, list)):
        return tuple(_axis(x, n) for x in dim)
    return (_axis(dim, n),) if n else None


def _part(k):
    if isinstance(k, Tensor):
        return k._d
    if isinstance(k, range):
        return list(k)
    if isinstance(k, (list, tuple)) and not len(k):
        return np.zeros(0, dtype=int64)
    if isinstance(k, (list, tuple)):
        return np.asarray([_part(x) for x in k])
    return k


def _key(key, d):
    if isinstance(key, tuple):
        k = tuple(_part(x) for x in key)
    else:
        k = _part(key)
    for x in (k if isinstance(k, tuple) else (k,)):
        if isinstance(x, slice) and x.step is not None and x.step < 0:
            raise ValueError("step must be greater than zero")
        if isinstance(x, np.ndarray) and x.dtype.kind == "f":
            raise IndexError("tensors used as indices must be long, byte or bool tensors")
    n = _pysum(1 for x in (k if isinstance(k, tuple) else (k,)) if x is not None and x is not Ellipsis)
    if n > d.ndim:
        raise IndexError("too many indices for tensor of dimension %d" % d.ndim)
    return k


def _advanced(k):
    return any(isinstance(x, np.ndarray) for x in (k if isinstance(k, tuple) else (k,)))


def _wrap(x):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, np.ndarray) and x.ndim:
        raise StandInGap("torch arithmetic between tensor and numpy array")
    return _raw(np.asarray(x))


def _pair(a, b):
    a, b = _wrap(a), _wrap(b)
    try:
        np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        raise RuntimeError("The size of tensor a %s must match the size of tensor b %s" % (list(a.shape), list(b.shape))) from None
    return a, b


def add(a, b, alpha=1):
    a, b = _pair(a, b)
    if alpha != 1:
        b = b * alpha
    sa, sb = a.shape, b.shape
    return _op(a._d + b._d, [a, b], lambda g: (_unbroadcast(g, sa), _unbroadcast(g, sb)))


def sub(a, b):
    a, b = _pair(a, b)
    sa, sb = a.shape, b.shape
    return _op(np.asarray(a._d - b._d), [a, b], lambda g: (_unbroadcast(g, sa), _unbroadcast(-g, sb)))


def mul(a, b):
    a, b = _pair(a, b)
    x, y = a._d, b._d
    return _op(np.asarray(x * y), [a, b], lambda g: (_unbroadcast(g * y, x.shape), _unbroadcast(g * x, y.shape)))


def div(a, b):
    a, b = _pair(a, b)
    x, y = a._d, b._d
    with np.errstate(all="ignore"):
        v = np.asarray(np.true_divide(x, y))
    return _op(v, [a, b], lambda g: (_unbroadcast(g / y, x.shape), _unbroadcast(-g * x / (y * y), y.shape)))


true_divide = div


def pow(a, b):
    a, b = _pair(a, b)
    x, y = a._d, b._d
    if y.dtype.kind == "f" and b.requires_grad:
        raise StandInGap("torch.pow differentiated in the exponent")
    with np.errstate(all="ignore"):
        v = np.power(x, y)
    return _op(np.asarray(v), [a, b], lambda g: (_unbroadcast(np.where(y == 0, 0.0, g * y * np.power(x.astype(float64), y - 1)), x.shape), None))


def _unary(f, df):
    def op(a):
        if not isinstance(a, Tensor):
            raise TypeError("argument 'input' must be Tensor, not %s" % type(a).__name__)
        x = a._d
        with np.errstate(all="ignore"):
            v = np.asarray(f(x.astype(float64) if x.dtype.kind != "f" else x))

        def back(g):
            with np.errstate(all="ignore"):
                return (g * df(x, v),)
        return _op(v, [a], back)
    return op


exp = _unary(np.exp, lambda x, v: v)
log = _unary(np.log, lambda x, v: 1 / x)
sqrt = _unary(np.sqrt, lambda x, v: 0.5 / v)
tanh = _unary(np.tanh, lambda x, v: 1 - v * v)
relu = _unary(lambda x: np.maximum(x, 0), lambda x, v: (x > 0) * 1.0)
square = _unary(np.square, lambda x, v: 2 * x)
log1p = _unary(np.log1p, lambda x, v: 1 / (1 + x))


expm1 = _unary(np.expm1, lambda x, v: v + 1)
sin = _unary(np.sin, lambda x, v: np.cos(x))
cos = _unary(np.cos, lambda x, v: -np.sin(x))
rsqrt = _unary(lambda x: 1 / np.sqrt(x), lambda x, v: -0.5 * v ** 3)
log2 = _unary(np.log2, lambda x, v: 1 / (x * np.log(2)))
log10 = _unary(np.log10, lambda x, v: 1 / (x * np.log(10)))
sign = _unary(np.sign, lambda x, v: 0.0 * x)
floor = _unary(np.floor, lambda x, v: 0.0 * x)
ceil = _unary(np.ceil, lambda x, v: 0.0 * x)
trunc = _unary(np.trunc, lambda x, v: 0.0 * x)
round = _unary(np.round, lambda x, v: 0.0 * x)


def _sig(x):
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


sigmoid = _unary(_sig, lambda x, v: v * (1 - v))
_softplus = _unary(lambda x: np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x))), lambda x, v: _sig(x))


def abs(a):
    x = a._d
    return _op(np.abs(x), [a], lambda g: (g * np.sign(x),))


absolute = abs


def neg(a):
    return -a


def reciprocal(a):
    return 1 / a


def clamp(a, min=None, max=None):
    x = a._d
    v = x
    ok = np.ones(x.shape, dtype=bool)
    if min is not None:
        ok &= x >= min
        v = np.maximum(v, min)
    if max is not None:
        ok &= x <= max
        v = np.minimum(v, max)
    return _op(v, [a], lambda g: (g * ok,))


clip = clamp


def where(c, a, b):
    a, b = _pair(a, b)
    m = c._d
    return _op(np.where(m, a._d, b._d), [a, b], lambda g: (_unbroadcast(g * m, a._arr.shape), _unbroadcast(g * ~m, b._arr.shape)))


def argmax(a, dim=None, keepdim=False):
    v = np.argmax(a._d, axis=dim)
    if keepdim and dim is not None:
        v = np.expand_dims(v, dim)
    return _raw(np.asarray(v))


def argmin(a, dim=None, keepdim=False):
    return argmax(mul(a, -1), dim, keepdim)


def _extreme(a, arg, dim, keepdim):
    if dim is None:
        return a.reshape(-1)[_pyint(arg(a._d.reshape(-1)))]
    ix = np.expand_dims(arg(a._d, axis=dim), dim)
    v = a.gather(dim, _raw(ix))
    i = _raw(ix)
    import collections
    return collections.namedtuple("extreme", "values indices")(*((v, i) if keepdim else (v.squeeze(dim), i.squeeze(dim))))


def maximum(a, b):
    return where(a > b, a, b)


def minimum(a, b):
    return where(a < b, a, b)


def max(a, *args, **k):
    if args and isinstance(args[0], Tensor):
        return maximum(a, args[0])
    return a.max(*args, **k)


def min(a, *args, **k):
    if args and isinstance(args[0], Tensor):
        return minimum(a, args[0])
    return a.min(*args, **k)


def sum(a, dim=None, keepdim=False, axis=None, dtype=None):
    return a.sum(dim, keepdim, axis)


def mean(a, dim=None, keepdim=False, axis=None, dtype=None):
    return a.mean(dim, keepdim, axis)


def var(a, dim=None, unbiased=True, keepdim=False):
    return a.var(dim, unbiased, keepdim)


def std(a, dim=None, unbiased=True, keepdim=False):
    return a.std(dim, unbiased, keepdim)


def norm(a, p=2, dim=None, keepdim=False):
    return a.norm(p, dim, keepdim)


def softmax(a, dim=None, dtype=None):
    x = a._d
    e = np.exp(x - x.max(axis=dim, keepdims=True))
    v = e / e.sum(axis=dim, keepdims=True)
    return _op(v, [a], lambda g: (v * (g - (g * v).sum(axis=dim, keepdims=True)),))


def log_softmax(a, dim=None, dtype=None):
    x = a._d
    s = x - x.max(axis=dim, keepdims=True)
    v = s - np.log(np.exp(s).sum(axis=dim, keepdims=True))
    return _op(v, [a], lambda g: (g - np.exp(v) * g.sum(axis=dim, keepdims=True),))


def logsumexp(a, dim, keepdim=False):
    x = a._d
    m = x.max(axis=dim, keepdims=True)
    v = m + np.log(np.exp(x - m).sum(axis=dim, keepdims=True))
    p = np.exp(x - v)
    w = v if keepdim else np.squeeze(v, axis=dim)
    return _op(w, [a], lambda g: (p * (g if keepdim else np.expand_dims(g, dim)),))


def matmul(a, b):
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        raise TypeError("matmul(): arguments must be Tensors")
    x, y = a._d, b._d
    if x.dtype != y.dtype:
        raise RuntimeError("expected scalar types to match")
    try:
        v = np.matmul(x, y)
    except ValueError as e:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied: %s" % e) from None

    def back(g):
        if x.ndim == 1 and y.ndim == 1:
            return g * y, g * x
        x2 = x[None, :] if x.ndim == 1 else x
        y2 = y[:, None] if y.ndim == 1 else y
        g2 = np.expand_dims(g, -2) if x.ndim == 1 else (np.expand_dims(g, -1) if y.ndim == 1 else g)
        gx = _unbroadcast(np.matmul(g2, np.swapaxes(y2, -1, -2)), x2.shape)
        gy = _unbroadcast(np.matmul(np.swapaxes(x2, -1, -2), g2), y2.shape)
        return gx.reshape(x.shape), gy.reshape(y.shape)
    return _op(np.asarray(v), [a, b], back)


mm = bmm = mv = dot = matmul


def einsum(equation, *ops):
    """By transposition, broadcasting, multiplication and summation of differentiable operations."""
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    eq = equation.replace(" ", "")
    if "." in eq:
        raise StandInGap("torch.einsum with an ellipsis")
    left, arrow, out = eq.partition("->")
    terms = left.split(",")
    if len(terms) != len(ops):
        raise RuntimeError("einsum(): the number of subscripts does not match the number of operands")
    letters = "".join(terms)
    if not arrow:
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    if len(set(out)) != len(out) or not set(out) <= set(letters):
        raise RuntimeError("einsum(): invalid output subscripts")
    order = list(out) + [c for c in dict.fromkeys(letters) if c not in out]
    size, r = {}, None
    for term, x in zip(terms, ops):
        if len(term) != x.ndim:
            raise RuntimeError("einsum(): the number of subscripts does not match the number of dimensions")
        while len(set(term)) < len(term):
            c = next(c for c in term if term.count(c) > 1)
            i = term.index(c)
            j = term.index(c, i + 1)
            x, term = _diagonal(x, i, j), term[:i] + term[i + 1:j] + term[j + 1:] + c
        for c, n in zip(term, x.shape):
            if size.setdefault(c, n) != n and 1 not in (size[c], n):
                raise RuntimeError("einsum(): operands do not broadcast")
            size[c] = n if size[c] == 1 else size[c]
        x = x.permute(*[term.index(c) for c in order if c in term]) if x.ndim > 1 else x
        for k, c in enumerate(order):
            if c not in term:
                x = x.unsqueeze(k)
        r = x if r is None else r * x
    if len(order) > len(out):
        r = r.sum(dim=tuple(range(len(out), len(order))))
    return r


def _diagonal(a, i=0, j=1):
    """The diagonal of two axes, as the last axis."""
    d = a._d
    n = d.shape[i]
    if d.shape[j] != n:
        raise RuntimeError("diagonal of axes of different sizes")

    def back(g):
        full = np.zeros(d.shape)
        np.einsum("...ii->...i", np.moveaxis(full, (i, j), (-2, -1)))[...] = g
        return (full,)
    return _op(np.diagonal(d, axis1=i, axis2=j).copy(), [a], back)


def diagonal(a, offset=0, dim1=0, dim2=1):
    if offset:
        raise StandInGap("torch.diagonal off the main diagonal")
    return _diagonal(a, dim1 % a.ndim, dim2 % a.ndim)


def permute(a, *dims):
    return a.permute(*dims)


def movedim(a, source, destination):
    src = [source] if isinstance(source, numbers.Integral) else list(source)
    dst = [destination] if isinstance(destination, numbers.Integral) else list(destination)
    perm = [x for x in range(a.ndim) if x not in [y % a.ndim for y in src]]
    for d, x in sorted(zip([y % a.ndim for y in dst], [y % a.ndim for y in src])):
        perm.insert(d, x)
    return a.permute(*perm)


def swapaxes(a, x, y):
    return a.transpose(x, y)


def split(a, size, dim=0):
    n = a.shape[dim]
    sizes = [size] * (n // size) + ([n % size] if n % size else []) if isinstance(size, numbers.Integral) else list(size)
    if _pysum(sizes) != n:
        raise RuntimeError("split: sizes do not add up")
    res, at = [], 0
    for k in sizes:
        res.append(a[(slice(None),) * (dim % a.ndim) + (slice(at, at + k),)])
        at += k
    return tuple(res)


def chunk(a, chunks, dim=0):
    n = a.shape[dim]
    return split(a, _pymax(1, -(-n // chunks)), dim)


def unbind(a, dim=0):
    return tuple(a[(slice(None),) * (dim % a.ndim) + (k,)] for k in range(a.shape[dim]))


def tensordot(a, b, dims=2):
    if isinstance(dims, numbers.Integral):
        dims = (list(range(a.ndim - dims, a.ndim)), list(range(dims)))
    da, db = [[x] if isinstance(x, numbers.Integral) else list(x) for x in dims]
    la = [chr(97 + k) for k in range(a.ndim)]
    lb = [chr(65 + k) for k in range(b.ndim)]
    for x, y in zip(da, db):
        lb[y] = la[x]
    out = [c for k, c in enumerate(la) if k not in [x % a.ndim for x in da]] + [c for c in lb if c.isupper()]
    return einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(out)), a, b)


def addmm(c, a, b, beta=1, alpha=1):
    return c * beta + matmul(a, b) * alpha


baddbmm = addmv = addmm


def broadcast_to(a, shape):
    return a.expand(*shape)


def full_like(a, v, **k):
    return full(tuple(a.shape), v)


def empty_like(a, **k):
    return zeros_like(a)


def logical_not(a):
    return a == 0


def logical_and(a, b):
    return (a != 0) & (b != 0)


def logical_or(a, b):
    return (a != 0) | (b != 0)


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def clamp_min(a, v):
    return clamp(a, min=v)


def clamp_max(a, v):
    return clamp(a, max=v)


def masked_select(a, mask):
    return a[mask]


def logaddexp(a, b):
    m = maximum(a, b)
    return m + log(exp(a - m) + exp(b - m))


def inner(a, b):
    return matmul(a, b.transpose(-1, -2) if b.ndim > 1 else b)


def is_floating_point(a):
    return a._d.dtype.kind == "f"


def inference_mode(mode=True):
    return no_grad() if mode else enable_grad()


def matrix_power(a, n):
    n = _pyint(n)
    if n < 0:
        raise StandInGap("torch.matrix_power with negative exponent")
    r = eye(a.shape[0])
    for _ in range(n):
        r = matmul(r, a)
    return r


def trace(a):
    return a.trace()


def diag(a, diagonal=0):
    if diagonal:
        raise StandInGap("torch.diag off the main diagonal")
    d = a._d
    if d.ndim == 1:
        return _op(np.diag(d), [a], lambda g: (np.diagonal(g).copy(),))
    return _op(np.diagonal(d).copy(), [a], lambda g: (np.diag(g),))


def t(a):
    return a.t()


def transpose(a, x, y):
    return a.transpose(x, y)


def reshape(a, shape):
    return a.reshape(*shape)


def flatten(a, start_dim=0, end_dim=-1):
    return a.flatten(start_dim, end_dim)


def squeeze(a, dim=None):
    return a.squeeze(dim)


def unsqueeze(a, dim):
    return a.unsqueeze(dim)


def gather(a, dim, index):
    return a.gather(dim, index)


def numel(a):
    return a.numel()


def clone(a):
    return a.clone()


def cat(ts, dim=0, axis=None):
    ts = list(ts)
    dim = dim if axis is None else axis
    dim = _axis(dim, ts[0].ndim)
    ends = np.cumsum([x.shape[dim] for x in ts])[:-1]
    try:
        v = np.concatenate([x._d for x in ts], axis=dim)
    except ValueError as e:
        raise RuntimeError("Sizes of tensors must match: %s" % e) from None
    return _op(v, ts, lambda g: tuple(np.split(g, ends, axis=dim)))


concat = cat


def stack(ts, dim=0):
    return cat([x.unsqueeze(dim) for x in ts], dim)


def hstack(ts):
    return cat(list(ts), 0 if list(ts)[0].ndim == 1 else 1)


def vstack(ts):
    return cat([x.reshape(1, -1) if x.ndim == 1 else x for x in ts], 0)


def outer(a, b):
    return a.reshape(-1, 1) * b.reshape(1, -1)


def cumsum(a, dim):
    ax = _axis(dim, a.ndim)
    return _op(np.cumsum(a._d, axis=ax), [a], lambda g: (np.flip(np.cumsum(np.flip(g, ax), axis=ax), ax),))


def _made(d, requires_grad=False, dtype=None):
    t = _raw(d if dtype is None else np.asarray(d).astype(dtype))
    return t.requires_grad_() if requires_grad else t


def tensor(x, dtype=None, device=None, requires_grad=False):
    if isinstance(x, Tensor):
        x = x._d
    return _made(np.array(x), requires_grad, dtype)


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor):
        return x if dtype is None else x.to(dtype)
    return _made(_norm(x), False, dtype)


def from_numpy(x):
    if not isinstance(x, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(x).__name__)
    return _raw(x)


def _maker(f):
    def make(*size, dtype=None, device=None, requires_grad=False, out=None, layout=None):
        return _made(f(_sizes(size)), requires_grad, dtype)
    return make


zeros, ones, empty = _maker(np.zeros), _maker(np.ones), _maker(np.zeros)
rand = _maker(lambda s: rng.uniform(size=s))
randn = _maker(lambda s: rng.normal(size=s))


def full(size, v, dtype=None, device=None, requires_grad=False):
    return _made(np.full(_sizes((size,)), v), requires_grad, dtype)


def zeros_like(a, dtype=None, **k):
    return _made(np.zeros(a.shape), False, dtype or a.dtype)


def ones_like(a, dtype=None, **k):
    return _made(np.ones(a.shape), False, dtype or a.dtype)


def eye(n, m=None, dtype=None, device=None, requires_grad=False):
    return _made(np.eye(_pyint(n), None if m is None else _pyint(m)), requires_grad, dtype)


def arange(*a, dtype=None, device=None):
    return _made(np.arange(*a), False, dtype)


def is_tensor(x):
    return isinstance(x, Tensor)


def allclose(a, b, rtol=1e-5, atol=1e-8):
    return _pybool(np.allclose(a._d, b._d, rtol, atol))


def equal(a, b):
    return a.shape == b.shape and _pybool(np.all(a._d == b._d))


def isnan(a):
    return _raw(np.isnan(a._d))


def isfinite(a):
    return _raw(np.isfinite(a._d))


def isinf(a):
    return _raw(np.isinf(a._d))


def flip(a, *dims):
    ax = tuple(_axis(k, a.ndim) for k in _sizes(dims))
    return _op(np.flip(a._d, ax), [a], lambda g: (np.flip(g, ax),))


def roll(a, shifts, dims=None):
    return _op(np.roll(a._d, shifts, dims), [a], lambda g: (np.roll(g, tuple(-x for x in shifts) if isinstance(shifts, tuple) else -shifts, dims),))


def triu(a, diagonal=0):
    return _op(np.triu(a._d, diagonal), [a], lambda g: (np.triu(g, diagonal),))


def tril(a, diagonal=0):
    return _op(np.tril(a._d, diagonal), [a], lambda g: (np.tril(g, diagonal),))


def prod(a, dim=None, keepdim=False):
    if dim is None:
        a, dim = a.reshape(-1), 0
    ax = _axis(dim, a.ndim)
    x = a._d

    def back(g):
        out = np.empty(x.shape)
        for k in range(x.shape[ax]):
            rest = np.expand_dims(np.prod(np.delete(x, k, ax), axis=ax), ax)
            out[tuple([slice(None)] * ax + [slice(k, k + 1)])] = (g if keepdim else np.expand_dims(g, ax)) * rest
        return (out,)
    return _op(np.prod(x, axis=ax, keepdims=keepdim), [a], back)


def count_nonzero(a, dim=None):
    return _raw(np.asarray(np.count_nonzero(a._d, axis=dim)))


def sort(a, dim=-1, descending=False):
    import collections
    ix = np.argsort(-a._d if descending else a._d, axis=dim, kind="stable")
    i = _raw(ix)
    return collections.namedtuple("sort", "values indices")(a.gather(_axis(dim, a.ndim), i), i)


def argsort(a, dim=-1, descending=False):
    return sort(a, dim, descending).indices


def unique(a, sorted=True, return_inverse=False, return_counts=False, dim=None):
    if dim is not None:
        raise StandInGap("torch.unique along a dimension")
    r = np.unique(a._d, return_inverse=return_inverse, return_counts=return_counts)
    return tuple(_raw(np.asarray(x)) for x in r) if isinstance(r, tuple) else _raw(r)


def linspace(a, b, steps, **k):
    return _made(np.linspace(a, b, steps))


class _Cuda:
    @staticmethod
    def is_available():
        return False


cuda = _Cuda()

for _n in ("exp", "log", "sqrt", "tanh", "relu", "square", "log1p", "sigmoid", "abs", "neg", "reciprocal", "clamp", "clip", "softmax",
           "log_softmax", "logsumexp", "matmul", "matrix_power", "add", "sub", "mul", "div", "pow", "where", "cumsum", "outer", "mm", "mv",
           "bmm", "dot", "isnan", "isfinite", "allclose", "equal", "expm1", "sin", "cos", "rsqrt", "log2", "log10", "sign", "floor", "ceil",
           "trunc", "round", "isinf", "flip", "roll", "triu", "tril", "prod", "count_nonzero", "sort", "argsort", "unique"):
    if _n != "where":
        setattr(Tensor, _n, globals()[_n])
Tensor.where = lambda self, c, o: where(c, self, o)
Tensor.clamp_min = lambda self, v: clamp(self, min=v)
Tensor.clamp_max = lambda self, v: clamp(self, max=v)
Tensor.clamp_ = lambda self, min=None, max=None: self._iop(lambda a, b: clamp(a, min, max), 0)
Tensor.logit = lambda self, eps=None: log(self / (1 - self)) if eps is None else log(clamp(self, eps, 1 - eps) / (1 - clamp(self, eps, 1 - eps)))

FloatTensor = DoubleTensor = Tensor
from . import autograd, nn, optim  # noqa: E402
