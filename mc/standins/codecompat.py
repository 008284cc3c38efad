"""Python 3.6-3.8 code-object conventions on a newer interpreter.

causalnex.inference builds its factor functions by calling types.CodeType with the 3.8 argument list and by reading the arguments
back with inspect.getargvalues(inspect.currentframe()).  Here `types`/`inspect` are replaced, inside that module only, by proxies
under which exactly that works: CodeType returns a code object with the requested argument names which, when run, binds the
arguments in a pretended frame and runs the *original* function body (found by its byte code).  Nothing else is changed, and code
that does not use these conventions is not affected.
"""
import inspect as _inspect
import sys
import threading
import types as _types

from mc.core import StandInGap

_local = threading.local()


class _Frame:
    """What inspect.currentframe() gives inside a re-argumented function."""

    def __init__(self, args, values, code):
        self.f_locals = dict(zip(args, values))
        self.f_code = code
        self.args = list(args)


def _stack():
    if not hasattr(_local, "stack"):
        _local.stack = []
    return _local.stack


def _currentframe(depth=1):
    s = _stack()
    if s:
        f = sys._getframe(depth)
        fr = s[-1]
        # only within the body itself (or a comprehension in it)
        while f is not None and f.f_code.co_name.startswith("<"):
            f = f.f_back
        if f is not None and f.f_code is fr.body:
            return fr
    return sys._getframe(depth)


def _getargvalues(frame):
    if isinstance(frame, _Frame):
        return _inspect.ArgInfo(list(frame.args), None, None, frame.f_locals)
    return _inspect.getargvalues(frame)


def _find(codestring, names, consts, filename):
    """The code object the byte code was taken from: look in the caller's variables, then in the module."""
    def match(c):
        return c.co_code == codestring and tuple(c.co_names) == tuple(names) and c.co_filename == filename

    f = sys._getframe(2)
    for _ in range(3):
        if f is None:
            break
        for v in list(f.f_locals.values()):
            c = v if isinstance(v, _types.CodeType) else getattr(v, "__code__", None)
            if isinstance(c, _types.CodeType) and match(c):
                return c, f.f_globals
        f = f.f_back
    raise StandInGap("types.CodeType of code that is not in sight")


class _Call:
    def __init__(self, body, glob, args):
        self.body, self.glob, self.args = body, glob, args

    def __call__(self, values, free):
        fr = _Frame(self.args, values, None)
        fr.body = self.body
        fn = _types.FunctionType(self.body, self.glob, self.body.co_name, None,
                                 tuple(_types.CellType(v) for v in free) or None)
        s = _stack()
        s.append(fr)
        try:
            return fn()
        finally:
            s.pop()


def _compile(args, nfree, call, name):
    free = ["_mcfree%d" % i for i in range(nfree)]
    fake = ["_mcarg%d" % i for i in range(len(args))]
    src = "def outer(%s):\n def f(%s):\n  return 'PLACEHOLDER'((%s),(%s))\n return f\n" % (
        ", ".join(free), ", ".join(fake), "".join(a + "," for a in fake), "".join(a + "," for a in free))
    ns = {}
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exec(src, ns)  # pylint: disable=exec-used
    code = ns["outer"](*[None] * nfree).__code__
    consts = tuple(call if c == "PLACEHOLDER" else c for c in code.co_consts)
    return code.replace(co_consts=consts, co_varnames=tuple(args), co_name=name)


class CodeTypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _types.CodeType)


class CodeType(metaclass=CodeTypeMeta):
    def __new__(cls, *a):
        if len(a) == 16:  # 3.8
            argc, posonly, kwonly, nlocals, stack, flags, codestring, consts, names, varnames, filename, name, line, lnotab, free, cell = a
        elif len(a) in (14, 15):  # 3.6 / 3.7
            argc, kwonly, nlocals, stack, flags, codestring, consts, names, varnames, filename, name, line, lnotab = a[:13]
            free = a[13] if len(a) > 13 else ()
        else:
            return _types.CodeType(*a)
        if kwonly or argc != len(varnames) or nlocals < argc:
            raise StandInGap("types.CodeType(argcount=%r, kwonly=%r, varnames=%r)" % (argc, kwonly, varnames))
        body, glob = _find(codestring, names, consts, filename)
        if body.co_argcount:
            raise StandInGap("types.CodeType of a function with arguments")
        return _compile(tuple(varnames), len(free), _Call(body, glob, tuple(varnames)), name)


class _Proxy:
    def __init__(self, mod, **over):
        self.__dict__.update(over, _mod=mod)

    def __getattr__(self, k):
        return getattr(self._mod, k)


types_proxy = _Proxy(_types, CodeType=CodeType)
inspect_proxy = _Proxy(_inspect, currentframe=_currentframe, getargvalues=_getargvalues)


def patch(module):
    """Replace types / inspect (and names imported from them) in the globals of a module."""
    swap = [(_types, types_proxy), (_inspect, inspect_proxy), (_types.CodeType, CodeType),
            (_inspect.currentframe, _currentframe), (_inspect.getargvalues, _getargvalues)]
    for k, v in list(vars(module).items()):
        for old, new in swap:
            if v is old:
                setattr(module, k, new)
    return module
