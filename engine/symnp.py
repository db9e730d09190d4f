"""A numpy stand-in whose arrays may hold symbolic reals, and the loader that executes the real
source files of /repo/src/pygmm against it."""
import builtins
import collections
import functools
import importlib.util
import math
import os
import re
import sys
import types
import warnings as _warnings

import numpy as np

from . import sym as S
from .sym import Sym, SBool, Unsupported

_SYM = (Sym, SBool)


def is_sym(x):
    return isinstance(x, _SYM)


def has_sym(x):
    if isinstance(x, _SYM):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(e, _SYM) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values())
    return False


class SArr(np.ndarray):
    """ndarray(dtype=object) whose elements are floats / ints / bools / Sym / SBool."""

    _mask = None          # symbolic boolean mask this (full-size) array was selected with
    _static = False

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._mask = getattr(obj, "_mask", None)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return do_ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return do_func(func, args, kwargs)

    # ---- indexing
    def __getitem__(self, ix):
        if isinstance(ix, Sym) and self.ndim == 1:
            return _at(self, ix)
        ix, m = _index(ix)
        if m is not None:
            if m.shape != self.shape:
                raise Unsupported("symbolic mask of a different shape")
            r = np.ndarray.copy(self).view(SArr)
            r._mask = m
            return r
        r = np.ndarray.__getitem__(self, ix)
        return r

    def __setitem__(self, ix, val):
        if self.ndim == 1 and (isinstance(ix, Sym) or isinstance(ix, slice) and (isinstance(ix.start, Sym) or isinstance(ix.stop, Sym))):
            ix = _posmask(ix, self.size)
        ix, m = _index(ix)
        val = _coerce_val(val)
        if m is None:
            if isinstance(val, np.ndarray) and getattr(val, "_mask", None) is not None:
                raise Unsupported("symbolically selected array stored elsewhere")
            np.ndarray.__setitem__(self, ix, val)
            return
        if m.shape != self.shape:
            raise Unsupported("symbolic mask of a different shape")
        vm = getattr(val, "_mask", None)
        if isinstance(val, np.ndarray) and val.ndim > 0:
            if vm is None or not _same_mask(vm, m):
                if not (val.size == 1):
                    raise Unsupported("masked assignment of a differently selected array")
                val = val.reshape(-1)[0]
        vals = val.reshape(-1) if isinstance(val, np.ndarray) and val.ndim else None
        for i, idx in enumerate(np.ndindex(self.shape)):
            v = vals[i] if vals is not None else (val.item() if isinstance(val, np.ndarray) else val)
            c = np.ndarray.__getitem__(m, idx)
            o = np.ndarray.__getitem__(self, idx)
            np.ndarray.__setitem__(self, idx, S.ite(c, v, o) if isinstance(c, SBool) else (v if c else o))

    def copy(self, *a, **k):
        return np.ndarray.copy(self).view(SArr)

    def astype(self, dt, *a, **k):
        if dt is FloatShim:
            dt = float
        if dt in (float, np.float64, "float", "float64", object, "f8"):
            return self.copy()
        if dt in (bool, np.bool_, "bool"):
            return apply1(lambda x: x if isinstance(x, (SBool, bool, np.bool_)) else (S.compare("!=", x, 0.0) if isinstance(x, Sym) else bool(x)), self)
        if dt in (int, np.int64, "int") and not has_sym(self):
            return wrap(np.array(self.tolist()).astype(int))
        raise Unsupported("astype(%r)" % (dt,))

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted")

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __deepcopy__(self, memo):
        return self.copy()

    # methods that numpy implements in C without dispatch
    def min(self, *a, **k):
        return np.min(self, *a, **k)

    def max(self, *a, **k):
        return np.max(self, *a, **k)

    def sum(self, *a, **k):
        return np.sum(self, *a, **k)

    def mean(self, *a, **k):
        return np.mean(self, *a, **k)

    def prod(self, *a, **k):
        return np.prod(self, *a, **k)

    def any(self, *a, **k):
        return np.any(self, *a, **k)

    def all(self, *a, **k):
        return np.all(self, *a, **k)

    def clip(self, min=None, max=None, **k):
        return _clip(self, min, max, **k)

    def argmin(self, *a, **k):
        return np.argmin(self, *a, **k)

    def argmax(self, *a, **k):
        return np.argmax(self, *a, **k)

    def argsort(self, *a, **k):
        return np.argsort(self, *a, **k)

    def cumsum(self, *a, **k):
        return np.cumsum(self, *a, **k)

    def dot(self, o):
        return np.matmul(self, o)

    def searchsorted(self, v, **k):
        return np.searchsorted(self, v, **k)

    def nonzero(self):
        return np.nonzero(self)

    def round(self, *a, **k):
        return np.round(self, *a, **k)

    def sort(self, *a, **k):
        np.ndarray.__setitem__(self, Ellipsis, np.sort(self))

    def fill(self, v):
        self[...] = v

    def take(self, ix, *a, **k):
        return self[np.asarray(ix)]


def _same_mask(a, b):
    if a is b:
        return True
    if a.shape != b.shape:
        return False
    for x, y in zip(a.flat, b.flat):
        if isinstance(x, SBool) and isinstance(y, SBool):
            if x.f != y.f:
                return False
        elif isinstance(x, SBool) or isinstance(y, SBool) or bool(x) != bool(y):
            return False
    return True


def _at(a, i):
    """a[i] for a symbolic whole number i in range"""
    lo, hi = S.iv(i)
    if lo < 0 or hi > a.size - 1:
        raise Unsupported("symbolic index that may be out of range")
    return S.at(tuple(_num(e) for e in obj(a)), i)


def _posmask(ix, n):
    """boolean mask of the positions a symbolic index or slice selects (whole numbers, no wrap-around)"""
    if isinstance(ix, Sym):
        lo, hi = ix, S.add(ix, 1.0)
    else:
        if ix.step not in (None, 1):
            raise Unsupported("symbolic slice with a step")
        lo, hi = (0 if ix.start is None else ix.start), (n if ix.stop is None else ix.stop)
    for q in (lo, hi):
        if (S.iv(q)[0] if isinstance(q, Sym) else q) < 0:
            raise Unsupported("symbolic index that may be negative")
    o = np.empty(n, dtype=object)
    for k in range(n):
        o[k] = S.b_and(S.compare("<=", lo, k), S.compare(">", hi, k))
    return o.view(SArr)


def _coerce_val(v):
    if isinstance(v, (list, tuple)):
        return array(v)
    return v


def _index(ix):
    """(concrete index, symbolic mask or None)"""
    if isinstance(ix, tuple):
        out = []
        for x in ix:
            y, m = _index(x)
            if m is not None:
                raise Unsupported("symbolic mask inside a tuple index")
            out.append(y)
        return tuple(out), None
    if isinstance(ix, SBool):
        return bool(ix), None
    if isinstance(ix, Sym):
        raise Unsupported("symbolic index")
    if isinstance(ix, list):
        ix = array(ix)
    if isinstance(ix, np.ndarray) and ix.dtype == object:
        if any(isinstance(e, SBool) for e in ix.flat):
            return None, ix
        els = list(ix.flat)
        if els and all(isinstance(e, (bool, np.bool_)) for e in els):
            return np.array([bool(e) for e in els], dtype=bool).reshape(ix.shape), None
        if all(isinstance(e, (int, np.integer)) for e in els):
            return np.array([int(e) for e in els], dtype=int).reshape(ix.shape), None
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return ix, None


def wrap(a):
    """ndarray -> SArr (object); scalars untouched."""
    if isinstance(a, SArr):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype.names:
            return SRec.from_np(a)
        if a.dtype == object:
            return a.view(SArr)
        o = np.empty(a.shape, dtype=object)
        lst = a.tolist()
        if a.ndim == 0:
            o[()] = lst
        elif a.size:
            if a.ndim == 1:
                o[:] = lst
            else:
                f = o.reshape(-1)
                f[:] = a.reshape(-1).tolist()
        return o.view(SArr)
    if isinstance(a, tuple):
        return tuple(wrap(x) for x in a)
    return a


def unwrap(a):
    """Concrete SArr -> plain ndarray; raises if symbolic."""
    if isinstance(a, SArr):
        if has_sym(a):
            raise Unsupported("symbolic array passed to a numeric routine")
        return np.array(a.tolist()) if a.ndim else np.array(a.item())
    if isinstance(a, _SYM):
        raise Unsupported("symbolic value passed to a numeric routine")
    if isinstance(a, (list, tuple)):
        return type(a)(unwrap(x) for x in a)
    if isinstance(a, dict):
        return {k: unwrap(v) for k, v in a.items()}
    return a


def obj(a):
    """anything -> plain object ndarray (no copy for object arrays)"""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a.view(np.ndarray)
        return wrap(a).view(np.ndarray)
    if isinstance(a, (list, tuple)):
        return array(a).view(np.ndarray)
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        s = [_shape_of(e) for e in x]
        if any(t != s[0] for t in s):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + s[0]
    return ()


def _fill(o, x):
    if isinstance(x, np.ndarray):
        if o.ndim == 0:
            o[()] = x.item() if x.dtype != object else x[()]
        else:
            o[...] = obj(x)
    elif isinstance(x, (list, tuple)):
        for i, e in enumerate(x):
            if o.ndim == 1:
                if isinstance(e, np.ndarray):
                    e = e.item()
                o[i] = e
            else:
                _fill(o[i], e)
    else:
        o[()] = x


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, SRec):
        return x.copy() if copy else x
    if isinstance(x, np.ndarray) and x.dtype.names:
        return SRec.from_np(x)
    if isinstance(x, SArr):
        r = x.copy() if copy else x
    else:
        if isinstance(x, (range, map, filter, set)) or isinstance(x, (collections.abc.KeysView, collections.abc.ValuesView)):
            x = list(x)
        sh = _shape_of(x)
        o = np.empty(sh, dtype=object)
        _fill(o, x)
        r = o.view(SArr)
        if any(isinstance(e, str) for e in r.flat) or any(e is None for e in r.flat):
            return r
        # python ints mixed with floats become floats
        els = list(r.flat)
        if any(isinstance(e, (float, np.floating, Sym)) for e in els):
            for i, idx in enumerate(np.ndindex(r.shape)):
                e = els[i]
                if isinstance(e, (bool, np.bool_, int, np.integer)):
                    np.ndarray.__setitem__(r, idx, float(e))
                elif isinstance(e, SBool):
                    np.ndarray.__setitem__(r, idx, S.ind(e))
    if dtype is FloatShim:
        dtype = float
    if dtype is not None and dtype is not object:
        if isinstance(dtype, (list, np.dtype)) and np.dtype(dtype).names:
            raise Unsupported("structured dtype")
        if dtype in (float, np.float64, "float", "float64", "f8"):
            r = apply1(lambda e: float(e) if isinstance(e, (int, np.integer, bool, np.bool_)) else (S.ind(e) if isinstance(e, SBool) else e), r)
        elif dtype in (bool, int, np.int64, np.bool_):
            r = r.astype(dtype)
        elif dtype in (str,):
            pass
        else:
            raise Unsupported("array dtype %r" % (dtype,))
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, **kw):
    if dtype is FloatShim:
        dtype = float
    if isinstance(x, (SArr, SRec)) and dtype in (None, float, object, np.float64):
        return x
    return array(x, dtype=dtype)


def fromiter(it, dtype=None, *a, **k):
    return array(list(it), dtype=dtype)


def apply1(f, a):
    a = obj(a)
    o = np.empty(a.shape, dtype=object)
    of, af = o.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    return o.view(SArr)


def elementwise2(f, a, b):
    return _nary(f, (a, b))


def _mask_of(args):
    m = None
    for a in args:
        am = getattr(a, "_mask", None)
        if am is not None:
            if m is not None and not _same_mask(m, am):
                raise Unsupported("mixing differently selected arrays")
            m = am
    if m is not None:
        for a in args:
            if isinstance(a, np.ndarray) and getattr(a, "_mask", None) is None and a.size > 1:
                raise Unsupported("mixing selected and full arrays")
    return m


def _nary(f, args, out=None):
    m = _mask_of(args)
    arrs = [obj(a) for a in args]
    if all(a.ndim == 0 for a in arrs) and out is None:
        return f(*[a[()] for a in arrs])
    b = np.broadcast_arrays(*arrs)
    o = np.empty(b[0].shape, dtype=object)
    of = o.reshape(-1)
    fl = [x.reshape(-1) for x in b]
    for i in range(of.size):
        of[i] = f(*[x[i] for x in fl])
    r = o.view(SArr)
    r._mask = m
    return r


# ------------------------------------------------------------------ scalar ufunc table
def _num(x):
    if isinstance(x, SBool):
        return S.ind(x)
    return x


def _lift2(fsym, npf):
    def f(a, b):
        if isinstance(a, _SYM) or isinstance(b, _SYM):
            return fsym(_num(a), _num(b))
        with np.errstate(all="ignore"):
            r = npf(a, b)
        return r.item() if isinstance(r, np.generic) else r
    return f


def _lift1(fsym, npf):
    def f(a):
        if isinstance(a, _SYM):
            return fsym(_num(a))
        with np.errstate(all="ignore"):
            r = npf(a)
        return r.item() if isinstance(r, np.generic) else r
    return f


def _fastbin(op, fsym):
    def f(a, b):
        if isinstance(a, _SYM) or isinstance(b, _SYM):
            return fsym(_num(a), _num(b))
        return op(a, b)
    return f


def _pow(a, b):
    with np.errstate(all="ignore"):
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and b < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
        return np.power(a, b)


def _finite(a):
    return True


L10 = math.log(10.0)


def _sfinite(x):
    for m in x.t:
        for aid, _ in m:
            if S.C.atoms[aid].kind in ("nan", "inf"):
                return "maybe"
    return True


def _isnan(x):
    """symbolic isnan: the conditions under which a nan atom survives"""
    if not isinstance(x, Sym):
        return False
    conds = []
    for m, c in x.t.items():
        if any(S.C.atoms[a].kind == "nan" for a, _ in m):
            lits = [SBool(("lit", S.C.atoms[a].data, True)) for a, _ in m if S.C.atoms[a].kind == "ind"]
            conds.append((S.b_and_list(lits)))
    if not conds:
        return False
    # decide exactly by case analysis on the indicators multiplying nan
    inds = set()
    for m in x.t:
        if any(S.C.atoms[a].kind == "nan" for a, _ in m):
            for a, _ in m:
                if S.C.atoms[a].kind == "ind":
                    inds.add(a)
    if not inds:
        return True
    aid = min(inds)
    lit = SBool(("lit", S.C.atoms[aid].data, True))
    p, q = _isnan(S.restrict(x, aid, True)), _isnan(S.restrict(x, aid, False))
    return S.b_or(S.b_and(lit, p), S.b_and(S.b_not(lit), q))


def _cmpf(op, npop):
    def f(a, b):
        if isinstance(a, _SYM) or isinstance(b, _SYM):
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                return op == "!="
            if op in ("==", "!=") and isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
                x = S.b_or(S.b_and(a, b), S.b_and(S.b_not(a), S.b_not(b)))
                return x if op == "==" else S.b_not(x)
            return S.compare(op, _num(a), _num(b))
        return bool(npop(a, b))
    return f


def _tobool(a):
    if isinstance(a, SBool):
        return a
    if isinstance(a, Sym):
        return S.compare("!=", a, 0.0)
    return bool(a)


def _bitand(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return S.b_and(a, b)
    return a & b


def _bitor(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return S.b_or(a, b)
    return a | b


def _arctan2(a, b):
    raise Unsupported("arctan2")


def _heaviside(x, h):
    return S.ite(S.compare("<", x, 0.0), 0.0, S.ite(S.compare(">", x, 0.0), 1.0, h))


def _sign(x):
    return S.ite(S.compare("<", x, 0.0), -1.0, S.ite(S.compare(">", x, 0.0), 1.0, 0.0))


UF = {
    "add": _fastbin(lambda a, b: a + b, S.add),
    "subtract": _fastbin(lambda a, b: a - b, S.sub),
    "multiply": _fastbin(lambda a, b: a * b, S.mul),
    "divide": _lift2(S.div, lambda a, b: np.float64(a) / np.float64(b)),
    "true_divide": _lift2(S.div, lambda a, b: np.float64(a) / np.float64(b)),
    "power": _lift2(S.power, _pow),
    "float_power": _lift2(S.power, np.float_power),
    "minimum": _lift2(S.smin, np.minimum),
    "maximum": _lift2(S.smax, np.maximum),
    "fmin": _lift2(S.smin, np.fmin),
    "fmax": _lift2(S.smax, np.fmax),
    "negative": _lift1(S.neg, np.negative),
    "positive": _lift1(lambda a: a, np.positive),
    "absolute": _lift1(S.sabs, np.absolute),
    "fabs": _lift1(S.sabs, np.fabs),
    "exp": _lift1(S.exp, np.exp),
    "expm1": _lift1(lambda x: S.sub(S.exp(x), 1.0), np.expm1),
    "exp2": _lift1(lambda x: S.power(2.0, x), np.exp2),
    "log": _lift1(S.log, np.log),
    "log1p": _lift1(lambda x: S.log(S.add(x, 1.0)), np.log1p),
    "log10": _lift1(lambda x: S.div(S.log(x), L10), np.log10),
    "log2": _lift1(lambda x: S.div(S.log(x), math.log(2.0)), np.log2),
    "sqrt": _lift1(S.sqrt, np.sqrt),
    "cbrt": _lift1(lambda x: S.power(x, 1 / 3), np.cbrt),
    "square": _lift1(lambda x: S.power(x, 2), np.square),
    "reciprocal": _lift1(lambda x: S.div(1.0, x), np.reciprocal),
    "hypot": _lift2(lambda a, b: S.sqrt(S.add(S.mul(a, a), S.mul(b, b))), np.hypot),
    "radians": _lift1(lambda x: S.scale(x, math.pi / 180), np.radians),
    "deg2rad": _lift1(lambda x: S.scale(x, math.pi / 180), np.deg2rad),
    "degrees": _lift1(lambda x: S.scale(x, 180 / math.pi), np.degrees),
    "rad2deg": _lift1(lambda x: S.scale(x, 180 / math.pi), np.rad2deg),
    "less": _cmpf("<", np.less), "less_equal": _cmpf("<=", np.less_equal),
    "greater": _cmpf(">", np.greater), "greater_equal": _cmpf(">=", np.greater_equal),
    "equal": _cmpf("==", lambda a, b: a == b), "not_equal": _cmpf("!=", lambda a, b: a != b),
    "logical_and": lambda a, b: S.b_and(_tobool(a), _tobool(b)),
    "logical_or": lambda a, b: S.b_or(_tobool(a), _tobool(b)),
    "logical_not": lambda a: S.b_not(_tobool(a)),
    "logical_xor": lambda a, b: S.b_or(S.b_and(_tobool(a), S.b_not(_tobool(b))), S.b_and(S.b_not(_tobool(a)), _tobool(b))),
    "bitwise_and": _bitand, "bitwise_or": _bitor,
    "invert": lambda a: S.b_not(a) if isinstance(a, (SBool, bool, np.bool_)) else ~a,
    "isnan": lambda a: _isnan(a) if is_sym(a) else bool(np.isnan(a)),
    "isfinite": lambda a: S.b_not(_isnan(a)) if is_sym(a) else bool(np.isfinite(a)),
    "isinf": lambda a: False if is_sym(a) else bool(np.isinf(a)),
    "sign": _lift1(_sign, np.sign),
    "heaviside": _lift2(_heaviside, np.heaviside),
    "arctan2": _lift2(_arctan2, np.arctan2),
    "logaddexp": _lift2(lambda a, b: S.log(S.add(S.exp(a), S.exp(b))), np.logaddexp),
    "floor_divide": _lift2(lambda a, b: S.fn("floor", S.div(a, b)), lambda a, b: a // b),
    "remainder": _lift2(lambda a, b: S.sub(a, S.mul(b, S.fn("floor", S.div(a, b)))), lambda a, b: a % b),
    "conjugate": lambda a: a,
}
for _n in ("cos", "sin", "tan", "tanh", "sinh", "cosh", "arctan", "arcsin", "arccos", "arcsinh", "floor", "ceil"):
    UF[_n] = _lift1(functools.partial(S.fn, _n), getattr(np, _n))

_REDUCE_INIT = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False}


def _mark(args):
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype.names:
            raise Unsupported("ufunc on structured array")


def do_ufunc(uf, method, inputs, kw):
    name = uf.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    for k in ("dtype", "casting", "order", "subok"):
        kw.pop(k, None)
    f = UF.get(name)
    if method == "__call__":
        if name == "matmul":
            return _matmul(*inputs)
        if name == "clip":
            r = _clip(*inputs)
        elif f is None:
            r = wrap(uf(*[unwrap(x) for x in inputs]))
        else:
            inputs = [_coerce_val(x) for x in inputs]
            r = _nary(f, inputs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if not isinstance(o, SArr):
                raise Unsupported("in-place update of a concrete array with a symbolic value")
            if where is not True:
                w = obj(where)
                old = obj(o).copy()
                r = _nary(S.ite, (np.broadcast_to(w, o.shape), r, old))
            om, rm = getattr(o, "_mask", None), getattr(r, "_mask", None)
            if (om is not None or rm is not None):
                if om is None or (rm is not None and not _same_mask(om, rm)):
                    raise Unsupported("in-place update of differently selected arrays")
            if isinstance(r, np.ndarray) and r.shape != o.shape:
                r = np.broadcast_to(obj(r), o.shape)
            np.ndarray.__setitem__(o, Ellipsis, r)
            return o
        if where is not True:
            raise Unsupported("ufunc where= without out=")
        return r
    if method == "reduce":
        a = wrap(np.asanyarray(inputs[0], dtype=object)) if not isinstance(inputs[0], np.ndarray) else wrap(inputs[0])
        axis = inputs[1] if len(inputs) > 1 else kw.pop("axis", 0)
        keep = kw.pop("keepdims", False)
        if getattr(a, "_mask", None) is not None:
            raise Unsupported("reduction of a symbolically selected array")
        return _reduce(f, name, a, axis, keep)
    if method == "accumulate":
        a = obj(inputs[0])
        if a.ndim != 1:
            raise Unsupported("accumulate over nd")
        o = np.empty(a.shape, dtype=object)
        acc = None
        for i in range(a.size):
            acc = a[i] if acc is None else f(acc, a[i])
            o[i] = acc
        return o.view(SArr)
    if method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        return _nary(f, (a.reshape(a.shape + (1,) * b.ndim), b))
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _reduce(f, name, a, axis, keep):
    a = obj(a)
    if axis is None:
        els = list(a.reshape(-1))
        r = _fold(f, name, els)
        if keep:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return o.view(SArr)
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return _reduce(f, name, a, None, keep)
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise Unsupported("multi-axis reduce")
    mv = np.moveaxis(a, axis, 0)
    if mv.ndim == 1:
        r = _fold(f, name, list(mv))
        if keep:
            o = np.empty((1,), dtype=object)
            o[0] = r
            return o.view(SArr)
        return r
    o = np.empty(mv.shape[1:], dtype=object)
    for idx in np.ndindex(o.shape):
        o[idx] = _fold(f, name, [mv[(i,) + idx] for i in range(mv.shape[0])])
    if keep:
        o = np.expand_dims(o, axis)
    return o.view(SArr)


def _fold(f, name, els):
    if not els:
        if name in _REDUCE_INIT:
            return _REDUCE_INIT[name]
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    if name in ("logical_and", "logical_or"):
        els = [_tobool(e) for e in els]
    acc = els[0]
    if name in ("minimum", "fmin") and len(els) > LONG and any(isinstance(e, Sym) for e in els):
        els = tuple(_num(e) for e in els)
        return S.at(els, S.argmin(els))
    if len(els) == 1 and isinstance(acc, SBool) and name == "add":
        return S.ind(acc)
    for e in els[1:]:
        acc = f(acc, e)
    return acc


def _matmul(a, b):
    a, b = obj(a), obj(b)
    mul, add = UF["multiply"], UF["add"]

    def dot(x, y):
        acc = 0.0
        for p, q in zip(x, y):
            acc = add(acc, mul(p, q))
        return acc

    if a.ndim == 1 and b.ndim == 1:
        if a.size != b.size:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        return dot(a, b)
    A = a[None, :] if a.ndim == 1 else a
    B = b[:, None] if b.ndim == 1 else b
    if A.ndim != 2 or B.ndim != 2:
        raise Unsupported("matmul of >2-d arrays")
    if A.shape[1] != B.shape[0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    o = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            o[i, j] = dot(A[i], B[:, j])
    if a.ndim == 1:
        o = o[0]
    if b.ndim == 1:
        o = o[..., 0]
    return o.view(SArr)


# ------------------------------------------------------------------ array functions
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    if min is not None:
        a_min = min
    if max is not None:
        a_max = max
    r = a if not isinstance(a, (list, tuple)) else array(a)
    if a_min is not None:
        r = _nary(UF["maximum"], (r, _coerce_val(a_min)))
    if a_max is not None:
        r = _nary(UF["minimum"], (r, _coerce_val(a_max)))
    if r is a and isinstance(a, np.ndarray):
        r = a.copy()
    return _store(out, r)


def _store(out, r):
    if out is None:
        return r
    np.ndarray.__setitem__(out, Ellipsis, r)
    return out


def _where(c, *xy):
    if not xy:
        return _nonzero(c)
    x, y = xy
    c, x, y = _coerce_val(c), _coerce_val(x), _coerce_val(y)
    r = _nary(lambda cc, a, b: S.ite(_tobool(cc), a, b) if isinstance(cc, _SYM) else (a if cc else b), (c, x, y))
    return r if isinstance(r, np.ndarray) else _zero_d(r)


def _zero_d(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o.view(SArr)


def _select(condlist, choicelist, default=0):
    if len(condlist) != len(choicelist):
        raise ValueError("list of cases must be same length as list of conditions")
    if len(condlist) == 0:
        raise ValueError("select with an empty condition list is not possible")
    args = [_coerce_val(x) for x in list(condlist) + list(choicelist) + [default]]
    n = len(condlist)

    def f(*e):
        r = e[-1]
        for c, v in reversed(list(zip(e[:n], e[n:2 * n]))):
            c = _tobool(c) if isinstance(c, Sym) else c
            r = S.ite(c, v, r) if isinstance(c, SBool) else (v if c else r)
        return r
    r = _nary(f, args)
    return r if isinstance(r, np.ndarray) else _zero_d(r)


def _piecewise(x, condlist, funclist, *args, **kw):
    x = asarray(x)
    conds = [asarray(c) for c in condlist]
    fl = list(funclist)
    vals = [(f(x, *args, **kw) if callable(f) else f) for f in fl]
    default = vals[len(conds)] if len(vals) > len(conds) else 0
    return _select(conds, vals[:len(conds)], default)


def interp_scalar(x, xp, fp, left, right):
    n = len(xp)
    if n == 1:
        seg = fp[0]
        segs = []
    # from the right: value for x > xp[-1]
    r = right
    same_end = S.same(right, fp[-1])
    r = right if same_end else _ite2(S.compare("<=", x, xp[-1]), fp[-1], right)
    for i in range(n - 2, -1, -1):
        sl = UF["divide"](UF["subtract"](fp[i + 1], fp[i]), UF["subtract"](xp[i + 1], xp[i]))
        v = UF["add"](fp[i], UF["multiply"](sl, UF["subtract"](x, xp[i])))
        c = S.compare("<~" if i < n - 2 or same_end else "<", x, xp[i + 1])
        r = S.ite(c, v, r) if isinstance(c, SBool) else (v if c else r)
    c = S.compare("<~" if S.same(left, fp[0]) else "<", x, xp[0])
    return S.ite(c, left, r) if isinstance(c, SBool) else (left if c else r)


def _ite2(c, a, b):
    return S.ite(c, a, b) if isinstance(c, SBool) else (a if c else b)


S.ite2 = _ite2


def _interp(x, xp, fp, left=None, right=None, period=None):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp) or has_sym(left) or has_sym(right)):
        return wrap(np.interp(unwrap(asarray(x)), unwrap(asarray(xp)), unwrap(asarray(fp)), left=left, right=right, period=period))
    if period is not None:
        raise Unsupported("interp period=")
    xp, fp = obj(xp), obj(fp)
    if len(xp) != len(fp):
        raise ValueError("fp and xp are not of the same length.")
    l = fp[0] if left is None else left
    r = fp[-1] if right is None else right
    out = _nary(lambda e: interp_scalar(e, xp, fp, l, r), (_coerce_val(x),))
    return out


def _nonzero(a):
    a = asarray(a)
    if has_sym(a):
        a = apply1(lambda e: bool(e), a)      # forks
    return wrap(np.nonzero(unwrap(a)))


LONG = 24      # selections from longer symbolic vectors stay opaque


def _argminmax(name, cmp):
    def f(a, axis=None, **k):
        a = asarray(a)
        if not has_sym(a):
            return int(getattr(np, name)(unwrap(a), axis=axis)) if axis is None or a.ndim == 1 else wrap(getattr(np, name)(unwrap(a), axis=axis))
        if a.ndim != 1:
            raise Unsupported(name + " over a symbolic nd array")
        if a.size > LONG:
            els = tuple(_num(e) for e in a)
            return S.argmin(els if name == "argmin" else tuple(S.neg(e) if isinstance(e, Sym) else -e for e in els))
        best = 0
        for i in range(1, a.size):
            if bool(S.compare(cmp, _num(a[i]), _num(a[best]))):
                best = i
        return best
    return f


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if not (is_sym(x) or is_sym(y)):
            return bool(np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan))
        d = S.sabs(S.sub(x, y))
        return S.compare("<=", d, S.add(atol, S.mul(rtol, S.sabs(y))))
    return _nary(f, (_coerce_val(a), _coerce_val(b)))


def _allclose(a, b, **k):
    return S.b_and_list([_tobool(x) for x in obj(_isclose(a, b, **k)).reshape(-1)])


def _searchsorted(a, v, side="left", sorter=None):
    if not (has_sym(a) or has_sym(v)):
        return wrap(np.searchsorted(unwrap(asarray(a)), unwrap(v) if not np.isscalar(v) else v, side=side))
    a = obj(a)

    def f(x):
        n = 0
        for e in a:     # forks
            c = S.compare("<" if side == "left" else "<=", e, x)
            if bool(c):
                n += 1
            else:
                break
        return n
    return _nary(f, (_coerce_val(v),))


def _inv(m):
    m = asarray(m)
    if not has_sym(m):
        return wrap(np.linalg.inv(unwrap(m).astype(float)))
    a = obj(m)
    n = a.shape[0]
    if n == 1:
        o = np.empty((1, 1), dtype=object)
        o[0, 0] = S.div(1.0, a[0, 0])
        return o.view(SArr)
    if n == 2:
        det = S.sub(S.mul(a[0, 0], a[1, 1]), S.mul(a[0, 1], a[1, 0]))
        o = np.empty((2, 2), dtype=object)
        o[0, 0], o[1, 1] = S.div(a[1, 1], det), S.div(a[0, 0], det)
        o[0, 1], o[1, 0] = S.div(S.neg(a[0, 1]), det), S.div(S.neg(a[1, 0]), det)
        return o.view(SArr)
    raise Unsupported("symbolic inverse of a %dx%d matrix" % (n, n))


def _solve(a, b):
    return _matmul(_inv(a), b)


def _diag(v, k=0):
    v = obj(v)
    if v.ndim == 2:
        n = min(v.shape)
        o = np.empty(n, dtype=object)
        for i in range(n):
            o[i] = v[i, i]
        return o.view(SArr)
    n = v.size
    o = np.empty((n, n), dtype=object)
    o[...] = 0.0
    for i in range(n):
        o[i, i] = v[i]
    return o.view(SArr)


def _fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    for i in range(n):
        v = val
        if isinstance(val, (list, tuple, np.ndarray)):
            v = obj(val).reshape(-1)[i % obj(val).size]
        np.ndarray.__setitem__(a, (i, i), v)


def _convolve(a, v, mode="full"):
    a, v = obj(a), obj(v)
    if a.size < v.size:
        a, v = v, a
    n, m = a.size, v.size
    full = []
    for k in range(n + m - 1):
        acc = 0.0
        for j in range(m):
            i = k - j
            if 0 <= i < n:
                acc = UF["add"](acc, UF["multiply"](a[i], v[j]))
        full.append(acc)
    if mode == "full":
        pass
    elif mode == "same":
        s = (m - 1) // 2
        full = full[s:s + n]
    elif mode == "valid":
        full = full[m - 1:n]
    return array(full)


def _mean(a, axis=None, **k):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return np.add.reduce(a, axis=axis) / n


def _any(a, axis=None, **k):
    a = asarray(a)
    if axis is None:
        return S.b_or_list([_tobool(x) for x in obj(a).reshape(-1)])
    return np.logical_or.reduce(a, axis=axis)


def _all(a, axis=None, **k):
    a = asarray(a)
    if axis is None:
        return S.b_and_list([_tobool(x) for x in obj(a).reshape(-1)])
    return np.logical_and.reduce(a, axis=axis)


def _sort(a, *args, **k):
    a = asarray(a)
    if has_sym(a):
        els = list(obj(a))
        return array(_sorted(els))
    return wrap(np.sort(unwrap(a)))


def _argsort(a, *args, **k):
    a = asarray(a)
    if has_sym(a):
        els = list(enumerate(obj(a)))
        els.sort(key=functools.cmp_to_key(lambda p, q: -1 if bool(S.compare("<", p[1], q[1])) else 1))
        return array([i for i, _ in els])
    return wrap(np.argsort(unwrap(a), *args, **k))


def _sorted(it, key=None, reverse=False):
    it = list(it)
    if key is None and any(is_sym(e) for e in it):
        it.sort(key=functools.cmp_to_key(lambda p, q: -1 if bool(S.compare("<", p, q)) else 1))
        return it[::-1] if reverse else it
    return builtins.sorted(it, key=key, reverse=reverse)


def _unique(a, *args, **k):
    return wrap(np.unique(unwrap(asarray(a)), *args, **k))


def _polyval(p, x):
    r = 0.0
    for c in obj(p):
        r = r * x + c
    return r


def _nan_to_num(x, copy=True, nan=0.0, **k):
    def f(e):
        if is_sym(e):
            c = _isnan(e)
            return S.ite(c, nan, e) if isinstance(c, SBool) else (nan if c else e)
        return float(np.nan_to_num(e, nan=nan))
    return _nary(f, (_coerce_val(x),))


def _diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    if n != 1 or a.ndim != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def _trapz(y, x=None, dx=1.0, **k):
    y = asarray(y)
    d = dx if x is None else _diff(asarray(x))
    return np.add.reduce((y[1:] + y[:-1]) / 2.0 * d)


def _choose(a, choices, **k):
    return wrap(np.choose(unwrap(asarray(a)), [obj(c) for c in choices]))


def _vectorize(pyfunc, *a, **k):
    def f(*args):
        return _nary(pyfunc, [_coerce_val(x) for x in args])
    return f


_OVR = {}


def _ovr(npf, f):
    if npf is not None:
        _OVR[npf] = f


_ovr(np.clip, _clip)
_ovr(np.where, _where)
_ovr(np.select, _select)
_ovr(np.piecewise, _piecewise)
_ovr(np.interp, _interp)
_ovr(np.nonzero, _nonzero)
_ovr(np.flatnonzero, lambda a: _nonzero(np.ravel(asarray(a)))[0])
_ovr(np.argwhere, lambda a: np.stack([asarray(x) for x in _nonzero(a)], axis=-1))
_ovr(np.argmin, _argminmax("argmin", "<"))
_ovr(np.argmax, _argminmax("argmax", ">"))
_ovr(np.isclose, _isclose)
_ovr(np.allclose, _allclose)
_ovr(np.searchsorted, _searchsorted)
_ovr(np.digitize, lambda x, bins, right=False: _searchsorted(bins, x, side="left" if right else "right"))
_ovr(np.linalg.inv, _inv)
_ovr(np.linalg.solve, _solve)
_ovr(np.diag, _diag)
_ovr(np.diagonal, _diag)
_ovr(np.fill_diagonal, _fill_diagonal)
_ovr(np.convolve, _convolve)
_ovr(np.mean, _mean)
_ovr(np.average, _mean)
_ovr(np.any, _any)
_ovr(np.all, _all)
_ovr(np.sort, _sort)
_ovr(np.argsort, _argsort)
_ovr(np.unique, _unique)
_ovr(np.polyval, _polyval)
_ovr(np.nan_to_num, _nan_to_num)
_ovr(np.diff, _diff)
_ovr(np.trapezoid, _trapz)
_ovr(np.choose, _choose)
_ovr(np.dot, lambda a, b, out=None: _dot(a, b))
_ovr(np.inner, lambda a, b: _dot(a, np.swapaxes(asarray(b), -1, -2) if asarray(b).ndim > 1 else b))
_ovr(np.outer, lambda a, b, out=None: _nary(UF["multiply"], (np.ravel(asarray(a))[:, None], np.ravel(asarray(b))[None, :])))
_ovr(np.copy, lambda a, *x, **k: array(a))
_ovr(np.ones_like, lambda a, *x, **k: full(np.shape(asarray(a)), 1.0))
_ovr(np.zeros_like, lambda a, *x, **k: full(np.shape(asarray(a)), 0.0))
_ovr(np.empty_like, lambda a, *x, **k: full(np.shape(asarray(a)), float("nan")))
_ovr(np.full_like, lambda a, v, *x, **k: full(np.shape(asarray(a)), v))
_ovr(np.isin, lambda a, b, **k: _nary(lambda e: S.b_or_list([_cmpf("==", lambda p, q: p == q)(e, y) for y in obj(b).reshape(-1)]), (_coerce_val(a),)))
_ovr(np.real, lambda a: a)
def _reducer(uname):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if out is not None or where is not True:
            raise Unsupported("reduction with out/where")
        if isinstance(initial, (int, float, Sym)):
            a = np.concatenate([obj(asarray(a)).reshape(-1), np.array([initial], dtype=object)]) if axis is None else a
        return _reduce(UF[uname], uname, asarray(a), axis, bool(keepdims))
    return f


def _cumsum(a, axis=None, **k):
    els = list(obj(asarray(a)).reshape(-1))
    if axis not in (None, 0, -1) or np.ndim(a) > 1 and axis is not None:
        raise Unsupported("cumsum over an axis")
    acc, out = 0.0, []
    for e in els:
        acc = UF["add"](acc, e)
        out.append(acc)
    return array(out)


def _round(a, decimals=0, **k):
    if has_sym((a,)):
        raise Unsupported("rounding symbolic values")
    return wrap(np.round(unwrap(asarray(a)), decimals))


for _f, _u in ((np.sum, "add"), (np.prod, "multiply"), (np.min, "minimum"), (np.max, "maximum"), (np.amin, "minimum"), (np.amax, "maximum"), (np.nansum, "add")):
    _ovr(_f, _reducer(_u))
_ovr(np.cumsum, _cumsum)
_ovr(np.round, _round)
_ovr(np.around, _round)
_ovr(np.nanmin, lambda a, *x, **k: np.min(a, *x, **k))
_ovr(np.nanmax, lambda a, *x, **k: np.max(a, *x, **k))
_ovr(np.einsum, lambda *a, **k: (_ for _ in ()).throw(Unsupported("einsum")))
_ovr(np.logspace, lambda a, b, num=50, **k: wrap(np.logspace(unwrap(a), unwrap(b), num, **k)))
_ovr(np.array_equal, lambda a, b, **k: S.b_and_list([_tobool(x) for x in obj(_nary(UF["equal"], (a, b))).reshape(-1)]) if np.shape(asarray(a)) == np.shape(asarray(b)) else False)


def _dot(a, b):
    if not isinstance(a, (np.ndarray, list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
        return _nary(UF["multiply"], (_coerce_val(a), _coerce_val(b)))
    return _matmul(a, b)


# structural functions: the numpy implementation works on object arrays as is
_STRUCT = {"reshape", "ravel", "transpose", "squeeze", "expand_dims", "atleast_1d", "atleast_2d", "atleast_3d",
           "concatenate", "stack", "vstack", "hstack", "column_stack", "dstack", "broadcast_to", "broadcast_arrays",
           "tile", "repeat", "roll", "flip", "fliplr", "flipud", "rot90", "moveaxis", "swapaxes", "rollaxis", "split",
           "array_split", "append", "insert", "delete", "take", "compress", "shape", "ndim", "size", "sum", "prod",
           "min", "max", "amin", "amax", "cumsum", "meshgrid", "triu", "tril", "eye", "copyto", "put", "take_along_axis",
           "hsplit", "vsplit", "trim_zeros", "block", "ix_", "resize", "ptp", "nansum", "round", "around", "iscomplexobj", "isscalar",
           "indices", "kron", "trace"}


def do_func(func, args, kwargs):
    f = _OVR.get(func)
    if f is not None:
        return f(*args, **kwargs)
    name = func.__name__
    impl = getattr(func, "_implementation", None)
    if name in _STRUCT and impl is not None:
        a2 = [array(a) if isinstance(a, (list, tuple)) and has_sym(a) and name not in
              ("concatenate", "stack", "vstack", "hstack", "column_stack", "dstack", "block", "meshgrid", "broadcast_arrays") else
              ([asarray(e) for e in a] if isinstance(a, (list, tuple)) and has_sym(a) else (asarray(a) if is_sym(a) else a)) for a in args]
        if name in ("concatenate", "stack"):
            a2[0] = [asarray(e) for e in a2[0]]
        r = impl(*a2, **kwargs)
        if isinstance(r, list):
            return [wrap(x) for x in r]
        return wrap(r)
    if has_sym(args) or has_sym(kwargs):
        if impl is not None and getattr(func, "__module__", "").startswith("numpy"):
            raise Unsupported("numpy.%s on symbolic values" % name)
    r = func(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kwargs.items()})
    return wrap(r)


def full(shape, v, *a, **k):
    o = np.empty(shape if not isinstance(shape, np.ndarray) else tuple(shape), dtype=object)
    if isinstance(v, (list, tuple)):
        v = array(v)
    o[...] = v
    return o.view(SArr)


# ------------------------------------------------------------------ records
class SRec:
    """Stand-in for numpy.recarray: named columns sharing memory with row/slice views."""

    def __init__(self, cols, names=None):
        object.__setattr__(self, "_cols", cols)
        object.__setattr__(self, "_names", tuple(names or cols))

    @classmethod
    def from_np(cls, a):
        return cls({n: wrap(np.array(a[n])) for n in a.dtype.names}, a.dtype.names)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        cols = object.__getattribute__(self, "_cols")
        if n in cols:
            c = cols[n]
            return c if c.ndim else c[()]
        raise AttributeError("recarray has no attribute %s" % n)

    def __setattr__(self, n, v):
        if n in self._cols:
            self._cols[n][...] = v
        else:
            object.__setattr__(self, n, v)

    def __getitem__(self, ix):
        if isinstance(ix, str):
            if ix not in self._cols:
                raise ValueError("no field of name %s" % ix)
            c = self._cols[ix]
            return c if c.ndim else c[()]
        if isinstance(ix, list) and ix and all(isinstance(i, str) for i in ix):
            return SRec({n: self._cols[n] for n in ix}, ix)
        if isinstance(ix, (int, np.integer)):
            n = len(self)
            if ix >= n or ix < -n:
                raise IndexError("index %d is out of bounds" % ix)
            # 0-d views keep sharing memory
            return SRec({k: np.ndarray.__getitem__(c, (int(ix), Ellipsis)).view(SArr) for k, c in self._cols.items()}, self._names)
        return SRec({n: c[ix] for n, c in self._cols.items()}, self._names)

    def __setitem__(self, ix, v):
        if isinstance(ix, str):
            self._cols[ix][...] = v
            return
        if isinstance(v, SRec):
            for n in self._names:
                self._cols[n][ix] = v._cols[n]
            return
        for n, x in zip(self._names, v):
            self._cols[n][ix] = x

    @property
    def dtype(self):
        return types.SimpleNamespace(names=self._names)

    def __len__(self):
        return len(next(iter(self._cols.values())))

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return next(iter(self._cols.values())).shape

    @property
    def ndim(self):
        return len(self.shape)

    def view(self, *a, **k):
        return self

    def copy(self):
        return SRec({n: c.copy() for n, c in self._cols.items()}, self._names)

    def tolist(self):
        return [tuple(c[i] for c in self._cols.values()) for i in range(len(self))]

    def __iter__(self):
        if self.ndim == 0:
            for n in self._names:
                yield self._cols[n][()]
            return
        for i in range(len(self)):
            yield self[i]

    def __deepcopy__(self, memo):
        return self.copy()


def _fromarrays(arrs, dtype=None, names=None, **k):
    if names is None and dtype is not None:
        names = np.dtype(dtype).names
    if isinstance(names, str):
        names = [n.strip() for n in names.split(",")]
    return SRec({n: array(a) for n, a in zip(names, arrs)}, names)


def _recarray_from(obj_, dtype=None, names=None, **k):
    if isinstance(obj_, SRec):
        return obj_.copy()
    if isinstance(obj_, np.ndarray) and obj_.dtype.names:
        return SRec.from_np(obj_)
    if names is None and dtype is not None:
        names = np.dtype(dtype).names
    if isinstance(names, str):
        names = [n.strip() for n in names.split(",")]
    cols = list(zip(*obj_))
    return SRec({n: array(list(c)) for n, c in zip(names, cols)}, names)


def _zeros(shape, dtype=None, *a, **k):
    if isinstance(dtype, (list, np.dtype)) and np.dtype(dtype).names:
        names = np.dtype(dtype).names
        return SRec({n: full(shape, 0.0) for n in names}, names)
    return full(shape, 0.0)


class _CIdx:
    def __init__(self, kind):
        self.kind = kind

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if self.kind == "r":
            parts = []
            for k in key:
                if isinstance(k, slice):
                    parts.append(wrap(np.r_[k]))
                else:
                    parts.append(np.atleast_1d(asarray(k)))
            o = np.concatenate([p.view(np.ndarray) for p in parts])
            return wrap(array(o.tolist()) if o.ndim == 1 else o)
        cols = []
        for k in key:
            if isinstance(k, slice):
                k = wrap(np.r_[k])
            a = asarray(k)
            cols.append(a if a.ndim == 2 else np.reshape(np.atleast_1d(a), (-1, 1)))
        return wrap(np.concatenate([c.view(np.ndarray) for c in cols], axis=1))


# ------------------------------------------------------------------ the shim modules
class Shim(types.ModuleType):
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__.update(table)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(self.__dict__["_real"], n)
        if isinstance(v, np.ufunc):
            w = _shim_ufunc(v)
        elif callable(v) and not isinstance(v, type) and getattr(v, "__module__", "").startswith("numpy"):
            w = _shim_func(v)
        else:
            w = v
        self.__dict__[n] = w
        return w


class _UfShim:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        a = [_coerce_val(x) for x in a]
        if self.uf.nin == len(a) - 1 and "out" not in k:
            k["out"] = (a.pop(),)
        r = do_ufunc(self.uf, "__call__", a, k)
        return r

    def reduce(self, a, axis=0, **k):
        return do_ufunc(self.uf, "reduce", (asarray(a),), dict(axis=axis, **k))

    def outer(self, a, b, **k):
        return do_ufunc(self.uf, "outer", (asarray(a), asarray(b)), k)

    def accumulate(self, a, *x, **k):
        return do_ufunc(self.uf, "accumulate", (asarray(a),), k)


def _shim_ufunc(v):
    return _UfShim(v)


def _shim_func(v):
    @functools.wraps(v)
    def f(*a, **k):
        a = [array(x) if isinstance(x, (list, tuple)) and v.__name__ in _LISTIFY else x for x in a]
        if v in _OVR:
            return _OVR[v](*a, **k)
        if hasattr(v, "_implementation"):
            return do_func(v, a, k)
        r = v(*[unwrap(x) for x in a], **{kk: unwrap(x) for kk, x in k.items()})
        return wrap(r)
    return f


_LISTIFY = {"sum", "prod", "min", "max", "amin", "amax", "mean", "diff", "cumsum", "diag", "ravel", "reshape", "atleast_1d",
            "atleast_2d", "squeeze", "dot", "outer", "any", "all", "argmin", "argmax", "sort", "argsort", "searchsorted"}


class _ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


_tables_read = {}


def _genfromtxt(*a, **k):
    key = repr((a, sorted(k.items())))
    if key not in _tables_read:
        _tables_read[key] = np.genfromtxt(*a, **k)
    return wrap(_tables_read[key].copy())


def _loadtxt(*a, **k):
    return wrap(np.loadtxt(*a, **k))


def _shape(x):
    if isinstance(x, SRec):
        return x.shape
    return np.shape(x if isinstance(x, np.ndarray) else asarray(x))


def _size(x, axis=None):
    if is_sym(x):
        return 1
    return np.size(x) if isinstance(x, np.ndarray) else asarray(x).size


class _NPFloat(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64,)) or isinstance(x, Sym)


def _as_float(x=0.0):
    if is_sym(x):
        return _num(x)
    if isinstance(x, np.ndarray):
        if x.size == 1:
            e = x.reshape(-1)[0]
            return _num(e) if is_sym(e) else builtins.float(e)
        return asarray(x, dtype=float)
    return builtins.float(x)


def _maskedarray(data, mask=False, **k):
    raise Unsupported("masked arrays")


_linalg = Shim("numpy.linalg", np.linalg, {"inv": _inv, "solve": _solve})
_rec = Shim("numpy.rec", np.rec, {"fromarrays": _fromarrays, "array": _recarray_from,
                                  "fromrecords": lambda r, dtype=None, names=None, **k: _recarray_from(r, dtype, names)})


class SMasked:
    """numpy.ma.masked_array with a concrete mask (enough for the package)."""

    def __init__(self, data, mask):
        self.data, self.mask = asarray(data), np.broadcast_to(np.asarray(unwrap(asarray(mask)), dtype=bool), asarray(data).shape)

    def __getattr__(self, n):
        raise Unsupported("masked_array.%s" % n)

    def __getitem__(self, ix):
        ix = np.asarray(unwrap(asarray(ix))) if isinstance(ix, np.ndarray) else ix
        if isinstance(ix, np.ndarray) and ix.dtype == object:
            ix = ix.astype(bool)
        r = np.ndarray.__getitem__(self.data, ix)
        m = self.mask[ix]
        if np.ndim(r) == 0:
            if m:
                raise Unsupported("masked scalar")
            return r
        return SMasked(r, m)

    def _plain(self):
        if self.mask.any():
            raise Unsupported("arithmetic on masked values")
        return self.data

    def __sub__(self, o):
        return self._plain() - (o._plain() if isinstance(o, SMasked) else o)

    def __rsub__(self, o):
        return o - self._plain()

    def __add__(self, o):
        return self._plain() + (o._plain() if isinstance(o, SMasked) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._plain() * (o._plain() if isinstance(o, SMasked) else o)

    __rmul__ = __mul__

    @property
    def T(self):
        return SMasked(self.data.T, self.mask.T)

    @property
    def size(self):
        return self.data.size

    @property
    def shape(self):
        return self.data.shape

    def __len__(self):
        return len(self.data)

    def count(self):
        return int((~self.mask).sum())

    def compressed(self):
        return np.ndarray.__getitem__(self.data, ~self.mask)

    def filled(self, v):
        return array([v if b else e for e, b in zip(self.data, self.mask)])

    __array_ufunc__ = None


_ma = Shim("numpy.ma", np.ma, {
    "masked_array": lambda data, mask=False, **k: SMasked(data, mask),
    "array": lambda data, mask=False, **k: SMasked(data, mask),
    "getmaskarray": lambda a: wrap(np.array(a.mask)) if isinstance(a, SMasked) else full(_shape(a), False),
    "getmask": lambda a: wrap(np.array(a.mask)) if isinstance(a, SMasked) else False,
    "MaskedArray": SMasked,
    "count_masked": lambda a, *x: int(np.sum(a.mask)) if isinstance(a, SMasked) else 0,
})

_np_table = dict(
    array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, fromiter=fromiter,
    asfarray=asarray, float64=_as_float, float_=_as_float,
    zeros=_zeros, ones=lambda shape, *a, **k: full(shape, 1.0),
    empty=lambda shape, *a, **k: full(shape, float("nan")), full=full,
    zeros_like=_OVR[np.zeros_like], ones_like=_OVR[np.ones_like], empty_like=_OVR[np.empty_like], full_like=_OVR[np.full_like],
    r_=_CIdx("r"), c_=_CIdx("c"), errstate=_ErrState, seterr=lambda *a, **k: {}, genfromtxt=_genfromtxt, loadtxt=_loadtxt,
    ndarray=np.ndarray, linalg=_linalg, rec=_rec, ma=_ma, recarray=SRec, shape=_shape, size=_size,
    vectorize=_vectorize, isscalar=lambda x: is_sym(x) or np.isscalar(x), ndim=lambda x: len(_shape(x)),
    copy=array, typing=np.typing if hasattr(np, "typing") else None,
)
numpy_shim = Shim("numpy", np, _np_table)
S.np_shim = numpy_shim

_math_table = {}
for _n, _u in dict(exp="exp", log="log", log10="log10", log2="log2", log1p="log1p", sqrt="sqrt", cos="cos", sin="sin", tan="tan",
                   tanh="tanh", cosh="cosh", sinh="sinh", atan="arctan", asin="arcsin", acos="arccos", hypot="hypot", fabs="absolute",
                   radians="radians", degrees="degrees", pow="power", isnan="isnan", isfinite="isfinite", isinf="isinf",
                   expm1="expm1", floor="floor", ceil="ceil").items():
    def _mk(nm, uname):
        real = getattr(math, nm)
        u = UF[uname]

        def f(*a):
            a = [x.item() if isinstance(x, np.ndarray) and x.size == 1 else x for x in a]
            if any(is_sym(x) for x in a):
                if nm == "log" and len(a) == 2:
                    return UF["divide"](u(a[0]), u(a[1]))
                return u(*a)
            return real(*a)
        return f
    _math_table[_n] = _mk(_n, _u)
_math_table["erf"] = lambda x: S.fn("erf", x)
_math_table["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
    S.compare("<=", S.sabs(S.sub(a, b)), S.smax(S.mul(rel_tol, S.smax(S.sabs(a), S.sabs(b))), abs_tol)) if is_sym(a) or is_sym(b)
    else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))
_math_table["fsum"] = lambda it: sum_(it)
math_shim = Shim("math", math, _math_table)


class interp1d:
    """scipy.interpolate.interp1d, kinds linear/slinear (stub written from its documented contract)."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if kind not in ("linear", "slinear", "nearest"):
            raise Unsupported("interp1d kind=%r" % (kind,))
        self.kind = kind
        self.x, self.y = array(x), array(y)
        if self.x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        self.axis = axis % self.y.ndim
        if self.y.shape[self.axis] != self.x.size:
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        # nodes first
        self.y = wrap(np.moveaxis(self.y.view(np.ndarray), self.axis, 0))
        if has_sym(self.x):
            raise Unsupported("interp1d over symbolic nodes")
        if not assume_sorted:
            o = np.argsort(np.array(self.x.tolist(), dtype=float), kind="mergesort")
            self.x, self.y = self.x[o], self.y[o]
        self.extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        if bounds_error is None:
            bounds_error = (not self.extrap) and (fill_value is np.nan or (isinstance(fill_value, float) and fill_value != fill_value))
        self.bounds_error = bounds_error
        fv = fill_value
        if self.extrap:
            self.lo = self.hi = None
        elif isinstance(fv, tuple):
            self.lo, self.hi = fv
        else:
            self.lo = self.hi = fv

    def _fill(self, f, idx):
        if isinstance(f, np.ndarray):
            return np.ndarray.__getitem__(np.broadcast_to(obj(f), self.y.shape[1:]), idx) if f.ndim else f.item()
        return f

    def __call__(self, q):
        q = asarray(q)
        x = obj(self.x)
        rest = self.y.shape[1:]

        def one(v, y, idx):
            if self.bounds_error:
                if bool(S.compare("<", v, x[0])) or bool(S.compare(">", v, x[-1])):
                    raise ValueError("A value in x_new is outside the interpolation range.")
            if not (self.extrap or self.bounds_error) and is_sym(v) and all(isinstance(f, float) and f != f for f in (self.lo, self.hi)):
                # not-a-number outside: one path per segment
                if bool(S.compare("<", v, x[0])) or bool(S.compare(">", v, x[-1])):
                    return float("nan")
                if self.kind != "nearest":
                    i = next((i for i in range(len(x) - 2) if bool(S.compare("<=", v, x[i + 1]))), len(x) - 2)
                    return UF["add"](y[i], UF["multiply"](UF["divide"](UF["subtract"](y[i + 1], y[i]), x[i + 1] - x[i]), UF["subtract"](v, x[i])))
            if self.kind == "nearest":
                r = y[-1]
                for i in range(len(x) - 2, -1, -1):
                    r = _ite2(S.compare("<=", v, (x[i] + x[i + 1]) / 2), y[i], r)
            else:
                r = None
                for i in range(len(x) - 2, -1, -1):
                    sl = UF["divide"](UF["subtract"](y[i + 1], y[i]), x[i + 1] - x[i])
                    s = UF["add"](y[i], UF["multiply"](sl, UF["subtract"](v, x[i])))
                    r = s if r is None else _ite2(S.compare("<~", v, x[i + 1]), s, r)
            if self.extrap or self.bounds_error:
                return r
            hi, lo = self._fill(self.hi, idx), self._fill(self.lo, idx)
            r = _ite2(S.compare("<~" if S.same(hi, y[-1]) else "<=", v, x[-1]), r, hi)
            return _ite2(S.compare("<~" if S.same(lo, y[0]) else "<", v, x[0]), lo, r)
        Y = obj(self.y)
        out = np.empty(q.shape + rest, dtype=object)
        for qi in np.ndindex(q.shape):
            v = obj(q)[qi]
            if is_sym(v):
                v = _num(v)
            for ri in np.ndindex(rest):
                out[qi + ri] = one(v, Y[(slice(None),) + ri], ri)
        # result shape: y.shape[:axis] + q.shape + y.shape[axis+1:]
        a = self.axis
        nq, nr = q.ndim, len(rest)
        order = [nq + i for i in range(a)] + list(range(nq)) + [nq + i for i in range(a, nr)]
        return np.transpose(out, order).view(SArr)


def sum_(it, start=0):
    acc = start
    for e in it:
        acc = acc + e
    return acc


_BREAK = object()


def _bmin(*a, key=None, default=_BREAK):
    return _bminmax(a, key, default, builtins.min, S.smin)


def _bmax(*a, key=None, default=_BREAK):
    return _bminmax(a, key, default, builtins.max, S.smax)


def _bminmax(a, key, default, real, sm):
    xs = list(a[0]) if len(a) == 1 else list(a)
    xs = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in xs]
    if not xs:
        if default is not _BREAK:
            return default
        raise ValueError("min()/max() iterable argument is empty")
    if key is None and any(is_sym(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = sm(_num(x), _num(r)) if sm is S.smin else sm(_num(r), _num(x))
        return r
    return real(xs, key=key) if key else real(xs)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, Sym)

    def __call__(cls, x=0.0):
        return _as_float(x)


class FloatShim(builtins.float, metaclass=_FloatMeta):
    pass


def _isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for e in ts:
            if isinstance(e, tuple):
                flat.extend(e)
            elif isinstance(e, types.UnionType):
                flat.extend(e.__args__)
            else:
                flat.append(e)
        for e in flat:
            if e in (FloatShim, builtins.float, np.floating, np.float64, np.number, _as_float) or getattr(e, "__name__", "") in ("Real", "Number", "Complex"):
                return True
            if e is builtins.object:
                return True
        return False
    if isinstance(t, tuple):
        return any(_isinstance(x, e) for e in t)
    if t is _as_float:
        return isinstance(x, np.float64)
    if t is FloatShim:
        return isinstance(x, builtins.float)
    if isinstance(x, SArr) and t is SArr:
        return True
    return isinstance(x, t)


def _babs(x):
    return S.sabs(x) if isinstance(x, Sym) else builtins.abs(x)


def _bany(it):
    return S.b_or_list([_tobool(x) if is_sym(x) else x for x in it])


def _ball(it):
    return S.b_and_list([_tobool(x) if is_sym(x) else x for x in it])


def _bbool(x=False):
    return builtins.bool(x)


def _bround(x, n=None):
    if is_sym(x):
        raise Unsupported("round of a symbolic value")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def _bpow(a, b, m=None):
    return a ** b if m is None else builtins.pow(a, b, m)


# ------------------------------------------------------------------ warnings recorder
class WarnLog:
    def __init__(self):
        self.items = []


WLOG = WarnLog()


def _warn(message, category=UserWarning, stacklevel=1, source=None, **k):
    if isinstance(message, Warning):
        category = type(message)
        message = str(message)
    WLOG.items.append((str(message), category.__name__ if category else "UserWarning"))


class _CatchWarnings:
    """warnings.catch_warnings(record=True): the warnings of the block, as records with .message and .category"""

    def __init__(self, *, record=False, **k):
        self.record = record

    def __enter__(self):
        self.outer = WLOG.items
        WLOG.items = _Records()
        return WLOG.items if self.record else None

    def __exit__(self, *a):
        inner, WLOG.items = WLOG.items, self.outer
        if not self.record:
            self.outer.extend(inner)


class _Records(list):
    def __getitem__(self, i):
        return _Rec(list.__getitem__(self, i))

    def __iter__(self):
        return (_Rec(v) for v in list.__iter__(self) if not v[1].startswith("log-"))

    def __len__(self):
        return sum(not v[1].startswith("log-") for v in list.__iter__(self))


class _Rec:
    def __init__(self, t):
        self.message, cat = t
        self.category = getattr(builtins, cat, UserWarning)


warnings_shim = Shim("warnings", _warnings, {"warn": _warn, "catch_warnings": _CatchWarnings, "simplefilter": lambda *a, **k: None,
                                             "filterwarnings": lambda *a, **k: None, "resetwarnings": lambda: None})


def _logrec(level):
    def f(msg, *args, **k):
        try:
            if any(isinstance(a, (Sym, SBool)) for a in args):     # a value in a log record: shown, not decided
                m = re.sub(r"%[-+ #0-9.]*[a-zA-Z]", "%s", str(msg)) % tuple("<symbolic>" if isinstance(a, (Sym, SBool)) else a for a in args)
            else:
                m = str(msg) % args if args else str(msg)
        except TypeError:
            m = str(msg) + " % " + repr(args)
        WLOG.items.append((m, "log-" + level))
    return f


class _Logger:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _logrec(n) if n in ("debug", "info", "warning", "error", "critical", "exception", "warn") else (lambda *a, **k: self)


import logging as _logging
logging_shim = Shim("logging", _logging, {n: _logrec(n) for n in ("debug", "info", "warning", "error", "critical", "exception", "warn")})
logging_shim.__dict__["getLogger"] = lambda *a: _Logger()


# ------------------------------------------------------------------ loader
SRC = os.environ.get("PYGMM_SRC", "/repo/src/pygmm")


CACHES = []      # caches of the code under test, emptied between paths


def _functools():
    import functools
    m = types.ModuleType("functools")
    m.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith("__")})

    def lru_cache(maxsize=128, typed=False):
        def wrap(f):
            w = functools.lru_cache(None if maxsize is None else (128 if callable(maxsize) else maxsize), typed)(f)
            CACHES.append(w.cache_clear)
            return w
        return wrap(maxsize) if callable(maxsize) else wrap
    m.lru_cache = lru_cache
    m.cache = lambda f: lru_cache(None)(f)
    return m


class Loader:
    """Executes package modules from source against the stand-ins (fresh module objects)."""

    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.executed = []
        self.extra = {}
        b = dict(vars(builtins))
        b.update(min=_bmin, max=_bmax, sum=sum_, abs=_babs, sorted=_sorted, isinstance=_isinstance, any=_bany, all=_ball,
                 float=FloatShim, round=_bround, pow=_bpow, __import__=self._import,
                 fresh=self.fresh, tables=self.tables, tables_changed=self.tables_changed)
        self.builtins = b
        si = Shim("scipy.interpolate", _lazy("scipy.interpolate"), {"interp1d": interp1d})
        sc = Shim("scipy", _lazy("scipy"), {"interpolate": si})
        ssp = Shim("scipy.special", _lazy("scipy.special"), {"erf": _lift1(lambda x: S.fn("erf", x), math.erf), "expit": lambda x: 1 / (1 + UF["exp"](-x))})
        sc.__dict__["special"] = ssp
        self.repl = {"numpy": numpy_shim, "numpy.linalg": _linalg, "numpy.rec": _rec, "numpy.ma": _ma, "math": math_shim,
                     "scipy": sc, "scipy.interpolate": si, "scipy.special": ssp, "warnings": warnings_shim, "logging": logging_shim,
                     "pandas": PandasShim, "functools": _functools()}
        self.statics = []
        self.codes = {}

    # what harnesses may call (the replay worker offers the same three)
    def fresh(self, name):
        """the module, loaded anew together with every other module of the package"""
        for k in list(self.mods):
            sys.modules.pop(k, None)
        self.mods.clear()
        return self.load("pygmm." + name)

    def tables(self):
        return Snapshot(self.mods.values())

    def tables_changed(self, snap):
        return sorted(set(snap.changed()))

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or "pygmm"
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            full_ = ".".join(parts + ([name] if name else []))
        else:
            full_ = name
        if full_ == "pygmm" or full_.startswith("pygmm."):
            m = self.load(full_)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and full_ == "pygmm":
                        try:
                            setattr(m, f, self.load("pygmm." + f))
                        except FileNotFoundError:
                            raise ImportError("cannot import name %r" % f)
                return m
            return self.load("pygmm")
        if full_ in self.repl:
            if not fromlist and "." in full_:
                return self.repl[full_.split(".")[0]]
            return self.repl[full_]
        if full_ == "numpy.typing":
            import numpy.typing as t
            if fromlist:
                return t
            numpy_shim.__dict__["typing"] = t
            return numpy_shim
        if full_ in ("urllib", "urllib.request", "requests", "socket", "subprocess"):
            return types.ModuleType(full_)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, full_):
        m = self.mods.get(full_)
        if m is not None:
            return m
        if full_ == "pygmm":
            m = types.ModuleType("pygmm")
            m.__path__ = [self.src]
            m.__package__ = "pygmm"
            m.__file__ = os.path.join(self.src, "__init__.py")
            m.__dict__["__builtins__"] = self.builtins
            self.mods[full_] = m
            return m
        rel = full_.split(".")[1:]
        path = os.path.join(self.src, *rel) + ".py"
        pkgpath = os.path.join(self.src, *rel, "__init__.py")
        is_pkg = False
        if not os.path.exists(path) and os.path.exists(pkgpath):
            path, is_pkg = pkgpath, True
        if path not in self.codes:
            self.codes[path] = compile(open(path).read(), path, "exec")
        m = types.ModuleType(full_)
        m.__file__ = path
        m.__package__ = full_ if is_pkg else full_.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[full_] = m
        setattr(self.mods.get("pygmm") or self.load("pygmm"), rel[0], m)
        sys.modules[full_] = m
        m.__name__ = full_
        try:
            exec(self.codes[path], m.__dict__)
        except BaseException:
            del self.mods[full_]
            raise
        self.executed.append(full_)
        return m


def _lazy(name):
    class _L(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            import importlib
            return getattr(importlib.import_module(name), n)
    return _L(name)


# ------------------------------------------------------------------ pandas (only what the package uses)
class SSeries(dict):
    def __init__(self, data=None, index=None, **k):
        if isinstance(data, dict):
            super().__init__(data)
        else:
            super().__init__(zip(index, data))

    def __getattr__(self, n):
        if n in self:
            return self[n]
        raise AttributeError(n)

    @property
    def values(self):
        return array(list(dict.values(self)))

    @property
    def loc(self):
        return self

    @property
    def iloc(self):
        return list(dict.values(self))

    def __contains__(self, k):
        return dict.__contains__(self, k)


PandasShim = Shim("pandas", _lazy("pandas"), {"Series": SSeries})


def collect_static(mods):
    """All SArr/SRec reachable from module and class namespaces (coefficient tables)."""
    out = []
    seen = set()

    def walk(o, where, depth):
        if id(o) in seen or depth > 5:
            return
        seen.add(id(o))
        if isinstance(o, SArr):
            out.append((where, o))
        elif isinstance(o, np.ndarray):
            out.append((where, o))
        elif isinstance(o, SRec):
            for n, c in o._cols.items():
                walk(c, "%s.%s" % (where, n), depth)
        elif isinstance(o, dict):
            out.append((where, o)) if not isinstance(o, SSeries) else out.append((where, o))
            for k, v in list(o.items()):
                walk(v, "%s[%r]" % (where, k), depth + 1)
        elif isinstance(o, (list, tuple)):
            if isinstance(o, list):
                out.append((where, o))
            for i, v in enumerate(o):
                walk(v, "%s[%d]" % (where, i), depth + 1)
        elif isinstance(o, type) and o.__module__.startswith("pygmm"):
            for k, v in list(vars(o).items()):
                if not k.startswith("__"):
                    walk(v, "%s.%s" % (o.__name__, k), depth + 1)
        elif type(o).__module__.startswith("pygmm") and hasattr(o, "__dict__"):
            for k, v in list(vars(o).items()):
                walk(v, "%s.%s" % (where, k), depth + 1)
    for m in mods:
        for k, v in list(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type) and not v.__module__.startswith("pygmm"):
                continue
            walk(v, k if isinstance(v, type) else "%s.%s" % (m.__name__, k), 0)
    return out


def freeze(x):
    if isinstance(x, np.ndarray):
        return tuple(map(_fz, x.reshape(-1).tolist())) if x.dtype == object else tuple(x.reshape(-1).tolist())
    if isinstance(x, dict):
        return tuple((k, _fz(v)) for k, v in x.items())
    return tuple(_fz(v) for v in x)


def _fz(v):
    if isinstance(v, float) and v != v:
        return "nan"
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return v
    if isinstance(v, Sym):
        return ("sym", S.poly_key(v))
    return id(v)


class Snapshot:
    def __init__(self, mods):
        self.items = [(w, o, freeze(o), _clone(o)) for w, o in collect_static(mods)]

    def changed(self):
        """entries present at the snapshot that differ now (a container may have grown: a cache is no change)"""
        return [w for w, o, f, c in self.items if freeze(o) != f and not _grown(o, f)]

    def restore(self):
        for f in CACHES:
            f()
        for w, o, f, c in self.items:
            if freeze(o) != f:
                if isinstance(o, np.ndarray):
                    np.ndarray.__setitem__(o, Ellipsis, c)
                elif isinstance(o, dict):
                    o.clear()
                    o.update(c)
                else:
                    o[:] = c


def _grown(o, f):
    if isinstance(o, dict):
        now = dict(freeze(o))
        return all(k in now and now[k] == v for k, v in f)
    return isinstance(o, list) and freeze(o)[:len(f)] == f


def _clone(o):
    if isinstance(o, np.ndarray):
        return np.ndarray.copy(o)
    return dict(o) if isinstance(o, dict) else list(o)
