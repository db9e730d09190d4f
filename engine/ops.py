"""Operations for reference equations: the same code runs on floats and on symbolic values."""
import math
from . import sym as S
from .sym import Sym, SBool


def _f(name, fl):
    def g(x):
        if isinstance(x, (Sym, SBool)):
            return getattr(S, name)(x) if name in ("log", "exp", "sqrt") else S.fn(name, x)
        try:
            return fl(x)
        except (ValueError, OverflowError):
            return math.nan if not (name == "exp") else math.inf
    return g


def _log(x):
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


log = _f("log", _log)
exp = _f("exp", math.exp)
sqrt = _f("sqrt", math.sqrt)
cos = _f("cos", math.cos)
sin = _f("sin", math.sin)
tanh = _f("tanh", math.tanh)
cosh = _f("cosh", math.cosh)
tan = lambda x: sin(x) / cos(x)
LN10 = math.log(10.0)


def log10(x):
    return log(x) / LN10


def pow10(x):
    return exp(x * LN10)


def power(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return S.power(a, b)
    try:
        r = a ** b
        return r if not isinstance(r, complex) else math.nan
    except (ZeroDivisionError, OverflowError):
        return math.inf


def radians(x):
    return x * (math.pi / 180)


def ite(c, a, b):
    if isinstance(c, SBool):
        return S.ite(c, a, b)
    return a if c else b


def lt(a, b): return S.compare("<", a, b)
def le(a, b): return S.compare("<=", a, b)
def gt(a, b): return S.compare(">", a, b)
def ge(a, b): return S.compare(">=", a, b)
def eq(a, b): return S.compare("==", a, b)


def both(*cs):
    return S.b_and_list(list(cs))


def either(*cs):
    return S.b_or_list(list(cs))


def mn(a, b): return S.smin(a, b)
def mx(a, b): return S.smax(a, b)
def clip(x, lo, hi): return mn(mx(x, lo), hi)
def absv(x): return S.sabs(x)


def cases(*pairs, default):
    """cases((cond, value), ..., default=value): first true condition wins"""
    r = default
    for c, v in reversed(pairs):
        r = ite(c, v, r)
    return r


def interp(x, xs, ys, left=None, right=None):
    """piecewise linear, constant outside"""
    r = ys[-1] if right is None else right
    n = len(xs)
    for i in range(n - 2, -1, -1):
        v = ys[i] + (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]) * (x - xs[i])
        r = ite(S.compare("<=" if i == n - 2 and right is not None else "<~", x, xs[i + 1]), v, r)
    return ite(S.compare("<~" if left is None else "<", x, xs[0]), ys[0] if left is None else left, r)


def join(x, k, below, above):
    """below for x < k, above for x > k, where the two agree at k"""
    return ite(S.compare("<~", x, k), below, above)


class Refuse(Exception):
    """raised by a reference where the code must refuse (args: accepted exception names; none = any)"""
