"""Largest, smallest and latest values over a range of rows."""
from .lib import *


def _present(ser):
    def f(v):
        x = ser(v)
        return and_(not_(x.nan), eq(x.inf, Z)), x
    return f


def _infs(ser, lo, hi, s):
    """some value in the range is +inf (s=1) / -inf (s=-1)"""
    v = fresh("j")
    x = ser(v)
    if x.inf is Z:
        return FALSE
    return fold("any", (), v, (and_(not_(x.nan), eq(x.inf, I(s))),), lo, hi)


def _some(ser, lo, hi, finite):
    v = fresh("j")
    x = ser(v)
    return fold("any", (), v, (and_(not_(x.nan), eq(x.inf, Z)) if finite else not_(x.nan),), lo, hi)


def _extreme(kind, ser, lo, hi):
    sg = 1 if kind == "max" else -1
    top = _infs(ser, lo, hi, sg)
    some = _some(ser, lo, hi, False)
    val = fold_minmax(kind, ser, lo, hi)
    inf = Z if top is FALSE else ite(top, I(sg), ite(_some(ser, lo, hi, True), Z, I(-sg)))
    return Num(not_(some), inf, val)


def maximum(ser, lo, hi):
    """largest present value of rows lo..hi-1, missing when there is none"""
    return _extreme("max", ser, lo, hi)


def minimum(ser, lo, hi):
    return _extreme("min", ser, lo, hi)


def argmin(ser, lo, hi):
    """first row of rows lo..hi-1 holding the smallest present value"""
    v = fresh("j")
    m = minimum(ser, lo, hi)
    x = ser(v)
    return fold("first", (), v, (n_eq(x, m),), lo, hi)


def last_where(ser, cond, lo, hi):
    """(some row satisfies cond, the series at the last such row)"""
    v = fresh("j")
    c = cond(v)
    return fold("any", (), v, (c,), lo, hi), ser(fold("last", (), v, (c,), lo, hi))
