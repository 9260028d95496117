"""Numeric cells: a triple (nan, inf, val).

nan  : B, the cell is missing
inf  : I in {-1,0,1}, the cell is -inf / finite / +inf   (meaningful if not nan)
val  : R, the value                                       (meaningful if finite)
"""
from .terms import *
from .terms import _known_pos
from fractions import Fraction


class Num:
    __slots__ = ("nan", "inf", "val")

    def __init__(self, nan, inf, val):
        self.nan, self.inf, self.val = nan, inf, val
        if nan is TRUE:
            self.inf, self.val = Z, R(0)

    def __repr__(self):
        return "Num(%s | %s | %s)" % (self.nan, self.inf, self.val)

    def comps(self):
        return (self.nan, self.inf, self.val)

    def map(self, f):
        return Num(f(self.nan), f(self.inf), f(self.val))

    @property
    def finite(self):
        return and_(not_(self.nan), eq(self.inf, Z))


Z = I(0)
NAN = Num(TRUE, Z, R(0))


def fin(val):
    return Num(FALSE, Z, val)


def const(c):
    if isinstance(c, float):
        if c != c:
            return NAN
        if c in (float("inf"), float("-inf")):
            return Num(FALSE, I(1 if c > 0 else -1), R(0))
    return fin(R(c))


def n_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    # do not care about the value part of a missing cell
    if b.nan is TRUE:
        return Num(or_(not_(c), a.nan), a.inf, a.val)
    if a.nan is TRUE:
        return Num(or_(c, b.nan), b.inf, b.val)
    return Num(ite(c, a.nan, b.nan), ite(c, a.inf, b.inf), ite(c, a.val, b.val))


def n_add(a, b):
    if a.inf is Z and b.inf is Z:
        return Num(or_(a.nan, b.nan), Z, add(a.val, b.val))
    clash = and_(not_(eq(a.inf, Z)), not_(eq(b.inf, Z)), not_(eq(a.inf, b.inf)))
    return Num(or_(a.nan, b.nan, clash), ite(eq(a.inf, Z), b.inf, a.inf), add(a.val, b.val))


def n_neg(a):
    return Num(a.nan, neg(a.inf), neg(a.val))


def n_sub(a, b):
    return n_add(a, n_neg(b))


def n_sgn(a):
    """sign of a non-nan cell as an integer term"""
    if a.inf is Z:
        return sgn(a.val)
    return ite(eq(a.inf, Z), sgn(a.val), a.inf)


def n_mul(a, b):
    if a.inf is Z and b.inf is Z:
        return Num(or_(a.nan, b.nan), Z, mul(a.val, b.val))
    anyinf = or_(not_(eq(a.inf, Z)), not_(eq(b.inf, Z)))
    sa, sb = n_sgn(a), n_sgn(b)
    zero = or_(eq(sa, Z), eq(sb, Z))
    s = mul(sa, sb) if False else _smul(sa, sb)
    return Num(or_(a.nan, b.nan, and_(anyinf, zero)), ite(anyinf, s, Z), mul(a.val, b.val))


def _smul(sa, sb):
    return ite(eq(sa, I(0)), I(0), ite(gt(sa, I(0)), sb, neg(sb)))


def n_div(a, b):
    """IEEE style division with 0/0 -> nan, x/0 -> +-inf (sign of zero taken as +)"""
    if known_nonzero_poly(b.val) and b.inf is Z and a.inf is Z:
        return Num(or_(a.nan, b.nan), Z, div(a.val, b.val))
    bz = and_(eq(b.inf, Z), eq0(b.val))
    ai = not_(eq(a.inf, Z))
    bi = not_(eq(b.inf, Z))
    az = and_(eq(a.inf, Z), eq0(a.val))
    nan = or_(a.nan, b.nan, and_(bz, az), and_(ai, bi))
    sb = ite(bz, I(1), n_sgn(b)) if a.inf is not Z else None
    if a.inf is Z:
        inf = ite(bz, sgn(a.val), Z)
    else:
        inf = ite(bz, n_sgn(a), ite(and_(ai, not_(bi)), _smul(a.inf, n_sgn(b)), Z))
    val = ite(bi, R(0), div(a.val, b.val))
    return Num(nan, inf, val)


def n_abs(a):
    return Num(a.nan, a.inf if a.inf is Z else ite(eq(a.inf, Z), Z, I(1)), abs_(a.val))


def n_round(k, a):
    return Num(a.nan, a.inf, rnd(k, a.val))


def n_lt(a, b):
    """IEEE a < b (False when either is nan)"""
    if a.inf is Z and b.inf is Z:
        c = lt(a.val, b.val)
    else:
        c = or_(lt(a.inf, b.inf), and_(eq(a.inf, Z), eq(b.inf, Z), lt(a.val, b.val)))
    return and_(not_(a.nan), not_(b.nan), c)


def n_le(a, b):
    if a.inf is Z and b.inf is Z:
        c = le(a.val, b.val)
    else:
        c = or_(lt(a.inf, b.inf), and_(eq(a.inf, b.inf), or_(not_(eq(a.inf, Z)), le(a.val, b.val))))
    return and_(not_(a.nan), not_(b.nan), c)


def n_gt(a, b):
    return n_lt(b, a)


def n_ge(a, b):
    return n_le(b, a)


def n_eq(a, b):
    if a.inf is Z and b.inf is Z:
        c = eq(a.val, b.val)
    else:
        c = and_(eq(a.inf, b.inf), or_(not_(eq(a.inf, Z)), eq(a.val, b.val)))
    return and_(not_(a.nan), not_(b.nan), c)


def n_ne(a, b):
    return not_(n_eq(a, b))


def n_same(a, b):
    """identical cells: both missing, or both present and equal"""
    if a.nan is TRUE and b.nan is TRUE:
        return TRUE
    c = and_(eq(a.inf, b.inf), or_(not_(eq(a.inf, Z)), eq(a.val, b.val)))
    return and_(iff(a.nan, b.nan), or_(a.nan, c))


def n_pow(a, k):
    r = a
    for _ in range(k - 1):
        r = n_mul(r, a)
    return r


def n_sqrt(a):
    neg_ = lt0(a.val)
    if a.inf is Z:
        return Num(or_(a.nan, neg_), Z, sqrt(a.val))
    return Num(or_(a.nan, ite(eq(a.inf, Z), neg_, lt(a.inf, Z))), a.inf, sqrt(a.val))


# --------------------------------------------------------------- array primitives
def valid(f):
    """predicate 'observation present' used by window operations (inf counts as
    missing there)"""
    return lambda j: and_(not_(f(j).nan), eq(f(j).inf, Z))


def win_sum(f, lo, hi):
    v = fresh("j")
    x = f(v)
    ok = and_(not_(x.nan), eq(x.inf, Z))
    return fold("sum", (), v, (ite(ok, x.val, R(0)),), lo, hi)


def win_cnt(f, lo, hi):
    v = fresh("j")
    x = f(v)
    ok = and_(not_(x.nan), eq(x.inf, Z))
    return fold("isum", (), v, (ite(ok, I(1), I(0)),), lo, hi)


def win_sumsq(f, lo, hi):
    v = fresh("j")
    x = f(v)
    ok = and_(not_(x.nan), eq(x.inf, Z))
    return fold("sum", (), v, (ite(ok, mul(x.val, x.val), R(0)),), lo, hi)


def fold_minmax(kind, f, lo, hi):
    """max/min of the present values in [lo,hi); the value is meaningful when at
    least one is present.  bodies = (present, value); leading missing cells
    decided by the index are cut from the range."""
    v = fresh("j")
    x = f(v)
    ok = and_(not_(x.nan), eq(x.inf, Z))
    # trim the range when presence is a threshold on the index
    for _ in range(4):
        if ok is TRUE or v not in ok.fv:
            break
        lits = ok.args if ok.op == "and" else (ok,)
        done = True
        for l in lits:
            if l.op == "ile0":
                k = lincoef(l.args[0], v)
                if k == -1:       # v >= q
                    lo = max_(lo, add(l.args[0], v))
                elif k == 1:      # v <= -q
                    hi = min_(hi, sub(I(1), sub(l.args[0], v)))
                else:
                    continue
                from .terms import replace
                ok = replace(ok, {l: TRUE})
                x = Num(FALSE, x.inf, replace(x.val, {l: TRUE, not_(l): FALSE}))
                done = False
                break
        if done:
            break
    if ok is TRUE:
        return fold(kind, (), v, (x.val,), lo, hi)
    return fold("p" + kind, (), v, (ok, x.val), lo, hi)


def lincoef(p, v):
    from .terms import _lincoef
    return _lincoef(p, v)
