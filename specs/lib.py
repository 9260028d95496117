"""Vocabulary of the specifications.

A `Ser` is a column given pointwise: row index -> cell (missing / infinite /
real).  Everything is defined by what row i equals; nothing is computed row by
row here.  Arithmetic on cells is IEEE style for missing and infinite cells and
exact on reals."""
from engine.terms import *
from engine.num import *
from engine.values import Col, SIndex, SSeries, Buf, Rolling, Ewm
from engine import pdmodel as P
from fractions import Fraction

N = param("n", "I")
DATES = SIndex("D", I(0), N)


def cell(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, T):
        return fin(x if x.sort == "R" else toreal(x))
    return const(x)


class Ser:
    def __init__(self, fn):
        self.col = fn if isinstance(fn, Col) else Col(fn)

    def __call__(self, i):
        return self.col.get(i)

    def _bin(self, o, op):
        if isinstance(o, Ser):
            return Ser(lambda i: op(self(i), o(i)))
        c = cell(o)
        return Ser(lambda i: op(self(i), c))

    def __add__(self, o): return self._bin(o, n_add)
    def __sub__(self, o): return self._bin(o, n_sub)
    def __mul__(self, o): return self._bin(o, n_mul)
    def __truediv__(self, o): return self._bin(o, n_div)
    def __radd__(self, o): return Ser(lambda i: n_add(cell(o), self(i)))
    def __rsub__(self, o): return Ser(lambda i: n_sub(cell(o), self(i)))
    def __rmul__(self, o): return Ser(lambda i: n_mul(cell(o), self(i)))
    def __rtruediv__(self, o): return Ser(lambda i: n_div(cell(o), self(i)))
    def __neg__(self): return Ser(lambda i: n_neg(self(i)))

    def abs(self): return Ser(lambda i: n_abs(self(i)))
    def round(self, k=4): return Ser(lambda i: n_round(k, self(i)))

    def prev(self, k=1):
        """value k rows earlier, missing in the first k rows"""
        k = I(k) if isinstance(k, int) else k
        return Ser(lambda i: n_ite(le(k, i), self(sub(i, k)), NAN))

    def later(self, k):
        """value k rows later, missing in the last k rows"""
        return Ser(lambda i: n_ite(lt(add(i, k), N), self(add(i, k)), NAN))

    def _roll(self, how, p, minp=None, ddof=0):
        p = I(p) if isinstance(p, int) else p
        minp = p if minp is None else (I(minp) if isinstance(minp, int) else minp)
        return Ser(P.roll_col(Rolling(SSeries(DATES, Buf(self.col)), p, minp), how, ddof))

    def mean(self, p): return self._roll("mean", p)
    def sum(self, p): return self._roll("sum", p)
    def max(self, p, minp=None): return self._roll("max", p, minp)
    def min(self, p, minp=None): return self._roll("min", p, minp)
    def std(self, p): return self._roll("std", p, ddof=0)

    def weighted_mean(self, p, window):
        """mean over the last p rows weighted by the named window function"""
        return Ser(P.weighted_col(self.col, I(0), p, p, window))

    def ewm(self, alpha, minp=1):
        """e = first value at the first present row, then
        e + alpha*(value - e); shown once minp values are present"""
        minp = I(minp) if isinstance(minp, int) else minp
        return Ser(P.ewm_col(Ewm(SSeries(DATES, Buf(self.col)), alpha, minp)))

    def ema(self, p, minp=None):
        p = I(p) if isinstance(p, int) else p
        return self.ewm(div(R(2), toreal(add(p, I(1)))), p if minp is None else minp)

    def cumsum(self):
        """running total of the present values, missing where the value is"""
        def f(i):
            c = self(i)
            return Num(c.nan, Z, win_sum(self.col.get, I(0), add(i, I(1))))
        return Ser(f)

    def lt(self, o): return lambda i: n_lt(self(i), cell(o) if not isinstance(o, Ser) else o(i))
    def gt(self, o): return lambda i: n_gt(self(i), cell(o) if not isinstance(o, Ser) else o(i))


def IN(c):
    return Ser(lambda i: fin(rd("in_" + c, i)))


def ROW():
    """row number 0, 1, 2 ..."""
    return Ser(lambda i: fin(toreal(i)))


def where(cond, a, b):
    """a where cond(row) holds, b elsewhere (numbers or series)"""
    g = lambda x, i: x(i) if isinstance(x, Ser) else cell(x)
    return Ser(lambda i: n_ite(cond(i), g(a, i), g(b, i)))


def largest(*ss):
    """row-wise maximum of the present values"""
    def f(i):
        r = ss[0](i)
        for s in ss[1:]:
            r = P_max(r, s(i))
        return r
    return Ser(f)


def smallest(*ss):
    return -largest(*[-s for s in ss])


def P_max(a, b):
    v = n_ite(n_lt(a, b), b, a)
    return n_ite(a.nan, b, n_ite(b.nan, a, v))


def mean_of(s, lo, hi):
    """average of the present values of rows lo..hi-1 (a cell)"""
    lo, hi = [I(x) if isinstance(x, int) else x for x in (lo, hi)]
    c = win_cnt(s.col.get, lo, hi)
    return n_div(fin(win_sum(s.col.get, lo, hi)), fin(toreal(c)))


def sum_of(s, lo, hi):
    lo, hi = [I(x) if isinstance(x, int) else x for x in (lo, hi)]
    return fin(win_sum(s.col.get, lo, hi))


def recur(base, first, step):
    """row base equals `first` (a cell), every later row i equals step(i, row
    i-1); rows before base are missing"""
    base = I(base) if isinstance(base, int) else base
    v = fresh("j")
    # three components: missing flag, infinity flag, value
    prev = Num(self_(0, sub(v, I(1)), "B"), self_(1, sub(v, I(1)), "I"), self_(2, sub(v, I(1)), "R"))
    if first.nan is FALSE and first.inf is Z:
        pr = fin(self_(0, sub(v, I(1)), "R"))
        nx = step(v, pr)
        if nx.nan is FALSE and nx.inf is Z:
            s = mk_sys(v, (ite(le(v, base), first.val, nx.val),))
            return Ser(lambda i: Num(lt(i, base), Z, rec(s, 0, i)))
    nx = step(v, prev)
    s = mk_sys(v, tuple(ite(le(v, base), a, b) for a, b in zip(first.comps(), nx.comps())))
    return Ser(lambda i: n_ite(lt(i, base), NAN, Num(rec(s, 0, i), rec(s, 1, i), rec(s, 2, i))))


def recur_sys(first, step, sorts):
    """several quantities defined together from row 0: first = tuple of terms,
    step(i, prev) -> tuple, prev[c] the term of quantity c at row i-1"""
    v = fresh("j")
    prev = [self_(c, sub(v, I(1)), s) for c, s in enumerate(sorts)]
    nx = step(v, prev)
    s = mk_sys(v, tuple(ite(le(v, I(0)), a, b) for a, b in zip(first, nx)))
    return lambda c: (lambda i: rec(s, c, i))


def line_slope(y, p):
    """least-squares slope over the last p rows (row numbers as abscissa)"""
    x = ROW()
    pr = toreal(p)
    sx, sy, sxy, sxx = x.sum(p), y.sum(p), (x * y).sum(p), (x * x).sum(p)
    return (pr * sxy - sx * sy) / (pr * sxx - sx * sx)


def line_end(y, p):
    """least-squares line over the last p rows, at the last of them"""
    x = ROW()
    b = line_slope(y, p)
    return (y.sum(p) - b * x.sum(p)) / toreal(p) + b * x


# ------------------------------------------------------------------ parameters
class Par:
    """integer parameter with a documented minimum"""

    def __init__(self, name, lo=1, default=None, hi=None, allowed=None):
        self.name, self.lo, self.default, self.hi, self.allowed = name, lo, default, hi, allowed
        self.kind = "int"

    def term(self):
        return param(self.name, "I")


class RPar(Par):
    """real parameter, lo < value < hi (ends excluded unless closed)"""

    def __init__(self, name, lo=None, hi=None, default=None, closed=False, ints=False, samples=()):
        Par.__init__(self, name, lo, default, hi)
        self.kind, self.closed, self.ints, self.samples = "real", closed, ints, samples

    def term(self):
        return param(self.name, "R")


class Spec:
    def __init__(self, cls, variant, family, columns, params, fixed, values, signal, sfamily, min_rows, digits, pre, length, hidden, skip):
        self.cls, self.variant, self.family = cls, variant, family
        self.columns, self.params, self.fixed = columns, params, fixed
        self.values, self.signal, self.sfamily = values, signal, sfamily
        self.min_rows, self.digits, self.pre, self.length, self.hidden = min_rows, digits, pre, length, hidden
        self.skip = skip

    @property
    def name(self):
        return self.cls + (("[" + self.variant + "]") if self.variant else "")

    def penv(self):
        """parameter name -> term"""
        d = {p.name: p.term() for p in self.params}
        d.update(self.fixed)
        return d


SPECS = []


def spec(cls, columns, params=(), family=None, sfamily=None, min_rows=None, variant=None, fixed=None,
         digits=4, pre=None, length=None, hidden=(), signal=None, skip=None):
    def deco(f):
        SPECS.append(Spec(cls, variant, family, columns.split(), list(params), dict(fixed or {}), f, signal, sfamily,
                          min_rows, digits, pre, length, hidden, skip))
        return f
    return deco


class SigCtx:
    """what a signal rule may look at: the indicator and input as they are now,
    of which only the first m rows exist"""

    def __init__(self, m, ti, inp):
        self.m, self._ti, self._inp = m, ti, inp

    def ti(self, label, back):
        """indicator cell `back` rows from the end (1 = last)"""
        return self._ti(label, sub(self.m, I(back)))

    def ser(self, label):
        return Ser(lambda i: self._ti(label, i))

    def x(self, col, back):
        return self._inp(col, sub(self.m, I(back)))

    def inp(self, col):
        return Ser(lambda i: self._inp(col, i))


def GT(a, b): return n_gt(cell(a), cell(b))
def LT(a, b): return n_lt(cell(a), cell(b))
def GE(a, b): return n_ge(cell(a), cell(b))
def LE(a, b): return n_le(cell(a), cell(b))


def up_through(s, label, level):
    """previous row below the level and last row above it"""
    return and_(LT(s.ti(label, 2), level), GT(s.ti(label, 1), level))


def down_through(s, label, level):
    return and_(GT(s.ti(label, 2), level), LT(s.ti(label, 1), level))


def rising3(s, label):
    return and_(LT(s.ti(label, 3), s.ti(label, 2)), LT(s.ti(label, 2), s.ti(label, 1)))


def falling3(s, label):
    return and_(GT(s.ti(label, 3), s.ti(label, 2)), GT(s.ti(label, 2), s.ti(label, 1)))


def need(m, k, rules):
    """hold with fewer than k rows"""
    k = I(k) if isinstance(k, int) else k
    return [(and_(le(k, m), c), r) for c, r in rules]
