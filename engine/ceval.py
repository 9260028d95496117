"""Exact evaluation of terms on concrete inputs (rational arithmetic).

Every operator of the term language is evaluated by its definition; this is the
executable reading of the specifications and of the symbolic results.  A
comparison whose outcome machine arithmetic could flip (a near tie of values
that are not exactly representable) raises Unstable: such a case decides
nothing."""
import math
from fractions import Fraction
from .terms import *


class Unstable(Exception):
    pass


F0 = Fraction(0)
_fvs = {}
EPS = Fraction(1, 10 ** 8)


def dyadic(x):
    d = x.denominator
    return d & (d - 1) == 0 and d <= (1 << 30)


def round_half_even(x, k):
    return round(x, k)


class Ev:
    """arrays: name -> list of Fractions (rd), ('nan', name) -> list of bools,
    ('inf', name) -> list of ints; params: name -> int / Fraction / bool;
    ufs: name -> callable"""

    def __init__(self, params, arrays, nan=None, inf=None, ufs=None, strict=True):
        self.params, self.arrays = params, arrays
        self.nan, self.inf = nan or {}, inf or {}
        self.ufs = ufs or {}
        self.memo = {}
        self.strict = strict
        self.incmp = 0
        self.tight = False          # near ties of rounding decide nothing
        self.taint = False          # the value being computed is inexact in binary
        self.sysmemo = {}

    # env: dict var term -> value
    def ev(self, t, env=None):
        return self._ev(t, env if env is not None else {})

    def _key(self, t, env):
        hs = has_self(t)
        if not t.fv and not hs:
            return t.id
        fv = _fvs.get(t.id)
        if fv is None:
            fv = _fvs[t.id] = sorted(t.fv, key=lambda v: v.id)
        return (t.id,) + tuple([env.get(v) for v in fv]) + ((env["sys"],) if hs else ())

    def _ev(self, t, env):
        op = t.op
        if op == "const":
            return t.args[0] if t.sort == "R" else int(t.args[0])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "param":
            if t.sort == "I" and t.args[0] not in self.params and hasattr(self.params, "integer"):
                return self.params.integer(t)
            return self.params[t.args[0]]
        if op == "var":
            try:
                return env[t]
            except KeyError:
                return self.params[t.args[0]]
        # memoisation is wrong for terms under an open recurrence only if the
        # recurrence state differs: the state is part of the key
        k = self._key(t, env)
        m = self.memo
        r = m.get(k)
        if r is not None:
            if r[0] is Unstable:
                raise Unstable()
            if r[1]:
                self.taint = True
            return r[0]
        old, self.taint = self.taint, False
        try:
            r = self._go(t, op, t.args, env)
        except Unstable:
            m[k] = (Unstable, False)
            self.taint = old
            raise
        if t.sort != "R":
            self.taint = False
        elif op == "rnd":
            self.taint = not dyadic(r)
        elif op == "inv" and not dyadic(r):
            self.taint = True
        elif op in ("sqrt", "uf") or op == "fold" and t.args[0] == "ewm":
            self.taint = True
        m[k] = (r, self.taint)
        self.taint = self.taint or old
        return r

    def _poly(self, t, env, parts=None):
        s = F0 if t.sort == "R" else 0
        for mn, c in t.args:
            p = c if t.sort == "R" else int(c)
            if t.sort == "R" and not dyadic(c):
                self.taint = True
            for a, e in mn:
                p = p * self._ev(a, env) ** e
                if p == 0:
                    break
            if parts is not None:
                parts.append(p)
            s = s + p
        return s

    def _near(self, p, env):
        """value of p, checked for a near tie machine arithmetic could flip"""
        self.incmp += 1
        old, self.taint = self.taint, False
        try:
            if p.op != "poly":
                x = self._ev(p, env)
                if self.strict and self.taint and abs(x) < EPS and p.op != "rnd":
                    raise Unstable()
                return x
            parts = []
            x = self._poly(p, env, parts)
            if self.strict and self.taint and abs(x) < EPS * max([abs(q) for q in parts] + [Fraction(1, 10 ** 6)]):
                if len(p.args) == 2:
                    (m1, c1), (m2, c2) = p.args
                    if all(len(m) == 0 or len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("rnd", "rd", "param") for m in (m1, m2)) \
                            and (c1 == -c2 or m1 == () or m2 == ()):
                        return x
                raise Unstable()
            return x
        finally:
            self.incmp -= 1
            self.taint = old

    def _go(self, t, op, a, env):
        ev = self._ev
        if op == "poly":
            return self._poly(t, env)
        if op == "toreal":
            return Fraction(ev(a[0], env))
        if op == "not":
            return not ev(a[0], env)
        if op == "and":
            bad = None
            for x in a:
                try:
                    if not ev(x, env):
                        return False
                except Unstable as e:
                    bad = e
            if bad:
                raise bad
            return True
        if op == "or":
            bad = None
            for x in a:
                try:
                    if ev(x, env):
                        return True
                except Unstable as e:
                    bad = e
            if bad:
                raise bad
            return False
        if op == "lt0":
            return self._near(a[0], env) < 0
        if op == "eq0":
            return self._near(a[0], env) == 0
        if op == "ieq0":
            return ev(a[0], env) == 0
        if op == "ile0":
            return ev(a[0], env) <= 0
        if op == "ite":
            try:
                c = ev(a[0], env)
            except Unstable:
                x, y = ev(a[1], env), ev(a[2], env)
                if x == y:
                    return x
                if t.sort == "R" and not self.incmp and abs(x - y) < EPS * max(1, abs(x)):
                    return x
                raise
            return ev(a[1], env) if c else ev(a[2], env)
        if op == "inv":
            self._near(a[0], env)
            x = ev(a[0], env)
            return 1 / x if x != 0 else F0
        if op in ("rd", "rdn", "rdi"):
            i = ev(a[1], env)
            arr = {"rd": self.arrays, "rdn": self.nan, "rdi": self.inf}[op].get(a[0])
            dflt = {"rd": F0, "rdn": False, "rdi": 0}[op]
            if arr is None or i < 0 or i >= len(arr):
                return dflt
            return arr[i]
        if op == "rnd":
            x = ev(a[1], env)
            y = x * 10 ** a[0]
            if self.strict and (self.incmp or self.tight) and (self.taint or not dyadic(x)):
                f = abs(y - math.floor(y) - Fraction(1, 2))
                if f < max(Fraction(1, 10 ** 5), abs(y) / 10 ** 11):
                    raise Unstable()
            return round_half_even(x, a[0])
        if op == "sqrt":
            x = ev(a[0], env)
            if x <= 0:
                return F0
            p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if p * p == x.numerator and q * q == x.denominator:
                return Fraction(p, q)
            sc = 10 ** 40
            return Fraction(math.isqrt(int(x * sc * sc)), sc)
        if op == "trunc":
            return Fraction(int(self._near_int(a[0], env)))
        if op == "itrunc":
            return int(self._near_int(a[0], env))
        if op == "idiv":
            return ev(a[0], env) // a[1]
        if op == "uf":
            f = self.ufs.get(a[0])
            if f is None:
                raise KeyError("uninterpreted " + a[0])
            r = f(*[ev(x, env) for x in a[1:]])
            if t.sort == "B" and not isinstance(r, bool):
                return Fraction(r).numerator % 2 == 1
            return int(r) if t.sort == "I" else r
        if op == "fold":
            return self._fold(t, a, env)
        if op == "rec":
            return self._rec(t, a, env)
        if op == "self":
            s = env["sys"]
            i = ev(a[1], env)
            return self._rec_at(s[0], s[1], a[0], i)
        raise NotImplementedError(op)

    def _near_int(self, t, env):
        old, self.taint = self.taint, False
        x = self._ev(t, env)
        bad, self.taint = self.taint, old
        if self.strict and bad and abs(x - round(x)) < EPS * max(1, abs(x)):
            raise Unstable()
        return x

    def _fold(self, t, a, env):
        kind, extra, bodies, lo, hi = a
        lo, hi = self._ev(lo, env), self._ev(hi, env)
        v = bvar(t.h)
        b0 = bodies[0]
        R = range(lo, hi)
        e = dict(env)

        def at(b, j):
            e[v] = j
            return self._ev(b, e)
        if kind in ("sum", "isum"):
            s = F0 if kind == "sum" else 0
            for j in R:
                s += at(b0, j)
            return s
        if kind in ("max", "min"):
            xs = [at(b0, j) for j in R]
            if not xs:
                return F0
            return max(xs) if kind == "max" else min(xs)
        if kind in ("pmax", "pmin"):
            xs = [at(bodies[1], j) for j in R if at(b0, j)]
            if not xs:
                return F0
            return max(xs) if kind == "pmax" else min(xs)
        if kind == "any":
            bad = None
            for j in R:
                try:
                    if at(b0, j):
                        return True
                except Unstable as x:
                    bad = x
            if bad:
                raise bad
            return False
        if kind == "all":
            bad = None
            for j in R:
                try:
                    if not at(b0, j):
                        return False
                except Unstable as x:
                    bad = x
            if bad:
                raise bad
            return True
        if kind == "first":
            for j in R:
                if at(b0, j):
                    return j
            return lo
        if kind == "last":
            for j in reversed(R):
                if at(b0, j):
                    return j
            return lo
        if kind in ("argmax", "argmin"):
            best = None
            for j in R:
                x = at(b0, j)
                if best is None or (x > best[0] if kind == "argmax" else x < best[0]):
                    best = (x, j)
            return (best[1] - lo) if best else 0
        if kind == "ewm":
            # pandas ewm(adjust=False, ignore_na=False).mean()
            al = self._ev(extra[0], env)
            old_wt = Fraction(1)
            w = None
            for j in R:
                ok = at(b0, j)
                if w is not None:
                    old_wt *= (1 - al)
                    if ok:
                        x = at(bodies[1], j)
                        w = (old_wt * w + al * x) / (old_wt + al)
                        old_wt = Fraction(1)
                elif ok:
                    w = at(bodies[1], j)
            return w if w is not None else F0
        raise NotImplementedError(kind)

    def _rec(self, t, a, env):
        s, c, idx = a
        i = self._ev(idx, env)
        return self._rec_at(s, {v: x for v, x in env.items() if v in s.fv or v == "sys"} if s.fv else {}, c, i)

    def _rec_at(self, s, env, c, i):
        key = (s.id,) + tuple(sorted(((v.id, x) for v, x in env.items() if v != "sys")))
        tab = self.sysmemo.get(key)
        if tab is None:
            tab = self.sysmemo[key] = {}
        r = tab.get((c, i))
        if r is not None:
            if r[0] is Unstable:
                raise Unstable()
            if r[1]:
                self.taint = True
            return r[0]
        sort = s.args[c].sort
        if i < 0:
            return {"R": F0, "I": 0, "B": False}[sort]
        v = bvar(s.h)
        # fill every component upwards so that the recursion stays shallow
        start = i
        while start > 0 and (c, start - 1) not in tab:
            start -= 1
        for j in range(start, i):
            try:
                self._comp(s, env, c, j, tab, v)
            except Unstable:
                pass
        return self._comp(s, env, c, i, tab, v)

    def _comp(self, s, env, c, j, tab, v):
        if (c, j) in tab:
            r = tab[(c, j)]
            if r[0] is Unstable:
                raise Unstable()
            if r[1]:
                self.taint = True
            return r[0]
        e = dict(env)
        e[v] = j
        e["sys"] = _SysRef(s, env)
        old, self.taint = self.taint, False
        try:
            r = self._ev(s.args[c], e)
        except Unstable:
            tab[(c, j)] = (Unstable, False)
            self.taint = old
            raise
        tab[(c, j)] = (r, self.taint)
        self.taint = self.taint or old
        return r


class _SysRef(tuple):
    def __new__(cls, s, env):
        return tuple.__new__(cls, (s, env))

    def __hash__(self):
        return hash((self[0].id, tuple(sorted((v.id, x) for v, x in self[1].items() if v != "sys"))))

    def __eq__(self, o):
        return isinstance(o, _SysRef) and self[0] is o[0] and {k: v for k, v in self[1].items() if k != "sys"} == {k: v for k, v in o[1].items() if k != "sys"}


def ev_num(E, c, env=None):
    """a Num cell as a Python value: None (missing), '+inf', '-inf' or Fraction"""
    if E.ev(c.nan, env):
        return None
    s = E.ev(c.inf, env)
    if s > 0:
        return "+inf"
    if s < 0:
        return "-inf"
    return E.ev(c.val, env)
