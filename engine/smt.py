"""Lowering of terms to z3 and the entailment / equality prover."""
import time
import z3
from .terms import *
from .terms import _pos_arrays

SCALE = 1
STATS = {"z3_calls": 0, "z3_time": 0.0, "unknown": 0}

_lower_cache = {}
_ufs = {}


def UF(name, *sorts):
    f = _ufs.get((name,) + tuple(str(s) for s in sorts))
    if f is None:
        f = z3.Function(name, *sorts)
        _ufs[(name,) + tuple(str(s) for s in sorts)] = f
    return f


Zs = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}


class Lowerer:
    """opaque=True: products of two or more atoms are uninterpreted (linear
    arithmetic); opaque=False: real products (non-linear)."""

    def __init__(self, opaque=True):
        self.opaque = opaque
        self.cache = {}
        self.facts = {}      # term id -> list of z3 facts about that atom

    def low(self, t):
        r = self.cache.get(t.id)
        if r is None:
            r = self._low(t)
            self.cache[t.id] = r
        return r

    def fact(self, t, *fs):
        self.facts.setdefault(t.id, []).extend(fs)

    def num(self, c, sort):
        if sort == "I":
            return z3.IntVal(int(c))
        return z3.RealVal("%d/%d" % (c.numerator, c.denominator))

    def mono(self, m, sort):
        # distribute products over ite so that the rest stays linear
        atoms = []
        for a, e in m:
            atoms += [a] * e
        return self._prod(atoms, sort)

    def _prod(self, atoms, sort):
        if len(atoms) == 1:
            return self.low(atoms[0])
        for k, a in enumerate(atoms):
            if a.op == "ite":
                rest = atoms[:k] + atoms[k + 1:]
                ra = self._termprod(a.args[1], rest, sort)
                rb = self._termprod(a.args[2], rest, sort)
                return z3.If(self.low(a.args[0]), ra, rb)
        if self.opaque:
            key = sorted(atoms, key=lambda a: (a.op, _head(a), a.id))
            xs = [self.low(a) for a in key]
            f = UF("mul%d%s" % (len(xs), sort), *([Zs[sort]] * (len(xs) + 1)))
            return f(*xs)
        r = self.low(atoms[0])
        for a in atoms[1:]:
            r = r * self.low(a)
        return r

    def _termprod(self, t, rest, sort):
        p = t
        for a in rest:
            p = mul(p, a)
        return self.low(p)

    def _low(self, t):
        op, a = t.op, t.args
        low = self.low
        if op == "const":
            return self.num(a[0], t.sort)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("param", "var"):
            return z3.Const(("p_" if op == "param" else "v_") + a[0], Zs[t.sort])
        if op == "poly":
            parts = []
            for m, c in a:
                if m == ():
                    parts.append(self.num(c, t.sort))
                else:
                    x = self.mono(m, t.sort)
                    parts.append(x if c == 1 else self.num(c, t.sort) * x)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "toreal":
            return z3.ToReal(low(a[0]))
        if op == "not":
            return z3.Not(low(a[0]))
        if op == "and":
            return z3.And([low(x) for x in a])
        if op == "or":
            return z3.Or([low(x) for x in a])
        if op == "lt0":
            return low(a[0]) < 0
        if op in ("eq0", "ieq0"):
            return low(a[0]) == 0
        if op == "ile0":
            return low(a[0]) <= 0
        if op == "ite":
            return z3.If(low(a[0]), low(a[1]), low(a[2]))
        if op == "inv":
            x = low(a[0])
            r = UF("inv", Zs["R"], Zs["R"])(x)
            self.fact(t, z3.Implies(x == 0, r == 0), z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0))
            if not self.opaque:
                self.fact(t, z3.Implies(x != 0, x * r == 1))
            return r
        if op == "rd":
            r = UF("rd_" + a[0], Zs["I"], Zs["R"])(low(a[1]))
            if a[0] in _pos_arrays:
                self.fact(t, r > 0)
            elif a[0] in _nonneg_arrays:
                self.fact(t, r >= 0)
            for f in _array_facts:
                self.fact(t, *f(self, a[0], a[1]))
            return r
        if op == "rdn":
            return UF("rdn_" + a[0], Zs["I"], Zs["B"])(low(a[1]))
        if op == "rdi":
            r = UF("rdi_" + a[0], Zs["I"], Zs["I"])(low(a[1]))
            self.fact(t, r >= -1, r <= 1)
            return r
        if op == "rnd":
            x = low(a[1])
            r = UF("rnd%d" % a[0], Zs["R"], Zs["R"])(x)
            h = z3.RealVal("1/%d" % (2 * 10 ** a[0]))
            self.fact(t, r - x <= h, x - r <= h)
            return r
        if op == "sqrt":
            x = low(a[0])
            r = UF("sqrt", Zs["R"], Zs["R"])(x)
            self.fact(t, r >= 0)
            if not self.opaque:
                self.fact(t, z3.Implies(x >= 0, r * r == x))
            return r
        if op == "trunc":
            x = low(a[0])
            r = UF("trunc", Zs["R"], Zs["R"])(x)
            self.fact(t, z3.Implies(x >= 0, z3.And(r <= x, r > x - 1)), z3.Implies(x <= 0, z3.And(r >= x, r < x + 1)), z3.IsInt(r))
            return r
        if op == "itrunc":
            x = low(a[0])
            r = UF("itrunc", Zs["R"], Zs["I"])(x)
            self.fact(t, z3.Implies(x >= 0, z3.And(z3.ToReal(r) <= x, z3.ToReal(r) > x - 1)), z3.Implies(x <= 0, z3.And(z3.ToReal(r) >= x, z3.ToReal(r) < x + 1)))
            return r
        if op == "idiv":
            return low(a[0]) / z3.IntVal(a[1])
        if op == "uf":
            xs = [low(x) for x in a[1:]]
            return UF("uf_" + a[0], *([x.sort() for x in xs] + [Zs[t.sort]]))(*xs)
        if op == "fold":
            kind, extra, bodies, lo, hi = a
            f = UF(fold_name(t), Zs["I"], Zs["I"], Zs[t.sort])
            l, h = low(lo), low(hi)
            r = f(l, h)
            if kind == "isum":
                self.fact(t, z3.Implies(h <= l, r == 0))
                b = bodies[0]
                if b.op == "ite" and b.args[1].op == "const" and b.args[2].op == "const" \
                        and {int(b.args[1].args[0]), int(b.args[2].args[0])} == {0, 1}:
                    self.fact(t, r >= 0, z3.Implies(h > l, r <= h - l))
            if kind == "sum":
                self.fact(t, z3.Implies(h <= l, r == 0))
            if kind in ("first", "last"):
                pass
            return r
        if op == "rec":
            s, c, idx = a
            return UF("rec%d_%d" % (s.id, c), Zs["I"], Zs[t.sort])(low(idx))
        if op == "self":
            return UF("self_%d" % a[0], Zs["I"], Zs[t.sort])(low(a[1]))
        raise NotImplementedError(op)


def fold_name(t):
    kind, extra, bodies, lo, hi = t.args
    return "fold_%s_%s_%s" % (kind, "_".join(str(x.id if isinstance(x, T) else x) for x in extra), "_".join(str(b.id) for b in bodies))


def _head(a):
    if a.op == "fold":
        return fold_name(a)
    if a.op in ("rd",):
        return a.args[0]
    if a.op == "rec":
        return "r%d_%d" % (a.args[0].id, a.args[1])
    if a.op in ("toreal", "inv", "sqrt", "rnd"):
        return ""
    if a.op in ("param", "var"):
        return a.args[0]
    return ""


_nonneg_arrays = set()
_array_facts = []


def declared():
    """integer symbols with a declared lower bound"""
    from . import terms
    return [(terms._lb_terms[i], k) for i, k in terms._lb.items()]


def reset_decls():
    from . import terms
    terms._pos_arrays.clear()
    terms._nonzero_atoms.clear()
    terms._lb.clear()
    terms._pos_atoms.clear()
    _nonneg_arrays.clear()
    _array_facts.clear()


OPAQUE = Lowerer(True)
REALNL = Lowerer(False)


def atoms_facts(L, ts):
    out = []
    seen = {}
    for t in ts:
        todo = [t]
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen[x.id] = x
            f = L.facts.get(x.id)
            if f:
                out += f
            if x.op in ("fold", "rec"):
                todo += [y for y in (x.args[-1],) if isinstance(y, T)]
                if x.op == "fold":
                    todo.append(x.args[3])
                continue
            todo += children(x)
    return out


def check(ts, nonlinear=False, timeout=4000, extra=(), want_model=False):
    """satisfiability of the conjunction of terms ts: 'unsat' | 'sat' | 'unknown'"""
    L = REALNL if nonlinear else OPAQUE
    s = z3.Solver()
    s.set("timeout", timeout * SCALE)
    zs = [L.low(t) for t in ts]
    zs += [L.low(t) for t in extra]
    for z in zs:
        s.add(z)
    for f in atoms_facts(L, list(ts) + list(extra)):
        s.add(f)
    for t, k in declared():
        s.add(L.low(t) >= k)
    t0 = time.time()
    r = str(s.check())
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == "unknown":
        STATS["unknown"] += 1
    if want_model:
        return r, (s.model() if r == "sat" else None)
    return r


_ent = {}


def entails(pc, goal, nonlinear=False, timeout=2000):
    """pc: iterable of terms"""
    if goal is TRUE:
        return True
    if goal is FALSE:
        return _sat_false(pc, timeout)
    key = (frozenset(t.id for t in pc), goal.id, nonlinear)
    r = _ent.get(key)
    if r is None:
        if any(t is goal for t in pc):
            r = True
        else:
            r = check(list(pc) + [not_(goal)], nonlinear, timeout) == "unsat"
        _ent[key] = r
    return r


def _sat_false(pc, timeout):
    key = (frozenset(t.id for t in pc), "false")
    r = _ent.get(key)
    if r is None:
        r = check(list(pc), False, timeout) == "unsat"
        _ent[key] = r
    return r
