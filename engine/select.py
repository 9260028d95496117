"""Quantified prover for selections (any / all / first / last over row ranges):
every such fold becomes its defining first-order property, z3 does the rest.
Used for cells that are chosen among other cells (filling of missing values),
where nothing is computed."""
import z3
from .terms import *
from .values import Unsupported
from .smt import Zs, UF, STATS
import time


class Sel:
    def __init__(self):
        self.ax = []
        self.n = 0
        self.memo = {}

    def low(self, t, env):
        op, a = t.op, t.args
        if op == "const":
            return z3.IntVal(int(a[0])) if t.sort == "I" else z3.RealVal("%d/%d" % (a[0].numerator, a[0].denominator))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "var" and t in env:
            return env[t]
        if op in ("param", "var"):
            return z3.Const(("p_" if op == "param" else "v_") + a[0], Zs[t.sort])
        if op == "poly":
            xs = []
            for m, c in a:
                x = self.low_num(c, t.sort)
                for b, e in m:
                    for _ in range(e):
                        x = x * self.low(b, env)
                xs.append(x)
            return z3.Sum(xs)
        if op == "not":
            return z3.Not(self.low(a[0], env))
        if op == "and":
            return z3.And([self.low(x, env) for x in a])
        if op == "or":
            return z3.Or([self.low(x, env) for x in a])
        if op == "lt0":
            return self.low(a[0], env) < 0
        if op in ("eq0", "ieq0"):
            return self.low(a[0], env) == 0
        if op == "ile0":
            return self.low(a[0], env) <= 0
        if op == "ite":
            return z3.If(self.low(a[0], env), self.low(a[1], env), self.low(a[2], env))
        if op in ("rd", "rdn", "rdi"):
            return UF(op + "_" + a[0], z3.IntSort(), Zs[t.sort])(self.low(a[1], env))
        if op == "uf":
            xs = [self.low(x, env) for x in a[1:]]
            return UF("uf_" + a[0], *([x.sort() for x in xs] + [Zs[t.sort]]))(*xs)
        if op == "fold":
            return self.fold(t, env)
        raise Unsupported("selection prover: " + op)

    def low_num(self, c, s):
        return z3.IntVal(int(c)) if s == "I" else z3.RealVal("%d/%d" % (c.numerator, c.denominator))

    def fold(self, t, env):
        kind, par, body, lo, hi = t.args
        v = bvar(t.h)
        if kind not in ("any", "all", "first", "last"):
            raise Unsupported("selection prover: fold " + kind)
        lo_, hi_ = self.low(lo, env), self.low(hi, env)
        self.n += 1
        j = z3.Int("j!%d" % self.n)

        def b(x):
            return self.low(body[0], {**env, v: x})
        if kind == "any":
            return z3.Exists([j], z3.And(lo_ <= j, j < hi_, b(j)))
        if kind == "all":
            return z3.ForAll([j], z3.Implies(z3.And(lo_ <= j, j < hi_), b(j)))
        # a choice function of the bound variables in scope
        fvs = sorted([x for x in env if x in t.fv], key=lambda x: x.id)
        key = t.id
        if key not in self.memo:
            F = z3.Function("%s!%d" % (kind, self.n), *([z3.IntSort()] * (len(fvs) + 1)))
            self.memo[key] = F
            qs = [z3.Int("q!%d_%d" % (self.n, i)) for i in range(len(fvs))]
            e2 = dict(zip(fvs, qs))
            lo2, hi2 = self.low(lo, e2), self.low(hi, e2)
            f = F(*qs) if qs else F()
            j2 = z3.Int("i!%d" % self.n)

            def b2(x):
                return self.low(body[0], {**e2, v: x})
            side = z3.And(lo2 <= j2, j2 < (f if kind == "first" else hi2)) if kind == "first" else z3.And(f < j2, j2 < hi2)
            some = z3.Exists([j], z3.And(lo2 <= j, j < hi2, b2(j)))
            ax = z3.Implies(some, z3.And(lo2 <= f, f < hi2, b2(f), z3.ForAll([j2], z3.Implies(side, z3.Not(b2(j2))))))
            self.ax.append(z3.ForAll(qs, ax) if qs else ax)
        F = self.memo[key]
        xs = [env[x] for x in fvs]
        return F(*xs) if xs else F()


def same_cell(pc, a, b, ms=8000, perms=()):
    """'proved' | 'failed' | 'bounded' that the two cells agree under pc"""
    s = Sel()
    z = z3.Solver()
    z.set("timeout", ms)
    for c in pc:
        z.add(s.low(c, {}))
    na, nb = s.low(a.nan, {}), s.low(b.nan, {})
    eq_ = z3.And(s.low(a.inf, {}) == s.low(b.inf, {}), s.low(a.val, {}) == s.low(b.val, {}))
    z.add(z3.Not(z3.And(na == nb, z3.Implies(z3.Not(na), eq_))))
    for x in s.ax:
        z.add(x)
    if any("sorted_" in str(c) for c in pc):
        for p in perms:
            i = z3.Int("i!perm")
            z.add(z3.Implies(UF("uf_sorted_" + p, z3.IntSort(), z3.BoolSort())(z3.IntVal(0)),
                             z3.ForAll([i], UF("uf_perm_" + p, z3.IntSort(), z3.IntSort())(i) == i)))
    t0 = time.time()
    r = z.check()
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return "proved", ""
    if r == z3.sat:
        return "failed", "z3 model: %s" % str(z.model())[:600]
    STATS["unknown"] += 1
    return "bounded", "solver gave up"
