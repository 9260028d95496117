"""Order lemmas: non-negativity of terms over every row, window and input.

`Ranger.nonneg(cx, hy, t)` proves t >= 0 from the integer facts of the context
and the hypotheses, by case splits, clearing of denominators, monotonicity of
rounding, generic elements of sums, instances of extremes, telescoping and
induction over rows; what remains goes to z3."""
from .prover import *
from .prover import _ihn, _selfs, _lincoef
from . import smt

DEBUG = 0
DEEP = 1


def same_h(hy):
    return frozenset(h.id for h in hy)


def endpoints(t, memo=None):
    """for all / some row of a window, where the condition is a bound on the row
    number: the condition at the end of the window"""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ("const", "param", "var", "true", "false", "rec", "sys", "self"):
        r = t
    elif t.op == "fold" and t.args[0] in ("all", "any"):
        kind, extra, bodies, lo, hi = t.args
        b, v = bodies[0], bvar(t.h)
        r = t
        parts = b.args if b.op == ("and" if kind == "all" else "or") else (b,)
        if all(x.op == "ile0" and int_only(x) and _lincoef(x.args[0], v) in (1, -1) for x in parts):
            out = []
            for x in parts:
                up = _lincoef(x.args[0], v) == (1 if kind == "all" else -1)
                out.append(subst(x, {v: sub(hi, I(1)) if up else lo}))
            r = or_(le(hi, lo), and_(*out)) if kind == "all" else and_(lt(lo, hi), or_(*out))
    elif t.op == "fold":
        r = t
    else:
        r = rebuild(t, lambda x: endpoints(x, memo))
    memo[t.id] = r
    return r


class Ranger(Prover):
    def __init__(self, deadline=None, seed=1, digits=False):
        Prover.__init__(self, deadline, seed)
        self.nn = {}
        self.nd = 0
        self.digits = digits       # input prices have at most four decimals
        self.recinv = {}

    # ------------------------------------------------------------- top level
    def cell_range(self, pc, c, lo, hi, cond=TRUE):
        """every present cell is finite and within [lo, hi] (None: unbounded)"""
        failed = []

        def leaf(cx, hy, ts, out):
            e2 = [endpoints(x) for x in ts]
            if any(x is not y for x, y in zip(ts, e2)):
                self._split(cx, hy, e2, leaf, out, 4)
                return
            nan, inf, val, cd = ts
            if nan is TRUE or cd is FALSE:
                return
            h = hy + [x for x in (not_(nan), cd) if x is not TRUE]
            if inf is not Z and not self.holds(cx, h, eq(inf, Z)) and not self.holds(cx, hy + [x for x in (cd,) if x is not TRUE], or_(nan, eq(inf, Z))):
                out.append((cx, h, "infinite", inf, Z))
                return
            if inf is not Z:
                h = h + [eq(inf, Z)]
            if lo is not None and not self.nonneg(cx, h, sub(val, lo)):
                out.append((cx, h, "below the least value", val, lo))
            elif hi is not None and not self.nonneg(cx, h, sub(hi, val)):
                out.append((cx, h, "above the greatest value", val, hi))
        ints = [t for t in pc if int_only(t)]
        hyps = [t for t in pc if not int_only(t)]
        self._split(Ctx(ints), hyps, [endpoints(x) for x in (*c.comps(), cond)], leaf, failed, 0)
        return failed

    def cell_order(self, pc, a, b):
        """a >= b wherever both are present"""
        failed = []

        def leaf(cx, hy, ts, out):
            e2 = [endpoints(x) for x in ts]
            if any(x is not y for x, y in zip(ts, e2)):
                self._split(cx, hy, e2, leaf, out, 4)
                return
            an, ai, av, bn, bi, bv = ts
            if an is TRUE or bn is TRUE:
                return
            h = hy + [x for x in (not_(an), not_(bn)) if x is not TRUE]
            for x in (ai, bi):
                if x is not Z and not self.holds(cx, h, eq(x, Z)):
                    out.append((cx, h, "infinite", x, Z))
                    return
            if not self.nonneg(cx, h, sub(av, bv)):
                out.append((cx, h, "order", av, bv))
        ints = [t for t in pc if int_only(t)]
        hyps = [t for t in pc if not int_only(t)]
        self._split(Ctx(ints), hyps, [endpoints(x) for x in (*a.comps(), *b.comps())], leaf, failed, 0)
        return failed

    # -------------------------------------------------------------- booleans
    def holds(self, cx, hy, g, depth=0):
        self.tick()
        if g is TRUE:
            return True
        if g is not FALSE and smt.check(list(cx.lits) + hy + [not_(g)], False, 1000) == "unsat":
            return True
        if self.contradiction(cx, hy):
            return True
        if g.op == "and":
            return all(self.holds(cx, hy, x, depth + 1) for x in g.args)
        f = g.args[0] if g.op == "not" else g
        if f.op == "fold" and f.args[0] == ("any" if g.op == "not" else "all"):
            w = fresh("q")
            c2 = cx.ext(le(f.args[3], w), lt(w, f.args[4]))
            b = subst(f.args[2][0], {bvar(f.h): w})
            return c2.inconsistent() or self.holds_split(c2, self.instances(c2, hy, w), not_(b) if g.op == "not" else b)
        if self.induct_holds(cx, hy, g):
            return True
        cs = self.conds(g)
        if not cs or depth > 14:
            return False
        c = min(cs, key=lambda t: (len(subterms(t)), t.id))
        for h in (c, not_(c)):
            h2 = hy + [h]
            if self.infeasible(cx, h2):
                continue
            g2 = self.assume(g, {c: TRUE if h is c else FALSE}, {})
            if not self.holds(cx, h2, g2, depth + 1):
                return False
        return True

    def induct_holds(self, cx, hy, g):
        """a statement about recurrences at one row, by induction over rows"""
        rs, todo = [], [g]
        while todo:
            x = todo.pop()
            if x.op == "rec":
                if x not in rs:
                    rs.append(x)
            elif x.op != "fold":
                todo += children(x)
        if not rs or any(a.args[2] is not rs[0].args[2] for a in rs) or not any(a.sort != "R" for a in rs):
            return False
        i = rs[0].args[2]
        w = fresh("q")
        B = {a: subst(a.args[0].args[a.args[1]], {bvar(a.args[0].h): w}) for a in rs}
        for L in self.bases(cx, w, i, *B.values()):
            m = {a: simp(subst(B[a], {w: L}), cx) for a in rs}
            if any(has_self(x) for x in m.values()) or not self.holds_split(cx, hy, self.repl(g, m)):
                continue
            cs = cx.ext(lt(L, w), le(w, i))
            if cs.inconsistent():
                return True
            _ihn[0] += 1
            tag = "rh%d" % _ihn[0]
            name = lambda s, c: "%s_%d_%d" % (tag, s.id, c)
            bod = {a: simp(B[a], cs) for a in rs}
            prev = {s.args[1] for x in bod.values() for s in _selfs(x)}
            if not all(cs.entails(le(L, e)) and cs.entails(lt(e, w)) for e in prev):
                continue
            facts = [self.repl(g, {a: uf(name(a.args[0], a.args[1]), (e,), a.sort) for a in rs}) for e in prev]
            mb = {a: replace_self(x, lambda c, e, so, s0=a.args[0]: uf(name(s0, c), (e,), so), {}) for a, x in bod.items()}
            if self.holds_split(cs, hy + facts, self.repl(g, mb)):
                return True
        return False

    def holds_split(self, cx, hy, g):
        failed = []

        def leaf(c2, h2, ts, out):
            if not out and not self.holds(c2, h2, ts[0], 1):
                out.append(1)
        self._split(cx, hy, [g], leaf, failed, 6)
        return not failed

    def contradiction(self, cx, hy):
        zeros, strict = [], []
        for h in hy:
            if h.op == "lt0":
                strict.append((h.args[0], h))
            elif h.op == "eq0":
                zeros.append((h.args[0], h))
            elif h.op == "not" and h.args[0].op == "eq0":
                p = h.args[0].args[0]
                for g in hy:
                    if g.op == "not" and g.args[0].op == "lt0":
                        if g.args[0].args[0] is p:
                            strict.append((neg(p), h))
                        elif g.args[0].args[0] is neg(p):
                            strict.append((p, h))
        for p, h in strict:
            if self.nonneg(cx, self.light(hy, h), p):
                return True
        # p != 0 although of one sign
        for h in hy:
            if h.op == "not" and h.args[0].op == "eq0" and not any(g is h for q, g in strict):
                p = h.args[0].args[0]
                if any(x.op in ("fold", "rec") for x in subterms(p).values()):
                    lt_ = self.light(hy, h)
                    if self.nonneg(cx, lt_, p):
                        strict.append((neg(p), h))
                    elif self.nonneg(cx, lt_, neg(p)):
                        strict.append((p, h))
        zeros = [(self.strip(cx, hy, d), h) for d, h in zeros]
        if len(hy) < 7:
            for p, h in strict:
                rest = [x for x in hy if x is not h]
                if len(rest) > len(self.light(hy, h)) and any(x.op == "fold" for x in subterms(p).values()) and self.nonneg(cx, rest, p):
                    return True
        for d, h in zeros:
            rest = [x for x in hy if x is not h]
            c = aspoly(d).get((), 0)
            if c:
                q = d if c > 0 else neg(d)
                if self.nonneg(cx, rest, sub(q, R(abs(c)))):
                    return True
            # p < 0 although p + lam d >= 0
            for p, g in strict:
                r2 = self.light(rest, g)
                ls = {abs(x / y) for x in aspoly(p).values() for y in aspoly(d).values()}
                for lam in sorted(ls)[:4]:
                    for sg in (1, -1):
                        u = add(p, scale(sg * lam, d))
                        if self.nonneg(cx, r2, u):
                            return True
                        r3 = [x for x in rest if x is not g]
                        if len(hy) < 7 and len(r3) > len(r2) and any(x.op == "fold" for x in subterms(u).values()) and self.nonneg(cx, r3, u):
                            return True
        return False

    def strip(self, cx, hy, d):
        """d without a common factor that is not zero"""
        ms = [dict(m) for m in aspoly(d)]
        for a in list(ms[0]) if ms else ():
            if a.op == "inv" and all(m.get(a) == 1 for m in ms) and not any(x.op in ("fold", "rec", "rd") for x in subterms(a).values()) \
                    and smt.check(list(cx.lits) + [eq0(a.args[0])], False, 500) == "unsat":
                out = R(0)
                for m, c in aspoly(d).items():
                    out = add(out, mkpoly({tuple(x for x in m if x[0] is not a): c}, "R"))
                return out
        return d

    def light(self, hy, *without):
        """the hypotheses about parameters and single rows"""
        return [x for x in hy if x not in without and not any(y.op in ("fold", "rec") for y in subterms(x).values())]

    # --------------------------------------------------------- t >= 0
    def nonneg(self, cx, hy, t):
        t = simp(t, cx)
        if t.op == "const":
            return t.args[0] >= 0
        key = (cx.ids, same_h(hy), t.id)
        r = self.nn.get(key)
        if r is None:
            self.nn[key] = False
            self.nd += 1
            try:
                r = self.nd < 45 and self._nonneg(cx, hy, t)
            finally:
                self.nd -= 1
            if DEBUG and not r:
                print("  " * self.nd + "NOT", brief(t)[:DEBUG], "|", [brief(h)[:60] for h in hy][-3:])
            self.nn[key] = r
        return r

    def refuted(self, cx, hy, t):
        for E, env in self.points(cx):
            try:
                if all(E.ev(h, env) for h in hy) and E.ev(t, env) < -1e-9:
                    return True
            except (Unstable, KeyError, ZeroDivisionError, OverflowError, RecursionError, TypeError):
                continue
        return False

    def _nonneg(self, cx, hy, t):
        self.tick()
        self.stats["goals"] += 1
        if t.op == "uf" and str(t.args[0]).startswith("window_"):
            return True         # weights of a window function (assumed contract)
        neg_t = lt0(t)
        if neg_t is FALSE:
            return True
        if smt.check(list(cx.lits) + hy + [neg_t], False, 600) == "unsat":
            return True
        # integer cases
        conds, seen = [], set()
        for x in [t] + hy:
            int_conds(x, conds, seen)
        if conds:
            failed = []

            def leaf(c2, h2, ts, out):
                if not out and not self.nonneg(c2, h2, ts[0]):
                    out.append(1)
            self._split(cx, hy, [t], leaf, failed, 6)
            return not failed
        if self.refuted(cx, hy, t):
            return False
        # real cases
        cs = self.conds(t)
        if cs:
            if self.quick(cx, hy, t):
                return True
            for q in sorted({a for m in aspoly(t) for a, e in m if a.op == "inv"}, key=lambda a: -len(subterms(a))):
                if not self.conds(q) and self.nonneg(cx, hy, q.args[0]):
                    return self.denominator(cx, hy, t, q)
            if self.ncase > 12:
                return False
            c = self.choose(t, cs)
            self.ncase += 1
            try:
                for h in (c, not_(c)):
                    h2 = hy + [h]
                    if self.infeasible(cx, h2):
                        continue
                    t2 = self.assume(t, {c: TRUE if h is c else FALSE}, {})
                    if not self.nonneg(cx, h2, t2):
                        return False
                return True
            finally:
                self.ncase -= 1
        d = aspoly(t)
        # common factors of known sign
        g = self.factor(cx, hy, t)
        if g is not None:
            return self.nonneg(cx, hy, g)
        invs = sorted({a for m in d for a, e in m if a.op == "inv"}, key=lambda a: -len(subterms(a)))
        if len(invs) > 1 and self.ratios(cx, hy, t, invs):
            return True
        if invs:
            return self.denominator(cx, hy, t, invs[0])
        for rule in (self.rounding, self.powers, self.sums, self.averages, self.telescope, self.extremes, self.recurrence, self.terms_apart):
            if rule(cx, hy, t):
                return True
            self.tick()
        return self.arith(cx, hy, t)

    def choose(self, t, cs):
        """the condition to split on: of an outermost choice when it is simple,
        else the smallest"""
        top = [a.args[0] for m in aspoly(t) for a, e in m if a.op == "ite"]
        flat = [c for c in top if c.op in ("lt0", "eq0") and len(self.conds(c)) == 1]
        if not flat and DEEP:
            for c in top:
                for _ in range(6):
                    if c.op in ("not", "and", "or"):
                        c = c.args[0]
                    elif c.op in ("lt0", "eq0"):
                        if len(self.conds(c)) == 1:
                            flat.append(c)
                            break
                        q = [a for m in aspoly(c.args[0]) for a, e in m if a.op == "ite"]
                        if not q:
                            break
                        c = q[0].args[0]
                    else:
                        break
        return min(flat or cs, key=lambda t: (len(subterms(t)), t.id))

    def quick(self, cx, hy, t):
        """an extreme replaced by one of its elements settles it, perhaps after
        subtracting a multiple of a hypothesis about extremes"""
        if self.quick1(cx, hy, t):
            return True
        d = aspoly(t)
        for h in hy:
            if not (h.op == "not" and h.args[0].op == "lt0"):
                continue
            p = aspoly(h.args[0].args[0])
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fold" and m[0][0].args[0] in ("max", "min") and m in d and d[m] / c > 0:
                    if self.quick1(cx, hy, sub(t, scale(d[m] / c, h.args[0].args[0]))):
                        return True
        return False

    def quick1(self, cx, hy, t):
        d = aspoly(t)
        for m in d:
            for a, e in m:
                if a.op == "fold" and a.args[0] in ("max", "min") and all(dict(x).get(a, 0) in (0, 1) for x in d):
                    k = R(0)
                    for x, c in d.items():
                        if a in dict(x):
                            k = add(k, mkpoly({tuple(y for y in x if y[0] is not a): c}, "R"))
                    if k.op != "const" or (k.args[0] > 0) != (a.args[0] == "max") or not cx.entails(lt(a.args[3], a.args[4])):
                        continue
                    for i in self.candidates(cx, t, a):
                        u = simp(self.swap(t, {a: subst(a.args[2][0], {bvar(a.h): i})}), cx)
                        if u.op == "const" and u.args[0] >= 0 or smt.check(list(cx.lits) + hy + [lt0(u)], False, 300) == "unsat":
                            return True
        return False

    def factor(self, cx, hy, t):
        """t divided by a non-negative atom common to all its monomials"""
        ms = [dict(m) for m in aspoly(t)]
        if not ms:
            return None
        for a in list(ms[0]):
            if all(a in m for m in ms):
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][a] == 1:
                    return None
                e = min(m[a] for m in ms)
                if e % 2 == 0 or self.nonneg(cx, hy, a if a.sort == "R" else toreal(a)):
                    out = R(0)
                    for m, c in aspoly(t).items():
                        k = tuple((x, y - (e if x is a else 0)) for x, y in m if not (x is a and y == e))
                        out = add(out, mkpoly({k: c}, "R"))
                    return out
        return None

    def ratios(self, cx, hy, t, invs):
        """c + sum of N_q / q with N_q + alpha_q q >= 0 and c >= sum alpha_q"""
        groups, rest = {}, Fraction(0)
        for m, c in aspoly(t).items():
            if m == ():
                rest = c
                continue
            qs = [(a, e) for a, e in m if a.op == "inv"]
            if len(qs) != 1 or qs[0][1] != 1:
                return False
            q = qs[0][0]
            k = tuple(x for x in m if x[0] is not q)
            groups[q] = add(groups.get(q, R(0)), mkpoly({k: c}, "R"))
        if len(groups) < 2:
            return False
        for q, nq in groups.items():
            p = q.args[0]
            if not self.nonneg(cx, hy, p):
                return False
            best = None
            for al in sorted({Fraction(0)} | {abs(c) for c in aspoly(nq).values()}):
                if al <= rest and self.nonneg(cx, hy, add(nq, scale(al, p))):
                    best = al
                    break
            if best is None:
                return False
            rest -= best
        return rest >= 0

    def denominator(self, cx, hy, t, q):
        p = q.args[0]
        zero = eq0(p)
        nz = not_(zero)
        known = zero is FALSE or any(h is nz for h in hy) or self.decided(cx, hy, nz)
        if not known:
            t0 = self.repl(t, {q: R(0)})
            if not self.infeasible(cx, hy + [zero]) and not self.nonneg(cx, hy + [zero], t0) \
                    and not self.contradiction(cx, hy + [zero]):
                return False
        h2 = hy if nz is TRUE or any(h is nz for h in hy) else hy + [nz]
        k = max(e for m in aspoly(t) for a, e in m if a is q)

        def cleared(s):
            acc = R(0)
            for m, c in aspoly(t).items():
                e = dict(m).get(q, 0)
                r = mkpoly({tuple(x for x in m if x[0] is not q): c}, "R")
                acc = add(acc, mul(r, power(s, k - e)))
            return acc
        pos = self.nonneg(cx, hy, p)
        if pos:
            return self.nonneg(cx, h2, cleared(p))
        if self.nonneg(cx, hy, neg(p)):
            return self.nonneg(cx, h2, mul(R(-1 if k % 2 else 1), cleared(p)))
        return self.nonneg(cx, h2 + [lt0(neg(p))], cleared(p)) and self.nonneg(cx, h2 + [lt0(p)], mul(R(-1 if k % 2 else 1), cleared(p)))

    # --------------------------------------------------------------- rounding
    def exact4(self, d):
        """a sum that is a multiple of 1/10000"""
        for m, c in d.items():
            if m == ():
                if (c * 10000).denominator != 1:
                    return False
            elif len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                a = m[0][0]
                if not (a.op == "rnd" and a.args[0] <= 4 or self.digits and a.op == "rd" or a.op == "toreal"):
                    return False
            else:
                return False
        return True

    def rounding(self, cx, hy, t):
        d = aspoly(t)
        rs = [(m[0][0], c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "rnd" and m[0][0].args[0] == 4]
        if not rs:
            return False
        # scale so that a rounded quantity has coefficient one
        for a, c in rs:
            k = abs(c)
            u = scale(1 / k, t)
            du = aspoly(u)
            rest = {m: x for m, x in du.items() if not (len(m) == 1 and m[0][0] is a)}
            if self.exact4(rest) and self.nonneg(cx, hy, self.swap(u, {a: a.args[1]})):
                return True
            for b, c2 in rs:
                if c2 == -c and c > 0 and len(d) == 2 and self.nonneg(cx, hy, sub(a.args[1], b.args[1])):
                    return True
        # each rounded quantity with a term of its own sign
        return False

    def swap(self, t, m):
        return self.repl(t, m)

    def powers(self, cx, hy, t):
        """a square, or a sum of squares"""
        return all(c > 0 and all(e % 2 == 0 for a, e in m) for m, c in aspoly(t).items())

    # ------------------------------------------------------------------- sums
    def sums(self, cx, hy, t):
        items, rest = [], {}
        for m, c in aspoly(t).items():
            fs = [(a, e) for a, e in m if a.op == "fold" and a.args[0] == "sum"]
            if len(fs) == 1 and fs[0][1] == 1:
                f = fs[0][0]
                items.append((mkpoly({tuple(x for x in m if x[0] is not f): c}, "R"), f))
            elif fs:
                return False
            else:
                rest[m] = c
        if not items:
            return False
        groups = []
        for k, f in items:
            for g in groups:
                s = sub(f.args[3], g[0])
                if s.op != "const" and cx.entails(eq(s, I(0))):
                    s = I(0)
                if cx.entails(eq(f.args[4], add(g[1], s))):
                    g[2].append((k, f, s))
                    break
            else:
                groups.append((f.args[3], f.args[4], [(k, f, I(0))]))
        r = mkpoly(rest, "R")
        cands = [(None, None)]
        if r is not R(0):
            cands = []
            if self.nonneg(cx, hy, r):
                cands.append((None, None))
            for gi, (lo, hi, its) in enumerate(groups):
                ln = aspoly(toreal(sub(hi, lo)))
                for m, c in rest.items():
                    if m in ln:
                        al = c / ln[m]
                        left = sub(r, mul(R(al), mkpoly(ln, "R")))
                        if left is R(0) or self.nonneg(cx, hy, left):
                            cands.append((gi, al))
                        break
        for pick, al in cands:
            ok = True
            for gi, (lo, hi, its) in enumerate(groups):
                w = fresh("q")
                b = R(al) if pick == gi else R(0)
                for k, f, sh in its:
                    b = add(b, mul(k, subst(f.args[2][0], {bvar(f.h): add(w, sh)})))
                c2 = cx.ext(le(lo, w), lt(w, hi))
                if not c2.inconsistent() and not self.nonneg(c2, self.instances(c2, hy, w), b):
                    ok = False
                    break
            if ok:
                return True
        return False

    def instances(self, cx, hy, w):
        """what the hypotheses about every row of a window say about row w"""
        out = []
        for h in hy:
            for x in (h.args if h.op == "and" else (h,)):
                if x.op == "fold" and x.args[0] == "all":
                    for e in (w, add(x.args[3], w)):
                        if cx.entails(le(x.args[3], e)) and cx.entails(lt(e, x.args[4])):
                            b = simp(subst(x.args[2][0], {bvar(x.h): e}), cx)
                            if b is not TRUE and b not in out:
                                out.append(b)
                            break
        return hy + out

    def averages(self, cx, hy, t):
        """an exponentially weighted average of present values lies between
        them (smoothing factor in (0, 1])"""
        d = aspoly(t)
        for m, c in d.items():
            for a, e in m:
                if a.op == "fold" and a.args[0] == "ewm" and len(m) == 1 and e == 1 and sum(a in dict(x) for x in d) == 1:
                    (alpha,) = a.args[1]
                    if not (self.nonneg(cx, hy, alpha) and self.nonneg(cx, hy, sub(R(1), alpha))):
                        continue
                    w = fresh("q")
                    ok, val = [subst(b, {bvar(a.h): w}) for b in a.args[2]]
                    c2 = cx.ext(le(a.args[3], w), lt(w, a.args[4]))
                    if self.nonneg(c2, hy + [ok], self.swap(t, {a: val})):
                        return True
        return False

    def telescope(self, cx, hy, t):
        """S - x(a) + x(b) >= 0 where S sums |x(v) - x(v-1)| or more over a
        range containing the steps between a and b"""
        d = aspoly(t)
        fs = [(m[0][0], c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fold" and m[0][0].args[0] == "sum"]
        rds = [(m[0][0], c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "rd"]
        if len(fs) != 1 or len(rds) != 2 or len(d) != 3 or fs[0][1] <= 0:
            return False
        f, c = fs[0]
        (x, cx1), (y, cx2) = rds
        if x.args[0] != y.args[0] or cx1 != -cx2 or abs(cx1) > c:
            return False
        a, b = x.args[1], y.args[1]
        lo, hi = f.args[3:]
        for i in (a, b):
            if not (cx.entails(le(sub(lo, I(1)), i)) and cx.entails(lt(i, hi))):
                return False
        w = fresh("q")
        body = subst(f.args[2][0], {bvar(f.h): w})
        c2 = cx.ext(le(lo, w), lt(w, hi))
        st = sub(rd(x.args[0], w), rd(x.args[0], sub(w, I(1))))
        return self.nonneg(c2, hy, sub(body, st)) and self.nonneg(c2, hy, add(body, st))

    # --------------------------------------------------------------- extremes
    def extremes(self, cx, hy, t):
        d = aspoly(t)
        ex = []
        for m, c in d.items():
            for a, e in m:
                if a.op == "fold" and a.args[0] in ("max", "min") and a not in ex:
                    ex.append(a)
        for a in ex:
            if not all(dict(m).get(a, 0) in (0, 1) for m in d):
                continue
            kind, extra, bodies, lo, hi = a.args
            if not cx.entails(lt(lo, hi)):
                continue
            k = R(0)
            for m, c in d.items():
                if a in dict(m):
                    k = add(k, mkpoly({tuple(x for x in m if x[0] is not a): c}, "R"))
            up = self.nonneg(cx, hy, k if kind == "max" else neg(k))
            if up:
                # any element of the range will do
                for e in self.candidates(cx, t, a):
                    if self.nonneg(cx, hy, self.swap(t, {a: subst(bodies[0], {bvar(a.h): e})})):
                        return True
                continue
            # the extreme is one of its elements
            w = fresh("q")
            c2 = cx.ext(le(lo, w), lt(w, hi))
            if self.nonneg(c2, hy, self.swap(t, {a: subst(bodies[0], {bvar(a.h): w})})):
                return True
        return False

    def candidates(self, cx, t, a):
        """row numbers worth trying as the place of an extreme"""
        lo, hi = a.args[3:]
        out = []
        todo = [lo, sub(hi, I(1))]
        for x in subterms(t).values():
            if x.op == "rd":
                todo.append(x.args[1])
            elif x.op == "var" and x.sort == "I" and not str(x.args[0]).startswith("$"):
                todo.append(x)
            elif x.op == "fold" and x is not a and x.args[0] in ("max", "min"):
                todo += [x.args[3], sub(x.args[4], I(1))]
        for e in todo:
            if any(str(v.args[0]).startswith("$") for v in e.fv):
                continue
            if e not in out and cx.entails(le(lo, e)) and cx.entails(lt(e, hi)):
                out.append(e)
        return out[:6]

    # ------------------------------------------------------------ recurrences
    def recurrence(self, cx, hy, t):
        d = aspoly(t)
        rs = []
        for m in d:
            for a, e in m:
                if a.op == "rec" and a not in rs:
                    rs.append(a)
        if not rs:
            return False
        i = rs[0].args[2]
        shift = {}
        for a in rs:
            s = sub(a.args[2], i)
            if s.op != "const":
                return False
            shift[a] = int(s.args[0])
        if any(a.op not in ("rec", "const", "param", "toreal") and not (a.op in ("inv",) and not a.fv) for m in d for a, e in m):
            return False
        if min(shift.values()) != max(shift.values()):
            return False
        w = fresh("q")
        B = {a: subst(a.args[0].args[a.args[1]], {bvar(a.args[0].h): w}) for a in rs}
        for L in self.bases(cx, w, i, *B.values()):
            if self.induct_nonneg(cx, hy, t, rs, B, w, i, L):
                return True
        return False

    def induct_nonneg(self, cx, hy, t, rs, B, w, i, L):
        _ihn[0] += 1
        tag = "rg%d" % _ihn[0]
        # base row
        m = {}
        for a in rs:
            x = simp(subst(B[a], {w: L}), cx)
            if has_self(x):
                return False
            m[a] = x
        if not self.nonneg(cx, hy, self.swap(t, m)):
            return False
        # step
        cs = cx.ext(lt(L, w), le(w, i))
        if cs.inconsistent():
            return True
        bodies = {}
        prevs = set()
        for a in rs:
            x = simp(B[a], cs)
            for s in _selfs(x):
                if not (cs.entails(le(L, s.args[1])) and cs.entails(lt(s.args[1], w))):
                    return False
                prevs.add((s.args[1], s.args[0], s.sort, a.args[0]))
            bodies[a] = x
        facts = []
        name = lambda s, c: "%s_%d_%d" % (tag, s.id, c)
        mb = {}
        for a in rs:
            s0 = a.args[0]
            mb[a] = replace_self(bodies[a], lambda c, e, so, s0=s0: uf(name(s0, c), (e,), so), {})
        goal = self.swap(t, mb)
        # the same statement one row earlier
        ih = None
        for e in {p[0] for p in prevs}:
            mi = {a: uf(name(a.args[0], a.args[1]), (e,), a.sort) for a in rs}
            x = self.swap(t, mi)
            facts.append(le(R(0), x))
            ih = ih or x
            # signs of the parts, each by its own induction
            if len(rs) > 1:
                for a in rs:
                    sg = self.rec_sign(cx, hy, a, L)
                    if sg:
                        facts.append(le(R(0), scale(sg, mi[a])))
        if self.nonneg_ih(cs, hy + [f for f in facts if f is not TRUE], goal, ih, tag):
            return True
        return False

    def rec_sign(self, cx, hy, a, L):
        key = (cx.ids, a.args[0].id, a.args[1], L.id)
        if key not in self.recinv:
            self.recinv[key] = 0
            j = fresh("q")
            c2 = cx.ext(le(L, j), le(j, a.args[2]))
            for sg in (1, -1):
                if self.nonneg(c2, hy, scale(sg, rec(a.args[0], a.args[1], j))):
                    self.recinv[key] = sg
                    break
        return self.recinv[key]

    def ih_step(self, cx, hy, goal, ih, tag):
        """goal = lam ih + r with lam, r >= 0"""
        if ih is None or ih is R(0):
            return False
        d = aspoly(goal)
        for m, c in aspoly(ih).items():
            if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "uf":
                continue
            a = m[0][0]
            k = R(0)
            okk = True
            for mm, cc in d.items():
                e = dict(mm).get(a, 0)
                if e == 1:
                    k = add(k, mkpoly({tuple(x for x in mm if x[0] is not a): cc}, "R"))
                elif e:
                    okk = False
            if not okk:
                continue
            lam = scale(1 / c, k)
            r = sub(goal, mul(lam, ih))
            if any(x.op == "uf" and str(x.args[0]).startswith(tag) for x in subterms(r).values()):
                continue
            if self.nonneg(cx, hy, lam) and self.nonneg(cx, hy, r):
                return True
        return False

    def nonneg_ih(self, cx, hy, goal, ih, tag):
        """goal >= 0 from ih >= 0, splitting off the multiple of ih in goal"""
        self.tick()
        goal = simp(goal, cx)
        conds, seen = [], set()
        for x in [goal] + hy:
            int_conds(x, conds, seen)
        if conds:
            failed = []

            def leaf(c2, h2, ts, out):
                if not out and not self.nonneg_ih(c2, h2, ts[0], ts[1], tag):
                    out.append(1)
            self._split(cx, hy, [goal, ih if ih is not None else R(0)], leaf, failed, 6)
            return not failed
        if smt.check(list(cx.lits) + hy + [lt0(goal)], False, 600) == "unsat":
            return True
        cs = self.conds(goal)
        if cs and self.ih_step(cx, hy, goal, ih, tag):
            return True
        if cs:
            if self.ncase > 12:
                return False
            c = min(cs, key=lambda t: (len(subterms(t)), t.id))
            self.ncase += 1
            try:
                for h in (c, not_(c)):
                    h2 = hy + [h]
                    if self.infeasible(cx, h2):
                        continue
                    t2 = self.assume(goal, {c: TRUE if h is c else FALSE}, {})
                    if not self.nonneg_ih(cx, h2, t2, ih, tag):
                        return False
                return True
            finally:
                self.ncase -= 1
        # rounding of the whole step
        d = aspoly(goal)
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "rnd" and m[0][0].args[0] == 4:
                a = m[0][0]
                u = scale(1 / abs(c), goal)
                rest = {k: x for k, x in aspoly(u).items() if not (len(k) == 1 and k[0][0] is a)}
                if self.exact4(rest):
                    return self.nonneg_ih(cx, hy, self.swap(u, {a: a.args[1]}), ih, tag)
        if self.ih_step(cx, hy, goal, ih, tag):
            return True
        return self.nonneg(cx, hy, goal)

    # ------------------------------------------------------------ the remainder
    def terms_apart(self, cx, hy, t):
        """every monomial non-negative by itself"""
        d = aspoly(t)
        if len(d) < 2 and all(len(m) < 2 for m in d):
            return False
        for m, c in d.items():
            if m == ():
                if c < 0:
                    return False
                continue
            s = 1 if c > 0 else -1
            for a, e in m:
                if e % 2 == 0:
                    continue
                x = a if a.sort == "R" else toreal(a)
                if self.nonneg(cx, hy, x):
                    continue
                if self.nonneg(cx, hy, neg(x)):
                    s = -s
                    continue
                return False
            if s < 0:
                return False
        return True

    def arith(self, cx, hy, t):
        ats = [a for m in aspoly(t) for a, e in m if a.op in ("fold", "rec", "sqrt", "rnd", "uf") and a.sort == "R"]
        ats = list({a.id: a for a in ats}.values())
        if len(ats) > 8:
            return False
        facts = []
        for a in ats:
            if a.op == "uf":
                continue
            if self.nonneg(cx, hy, a):
                facts.append(le(R(0), a))
            elif self.nonneg(cx, hy, neg(a)):
                facts.append(le(a, R(0)))
        for x in range(len(ats)):
            for y in range(len(ats)):
                a, b = ats[x], ats[y]
                if x != y and a.op == b.op and a.op in ("fold", "rec"):
                    if self.nonneg(cx, hy, sub(a, b)):
                        facts.append(le(b, a))
                    if x < y and self.nonneg(cx, hy, add(a, b)):
                        facts.append(le(R(0), add(a, b)))
        self.stats["z3"] += 1
        goals = list(cx.lits) + hy + facts + [lt0(t)]
        if facts and smt.check(goals, False, 1000) == "unsat":
            return True
        return smt.check(goals, True, 3000) == "unsat"


def bar_facts(strict=False):
    """tell z3 about low <= open, close <= high at every row looked at"""
    import z3
    bars = ("in_open", "in_high", "in_low", "in_close")

    def f(L, name, idx):
        if name not in bars:
            return []
        i = L.low(idx)
        o, h, l, c = [smt.UF("rd_" + b, z3.IntSort(), z3.RealSort())(i) for b in bars]
        return [l > 0, l <= o, l <= c, o <= h, c <= h] + ([l < h] if strict else [])
    smt._array_facts.append(f)
