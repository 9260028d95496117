"""Equality prover for cells and terms.

Goals are split on integer conditions (row position against window lengths and
history length), simplified by linear-integer entailment, and closed by
syntactic identity, by merging equal sub-structures (folds by pointwise equal
bodies, recurrences by induction on the row, rounding / roots / reciprocals by
equal arguments), by clearing denominators, or by z3."""
import random
import time
from fractions import Fraction
import z3
from .terms import *
from .terms import aspoly, _lincoef
from .num import *
from . import smt
from .ceval import Ev, ev_num, Unstable


class Timeout(Exception):
    pass


def int_only(t, memo={}):
    """no real-valued subterm"""
    r = memo.get(t.id)
    if r is None:
        if t.op == "uf":
            r = t.sort == "I" and all(x.sort == "I" and int_only(x) for x in t.args[1:])
        elif t.sort == "R" or t.op in ("fold", "rec", "self", "rdn", "rdi", "itrunc"):
            r = False
        else:
            r = all(int_only(x) for x in children(t))
        memo[t.id] = r
    return r


class Ctx:
    """conjunction of integer facts, with an incremental solver"""

    def __init__(self, lits, parent=None):
        self.lits = tuple(lits)
        self.ids = frozenset(t.id for t in self.lits)
        self.memo = {}
        self.ent = {}
        self.kids = {}
        self.consts = {}
        self.solver = None
        self.bad = None

    def sol(self):
        if self.solver is None:
            s = z3.Solver()
            s.set("timeout", 1000 * smt.SCALE)
            for t in self.lits:
                s.add(smt.OPAQUE.low(t))
            for t, k in smt.declared():
                s.add(smt.OPAQUE.low(t) >= k)
            self.solver = s
        return self.solver

    def ext(self, *cs):
        c = self
        for x in cs:
            c = c._ext(x)
        return c

    def _ext(self, c):
        if c is TRUE or c.id in self.ids:
            return self
        k = self.kids.get(c.id)
        if k is None:
            k = self.kids[c.id] = Ctx(self.lits + (c,))
        return k

    def check(self, t):
        s = self.sol()
        s.push()
        s.add(smt.OPAQUE.low(t))
        t0 = time.time()
        r = s.check()
        smt.STATS["z3_calls"] += 1
        smt.STATS["z3_time"] += time.time() - t0
        if r == z3.unknown:
            smt.STATS["unknown"] += 1
        s.pop()
        return r

    def entails(self, t):
        if t is TRUE or t.id in self.ids:
            return True
        r = self.ent.get(t.id)
        if r is None:
            r = self.ent[t.id] = self.check(not_(t)) == z3.unsat
        return r

    def dec(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if self.entails(t):
            return True
        if self.entails(not_(t)):
            return False
        return None

    def fixed(self, ts):
        """free row variables with a single possible value"""
        fv = set()
        for t in ts:
            fv |= t.fv
        for v in sorted(fv, key=lambda t: t.id):
            if v.sort != "I" or str(v.args[0]).startswith("$"):
                continue
            c = self.const_of(v)
            if c is not None:
                yield v, c

    def const_of(self, v):
        if v.id not in self.consts:
            r = None
            s = self.sol()
            if s.check() == z3.sat:
                c = s.model().eval(smt.OPAQUE.low(v), model_completion=True)
                if z3.is_int_value(c):
                    c = I(c.as_long())
                    if self.entails(eq(v, c)):
                        r = c
            self.consts[v.id] = r
        return self.consts[v.id]

    def inconsistent(self):
        if self.bad is None:
            self.bad = any(t is FALSE for t in self.lits) or self.check(TRUE) == z3.unsat
        return self.bad


def simp(t, cx):
    if t.op in ("const", "true", "false", "param", "var"):
        return t
    r = cx.memo.get(t.id)
    if r is not None:
        return r
    r = _simp(t, cx)
    cx.memo[t.id] = r
    if r is not t:
        cx.memo.setdefault(r.id, r)
    return r


def const_tree(u):
    return u.op == "const" or u.op == "ite" and const_tree(u.args[1]) and const_tree(u.args[2])


def lift_int(op, p):
    """p <= 0 / p = 0, with a choice between constants moved outside"""
    for m, c in aspoly(p).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite":
            u = m[0][0]
            if const_tree(u):
                r = sub(p, scale(c, u))
                return ite(u.args[0], lift_int(op, add(r, scale(c, u.args[1]))), lift_int(op, add(r, scale(c, u.args[2]))))
    return ile0(p) if op == "ile0" else eq(p, I(0))


def _simp(t, cx):
    op, a = t.op, t.args
    if op in ("ile0", "ieq0"):
        p = simp(a[0], cx)
        q = lift_int(op, p)
        if q.op in ("ile0", "ieq0") and int_only(q):
            d = cx.dec(q)
            if d is True:
                return TRUE
            if d is False:
                return FALSE
        return q
    if op == "ite":
        c = simp(a[0], cx)
        if c is TRUE:
            return simp(a[1], cx)
        if c is FALSE:
            return simp(a[2], cx)
        if int_only(c):
            ct, cf = cx.ext(c), cx.ext(not_(c))
            x, y = simp(a[1], ct), simp(a[2], cf)
            if x is not y and t.sort == "I" and int_only(x) and int_only(y):
                if cf.entails(eq(x, y)):
                    return x
                if ct.entails(eq(x, y)):
                    return y
            return ite(c, x, y)
        return ite(c, simp(a[1], cx), simp(a[2], cx))
    if op in ("and", "or"):
        unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
        out = []
        for x in a:
            x = simp(x, cx)
            if x is zero:
                return zero
            out.append(x)
        r = (and_ if op == "and" else or_)(*out)
        if r.op == op:
            # each literal under the other integer literals
            ints = [x for x in r.args if int_only(x)]
            if ints and len(ints) < len(r.args):
                c2 = cx.ext(*[x if op == "and" else not_(x) for x in ints])
                r = (and_ if op == "and" else or_)(*(ints + [simp(x, c2) for x in r.args if not int_only(x)]))
            if len(ints) > 1 and r.op == op:
                keep = list(r.args)
                for x in ints:
                    rest = [y for y in keep if y is not x]
                    c3 = cx.ext(*[y if op == "and" else not_(y) for y in rest if int_only(y)])
                    if c3.entails(x if op == "and" else not_(x)):
                        keep = rest
                r = (and_ if op == "and" else or_)(*keep)
        return r
    if op == "fold":
        kind, extra, bodies, lo, hi = a
        lo, hi = simp(lo, cx), simp(hi, cx)
        if cx.entails(le(hi, lo)):
            if kind in ("sum", "isum"):
                return num(0, t.sort)
            if kind == "any":
                return FALSE
            if kind == "all":
                return TRUE
        v = bvar(t.h)
        c2 = cx.ext(le(lo, v), lt(v, hi))
        nb = tuple(simp(b, c2) for b in bodies)
        ne = tuple(simp(x, cx) if isinstance(x, T) else x for x in extra)
        if nb == bodies and ne == extra and lo is a[3] and hi is a[4]:
            return t
        w = fresh("j")
        r = fold(kind, ne, w, tuple(subst(b, {v: w}) for b in nb), lo, hi)
        if r is not t and r.op != "fold":
            return simp(r, cx)
        return r
    if op == "rec":
        s, c, idx = a
        idx = simp(idx, cx)
        body = s.args[c]
        if body.op == "ite":
            v = bvar(s.h)
            b = subst(body, {v: idx})
            b = _head_ite(b, cx)
            if b is not None and not has_self(b):
                return simp(b, cx)
        n = param("n", "I")
        v = bvar(s.h)
        up = [lt(v, n)] if cx.entails(lt(idx, n)) else []
        # smallest row the definition is ever followed down to
        for lb in (0, -1, -2, None):
            if lb is None:
                lits = up
                if based(s, cx):
                    lb = ANY
                break
            if not cx.entails(le(I(lb), idx)):
                continue
            lits = [le(I(lb), v)] + up
            if closed_above(s, cx, lits, lb):
                break
        s, remap, consts, decode = simp_sys(s, cx, lits, lb, c)
        if c in consts:
            return consts[c]
        if remap[c] in decode:
            d = decode[remap[c]]
            return ite(rec(s, remap[c], idx), d[0], d[1])
        return rec(s, remap[c], idx)
    if op == "self" and _houdini and _houdini[-1] is not None:
        idx = simp(a[1], cx)
        v, cand, lb = _houdini[-1]
        if a[0] in cand and cx.entails(lt(idx, v)) and (lb is ANY or cx.entails(le(I(lb), idx))):
            return cand[a[0]]
        return self_(a[0], idx, t.sort)
    return rebuild(t, lambda x: simp(x, cx))


_houdini = []


ANY = -10 ** 9      # every row: rows below 0 refer to no other row


def based(s, cx):
    key = ("based", s.id)
    r = cx.memo.get(key)
    if r is None:
        v = fresh("v")
        m = {bvar(s.h): v}
        r = cx.memo[key] = all(_self_ok(subst(b, m), cx.ext(lt(v, I(0))), None) for b in s.args)
    return r


def closed_above(s, cx, lits, lb):
    """rows >= lb are defined through rows >= lb only"""
    key = ("closed", s.id, tuple(x.id for x in lits), lb)
    r = cx.memo.get(key)
    if r is None:
        v = fresh("v")
        m = {bvar(s.h): v}
        base = Ctx(cx.lits + tuple(subst(x, m) for x in lits))
        r = all(_self_ok(subst(b, m), base, lb) for b in s.args)
        cx.memo[key] = r
    return r


def _self_ok(t, cx, lb):
    if not has_self(t):
        return True
    if t.op == "self":
        return lb is not None and cx.entails(le(I(lb), t.args[1])) and _self_ok(t.args[1], cx, lb)
    if t.op in ("and", "or"):
        # an operand matters only where the others do not settle the value
        ints = [x for x in t.args if int_only(x)]
        c2 = cx.ext(*[x if t.op == "and" else not_(x) for x in ints]) if ints else cx
        return c2.inconsistent() or all(_self_ok(x, c2, lb) for x in t.args)
    if t.op == "ite":
        c = t.args[0]
        if not _self_ok(c, cx, lb):
            return False
        for br, h in ((t.args[1], c), (t.args[2], not_(c))):
            if not has_self(br):
                continue
            ints = [x for x in (h.args if h.op == "and" else (h,)) if int_only(x)]
            c2 = cx.ext(*ints) if ints else cx
            if not c2.inconsistent() and not _self_ok(br, c2, lb):
                return False
        return True
    if t.op == "rec":
        return _self_ok(t.args[2], cx, lb)
    return all(_self_ok(x, cx, lb) for x in children(t))


def simp_sys(s, cx, lits, pos, c0):
    _houdini.append(None)       # references in this system's bodies are its own
    try:
        return _simp_sys(s, cx, lits, pos, c0)
    finally:
        _houdini.pop()


def _simp_sys(s, cx, lits, pos, c0):
    """simplified system; components proved constant on all rows from 0 on (by
    induction, all at once) are eliminated, unused ones dropped"""
    key = ("sys", s.id, tuple(x.id for x in lits), pos, c0)
    r = cx.memo.get(key)
    if r is not None:
        return r
    v = fresh("v")
    m = {bvar(s.h): v}
    bodies = [subst(b, m) for b in s.args]
    lits = [subst(x, m) for x in lits]
    cand, decode = {}, {}
    if pos is not None:
        for k, b in enumerate(bodies):
            if b.sort == "B":
                cand[k] = FALSE
            elif b.sort == "I":
                cand[k] = I(0)
    while True:
        base = Ctx(cx.lits + tuple(lits))
        _houdini.append((v, cand, pos))
        try:
            nb = [simp(b, base) for b in bodies]
        finally:
            _houdini.pop()
        bad = [k for k in cand if nb[k] is not cand[k]]
        if not bad:
            break
        for k in bad:
            del cand[k]
    # two-valued integer components become booleans
    for k in range(len(nb)):
        if k in cand or nb[k].sort != "I":
            continue
        vals = set()
        if _leaf_vals(nb[k], k, vals) and len(vals) == 2:
            x, y = sorted(vals, key=lambda t: t.args[0])
            body = _leaf_eq(nb[k], k, x)

            def f2(c, e, so, k=k, x=x, y=y):
                return ite(self_(k, e, "B"), x, y) if c == k and so == "I" else self_(c, e, so)
            nb = [replace_self(body if q == k else b, f2, {}) for q, b in enumerate(nb)]
            decode[k] = (x, y)
    if decode:
        base = Ctx(cx.lits + tuple(lits))
        nb = [simp(b, base) for b in nb]
    # reachable components, in order of first use
    order, todo = [], [c0]
    while todo:
        k = todo.pop(0)
        if k in order or k in cand:
            continue
        order.append(k)
        out = []
        selfs(nb[k], out, set())
        todo += [t.args[0] for t in out]
    remap = {k: q for q, k in enumerate(order)}

    def f(k, e, so):
        return self_(remap[k], e, so)
    if all(not any(u.args[0] not in remap for u in _selfs(nb[k])) for k in order):
        nb = [replace_self(nb[k], f, {}) for k in order]
    else:
        remap = {k: k for k in range(len(nb))}
    s2 = mk_sys(v, tuple(nb)) if nb else s
    decode = {remap[k]: d for k, d in decode.items() if k in remap}
    if pos == 0:
        invariants(s2, cx, lits, v, nb)
    r = (s2, remap, dict(cand), decode)
    cx.memo[key] = r
    return r


INV = {}        # system id -> {component: [fn(row, value) -> term]}


def _inv_facts(k, inv, e, val):
    out = []
    for f in inv.get(k, ()):
        out.append(le(I(0), val) if f == "ge0" else le(val, e) if f == "le_row" else TRUE)
    return out


def invariants(s, cx, lits, v, bodies):
    """0 <= component, component <= row for integer components, proved by
    induction over the rows"""
    if s.id in INV:
        return
    inv = {k: ["ge0", "le_row"] for k, b in enumerate(bodies) if b.sort == "I"}
    tag = "inv%d" % s.id
    while any(inv.values()):
        changed = False
        for k in list(inv):
            for f in list(inv[k]):
                need = _selfs(bodies[k])
                b = replace_self(bodies[k], lambda c, e, so: uf("%s_%d" % (tag, c), (e,), so), {})
                hyp = []
                ok = True
                for t in need:
                    e = replace_self(t.args[1], lambda c, e, so: uf("%s_%d" % (tag, c), (e,), so), {})
                    u = uf("%s_%d" % (tag, t.args[0]), (e,), t.sort)
                    rng_ = and_(le(I(0), e), lt(e, v))
                    hyp += [implies(rng_, x) for x in _inv_facts(t.args[0], inv, e, u)]
                g = le(I(0), b) if f == "ge0" else le(b, v)
                if smt.check(list(cx.lits) + list(lits) + hyp + [not_(g)], False, 1000) != "unsat":
                    inv[k].remove(f)
                    changed = True
        if not changed:
            break
    INV[s.id] = inv


def _leaf_vals(b, k, out):
    if b.op == "ite":
        return _leaf_vals(b.args[1], k, out) and _leaf_vals(b.args[2], k, out)
    if b.op == "const":
        out.add(b)
        return True
    return b.op == "self" and b.args[0] == k


def _leaf_eq(b, k, x):
    if b.op == "ite":
        return ite(b.args[0], _leaf_eq(b.args[1], k, x), _leaf_eq(b.args[2], k, x))
    if b.op == "const":
        return TRUE if b is x else FALSE
    return self_(k, b.args[1], "B")


def _selfs(t):
    out = []
    selfs(t, out, set())
    return out


def _head_ite(b, cx):
    while b.op == "ite":
        # references of the inner system are opaque here
        c = simp(replace_self(b.args[0], lambda k, e, so: uf("inner%d" % k, [e], so), {}), cx)
        if c is TRUE:
            b = b.args[1]
        elif c is FALSE:
            b = b.args[2]
        else:
            return None
    return b


# ------------------------------------------------------------------ traversal
OPQ = ("fold", "rec", "rnd", "sqrt", "inv", "trunc", "itrunc")


def outer_atoms(t, out, seen):
    if t.id in seen:
        return
    seen.add(t.id)
    if t.op in OPQ:
        out.append(t)
        if t.op in ("fold", "rec"):
            return
    if t.op in ("const", "param", "var", "true", "false"):
        return
    for x in children(t):
        outer_atoms(x, out, seen)


def atoms(*ts):
    out, seen = [], set()
    for t in ts:
        outer_atoms(t, out, seen)
    return out


def put_outer(t, k, w, memo):
    """w for the symbol k, which may not occur inside a binder (KeyError)"""
    r = memo.get(t.id)
    if r is None:
        if t is k:
            r = w
        elif t.op == "fold":
            if any(k.id in subterms(b) for b in t.args[2]):
                raise KeyError("bound")
            kind, ex, bs, lo, hi = t.args
            lo2, hi2 = put_outer(lo, k, w, memo), put_outer(hi, k, w, memo)
            if lo2 is lo and hi2 is hi:
                r = t
            else:
                j = fresh("j")
                r = fold(kind, ex, j, [subst(b, {bvar(t.h): j}) for b in bs], lo2, hi2)
        elif t.op == "rec":
            if k.id in subterms(t.args[0]):
                raise KeyError("bound")
            r = rec(t.args[0], t.args[1], put_outer(t.args[2], k, w, memo))
        else:
            r = rebuild(t, lambda q: put_outer(q, k, w, memo))
        memo[t.id] = r
    return r


def int_conds(t, out, seen):
    """undecided integer conditions outside binder bodies"""
    if t.id in seen:
        return
    seen.add(t.id)
    if t.op in ("ile0", "ieq0"):
        if int_only(t):
            inner = []
            int_conds(t.args[0], inner, set())
            out += inner if inner else [t]
            return
    if t.op == "fold":
        for x in list(t.args[1]) + [t.args[3], t.args[4]]:
            if isinstance(x, T):
                int_conds(x, out, seen)
        return
    if t.op == "rec":
        int_conds(t.args[2], out, seen)
        return
    for x in children(t):
        int_conds(x, out, seen)


def selfs(t, out, seen):
    if t.id in seen or not has_self(t):
        return
    seen.add(t.id)
    if t.op == "self":
        out.append(t)
    for x in children(t):
        selfs(x, out, seen)


def replace_self(t, f, memo):
    if not has_self(t):
        return t
    r = memo.get(t.id)
    if r is None:
        if t.op == "self":
            r = f(t.args[0], replace_self(t.args[1], f, memo), t.sort)
        else:
            r = rebuild(t, lambda x: replace_self(x, f, memo))
        memo[t.id] = r
    return r


_ihn = [0]


DEBUG = 0


class Refuted(Exception):
    def __init__(self, env):
        self.env = env


class Prover:
    """sampler(cx, rng) -> Ev environment (ev, envvars) or None"""

    def __init__(self, deadline=None, seed=1):
        self.deadline = deadline
        self.memo = {}
        self.rng = random.Random(seed)
        self.leaves = 0
        self.depth = 0
        self.fp = {}
        self.ncase = 0
        self.stats = {"goals": 0, "z3": 0, "syntactic": 0}

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Timeout()

    # ---------------------------------------------------------------- cells
    def cell(self, pc, a, b, why=None):
        """a, b cells; pc terms.  Returns list of failed leaves (ctx, hyps,
        what, x, y); empty = proved"""
        ints = [t for t in pc if int_only(t)]
        hyps = [t for t in pc if not int_only(t)]
        failed = []
        self._split(Ctx(ints), hyps, [*a.comps(), *b.comps()], self._leaf_cell, failed, 0)
        return failed

    def term(self, pc, a, b):
        ints = [t for t in pc if int_only(t)]
        hyps = [t for t in pc if not int_only(t)]
        failed = []
        self._split(Ctx(ints), hyps, [a, b], self._leaf_term, failed, 0)
        return failed

    def valid(self, pc, goal):
        return self.term(pc, goal, TRUE)

    def _split(self, cx, hyps, ts, leaf, failed, depth):
        self.tick()
        if cx.inconsistent():
            return
        ts = [simp(t, cx) for t in ts]
        hy = [simp(h, cx) for h in hyps]
        if any(h is FALSE for h in hy):
            return
        hy = [h for h in hy if h is not TRUE]
        if depth < 14:
            conds = []
            seen = set()
            for t in ts + hy:
                int_conds(t, conds, seen)
            if conds:
                # split on the condition occurring first (smallest term)
                c = min(conds, key=lambda t: t.id)
                self._split(cx.ext(c), hy, ts, leaf, failed, depth + 1)
                self._split(cx.ext(not_(c)), hy, ts, leaf, failed, depth + 1)
                return
        for v, c in cx.fixed(ts):
            m = {v: c}
            self._split(cx, [subst(h, m) for h in hy], [subst(t, m) for t in ts], leaf, failed, depth + 1)
            return
        self.leaves += 1
        leaf(cx, hy, ts, failed)

    def _leaf_cell(self, cx, hy, ts, failed):
        an, ai, av, bn, bi, bv = ts
        if an is TRUE and bn is TRUE:
            return
        if an is bn and ai is bi and av is bv:
            self.stats["syntactic"] += 1
            return
        if not self.eq(cx, hy, an, bn):
            failed.append((cx, hy, "missing", an, bn))
            return
        h2 = hy + ([not_(an)] if an is not FALSE else [])
        if an is TRUE:
            return
        if ai is not bi and not self.eq(cx, h2, ai, bi):
            failed.append((cx, hy, "infinite", ai, bi))
            return
        if av is bv:
            return
        h3 = h2 + ([eq(ai, Z)] if ai is not Z else [])
        if not self.eq(cx, h3, av, bv):
            failed.append((cx, h3, "value", av, bv))

    def _leaf_term(self, cx, hy, ts, failed):
        if not self.eq(cx, hy, ts[0], ts[1]):
            failed.append((cx, hy, "term", ts[0], ts[1]))

    # ---------------------------------------------------------------- terms
    def eq(self, cx, hy, x, y):
        if x is y:
            return True
        key = (cx.ids, frozenset(h.id for h in hy), min(x.id, y.id), max(x.id, y.id))
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = False       # guards against cycles
            self.depth += 1
            try:
                r = self.depth < 40 and self._eq(cx, hy, x, y)
            finally:
                self.depth -= 1
            self.memo[key] = r
        return r

    def split_eq(self, cx, hy, x, y):
        """equality after splitting on integer conditions"""
        failed = []
        self._split(cx, hy, [x, y], self._leaf_term, failed, 4)
        return not failed

    def _eq(self, cx, hy, x, y):
        self.tick()
        self.stats["goals"] += 1
        if x.sort == "I" and int_only(x) and int_only(y):
            return cx.entails(eq(x, y))
        if x.op == y.op and x.op in OPQ and self.atom(cx, hy, x, y):
            return True
        if x.op == "ite" and y.op == "ite" and x.args[0] is y.args[0]:
            c = x.args[0]
            if self.eq(cx, hy + [c], x.args[1], y.args[1]) and self.eq(cx, hy + [not_(c)], x.args[2], y.args[2]):
                return True
        if x.sort == "B":
            if self.z3(cx, hy, x, y, False):
                return True
            imp = self.implications(cx, hy, x, y)
            if imp:
                hy = hy + imp
                if self.z3(cx, hy, x, y, False):
                    return True
        x, y, hy = self.merge(cx, hy, x, y)
        if x is y:
            return True
        if self.z3(cx, hy, x, y, False):
            return True
        if x.sort == "R":
            d = sub(x, y)
            if d is R(0):
                return True
            if self.sum_zero(cx, hy, d):
                return True
            if self.clear(cx, hy, d, 0):
                return True
        l = self.linked(cx, hy, x, y)
        if l is not None and self.eq(cx, l[2], l[0], l[1]):
            return True
        l = self.peel(cx, hy, x, y)
        if l is not None and self.eq(cx, l[2], l[0], l[1]):
            return True
        if x.sort == "R" and self.stepwise(cx, hy, x, y):
            return True
        if self.cases(cx, hy, x, y):
            return True
        return self.z3(cx, hy, x, y, True)

    def peel(self, cx, hy, x, y):
        """quantifiers and searches whose outermost row is decided by the hypotheses"""
        if not hy:
            return None
        m = {}
        for t in {t.id: t for t in atoms(x, y)}.values():
            if t.op != "fold" or t.args[0] not in ("any", "all", "last", "first"):
                continue
            kind, ex, bs, lo, hi = t.args
            r, ends = None, []
            for rnd_ in range(3):
                if not cx.entails(lt(lo, hi)):
                    break
                done = False
                for end in (("hi",) if kind == "last" else ("lo",) if kind == "first" else ("hi", "lo")):
                    at = sub(hi, I(1)) if end == "hi" else lo
                    b = simp(subst(bs[0], {bvar(t.h): at}), cx)
                    v = TRUE if b is TRUE or b is not FALSE and self.decided(cx, hy, b) else \
                        FALSE if b is FALSE or self.decided(cx, hy, not_(b)) else None
                    if v is None:
                        continue
                    if v is (TRUE if kind != "all" else FALSE):
                        r = {"any": TRUE, "all": FALSE}.get(kind, at)
                    elif end == "hi":
                        hi = at
                    else:
                        lo = add(lo, I(1))
                    done = True
                    break
                if r is not None or not done:
                    break
            if r is None and (lo is not t.args[3] or hi is not t.args[4]):
                w = fresh("j")
                r = fold(kind, ex, w, [subst(b, {bvar(t.h): w}) for b in bs], lo, hi)
            if r is not None and r is not t:
                m[t] = r
        if not m:
            return None
        x2, y2 = simp(self.repl(x, m), cx), simp(self.repl(y, m), cx)
        if x2 is x and y2 is y:
            return None
        return x2, y2, [self.repl(h, m) for h in hy]

    nstep = 0

    def stepwise(self, cx, hy, x, y):
        """a running total against a recurrence: induction over the row"""
        if self.nstep >= 2:
            return False
        al = atoms(x, y)
        rs = [t for t in al if t.op == "rec"]
        fs = [t for t in al if t.op == "fold" and t.args[0] in ("sum", "isum")]
        if not rs or not fs:
            return False
        self.nstep += 1
        try:
            ks = {}
            for t in rs:
                for mn, c in aspoly(t.args[2]).items():
                    if len(mn) == 1 and mn[0][1] == 1 and c == 1 and mn[0][0].op in ("var", "param"):
                        ks[mn[0][0].id] = mn[0][0]
            for k in ks.values():
                w = fresh("k")
                memo = {}
                try:
                    x2, y2 = put_outer(x, k, w, memo), put_outer(y, k, w, memo)
                    hy2 = [put_outer(h, k, w, memo) for h in hy]
                except KeyError:
                    continue
                if any(t.op == "rec" and _lincoef(t.args[2], w) != 1 or
                       t.op == "fold" and w in t.fv and (w in t.args[3].fv or _lincoef(t.args[4], w) != 1) for t in atoms(x2, y2)):
                    continue
                if not self.fpeq(cx, x, y):
                    return False
                if self.stepwise_at(Ctx([put_outer(t, k, w, memo) for t in cx.lits]), hy2, x2, y2, w):
                    return True
        finally:
            self.nstep -= 1
        return False

    def stepwise_at(self, cx, hy, x, y, k):
        cand = []
        for t in atoms(x, y):
            if t.op == "fold" and k in t.args[4].fv:
                # first row with something to add
                q = sub(t.args[3], sub(t.args[4], k))
                cand += [q, add(q, I(1))]
        w = fresh("q")
        for t in atoms(x, y):
            if t.op == "rec":
                cand += self.bases(cx, w, k, subst(t.args[0].args[t.args[1]], {bvar(t.args[0].h): add(w, sub(t.args[2], k))}))
        seen = []
        for L in cand:
            if L in seen or k in L.fv or not cx.entails(le(L, k)) or len(seen) > 5:
                continue
            seen.append(L)
            m = {k: L}
            c0 = Ctx([subst(t, m) for t in cx.lits])
            if not self.split_eq(c0, [subst(h, m) for h in hy], self.open_up(subst(x, m), c0, True), self.open_up(subst(y, m), c0, True)):
                continue
            c1 = cx.ext(lt(L, w), le(w, k))
            m, m0 = {k: w}, {k: sub(w, I(1))}
            ih = eq(subst(x, m0), subst(y, m0))
            X, Y = self.open_up(subst(x, m), c1), self.open_up(subst(y, m), c1)
            if self.eq(c1, hy + [ih], X, Y):
                return True
        return False

    def open_up(self, t, cx, whole=False):
        """one step of the recurrences and one row of the totals"""
        m = {}
        for a in atoms(t):
            if a.op == "rec":
                m[a] = simp(unfold_rec(a), cx)
            elif a.op == "fold" and a.args[0] in ("sum", "isum"):
                kind, ex, bs, lo, hi = a.args
                if cx.entails(le(hi, lo)):
                    m[a] = I(0) if kind == "isum" else R(0)
                elif cx.entails(lt(lo, hi)):
                    at = sub(hi, I(1))
                    j = fresh("j")
                    rest = fold(kind, ex, j, [subst(b, {bvar(a.h): j}) for b in bs], lo, at)
                    if whole and cx.entails(le(at, lo)):
                        rest = I(0) if kind == "isum" else R(0)
                    m[a] = add(rest, simp(subst(bs[0], {bvar(a.h): at}), cx))
        return simp(self.repl(t, m), cx) if m else t

    def linked(self, cx, hy, x, y):
        """a recurrence at row i on one side, the same one at row i - 1 on the other: one step of it"""
        ax, ay = atoms(x), atoms(y)
        rx, ry = [t for t in ax if t.op == "rec"], [t for t in ay if t.op == "rec"]
        if not rx or not ry:
            return None
        m = {}
        for v in {t.id: t for t in rx + ry}.values():
            for u in {t.id: t for t in rx + ry}.values():
                if u.sort != v.sort or sub(v.args[2], u.args[2]) is not I(1):
                    continue
                w = rec(u.args[0], u.args[1], v.args[2])
                if w is v or self.fpeq(cx, w, v) and self.atom(cx, hy, w, v):
                    m[v] = simp(unfold_rec(w), cx)
                    break
        if not m:
            return None
        x2, y2 = self.repl(x, m), self.repl(y, m)
        if x2 is x and y2 is y:
            return None
        return x2, y2, [self.repl(h, m) for h in hy]

    def conds(self, x):
        """real conditions outside binders (inside roundings and roots too)"""
        out, seen, todo = [], set(), [x]
        while todo:
            t = todo.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op in ("lt0", "eq0") or t.sort == "B" and t.op in ("uf", "rec", "rdn"):
                out.append(t)
            if t.op in ("fold", "rec", "const", "param", "var", "true", "false"):
                continue
            todo += children(t)
        return out

    def assume(self, t, m, memo):
        r = memo.get(t.id)
        if r is None:
            if t in m:
                r = m[t]
            elif t.op in ("fold", "rec", "const", "param", "var", "true", "false"):
                r = t
            else:
                r = rebuild(t, lambda q: self.assume(q, m, memo))
            memo[t.id] = r
        return r

    def cases(self, cx, hy, x, y):
        if self.ncase >= 10:
            if DEBUG:
                print("    CASES depth", brief(hy)[-DEBUG:], "\n      ", brief(x)[:DEBUG], "\n      ", brief(y)[:DEBUG])
            return False
        cxs, cys = self.conds(x), self.conds(y)
        iy = {t.id for t in cys}
        ix = {t.id for t in cxs}
        al = list({t.id: t for t in cxs + cys}.values())
        if not al:
            if DEBUG:
                print("    CASES none", brief(hy)[-DEBUG:], "\n      ", brief(x)[:DEBUG], "\n      ", brief(y)[:DEBUG])
            return False
        # innermost and shared first
        al.sort(key=lambda t: (len(subterms(t)), -(t.id in ix) - (t.id in iy), t.id))
        c = al[0]
        self.ncase += 1
        try:
            for h in (c, not_(c)):
                hy2 = hy + [h]
                if self.infeasible(cx, hy2):
                    continue
                m = {c: TRUE if h is c else FALSE}
                for t in al[1:]:
                    if self.decided(cx, hy2, t):
                        m[t] = TRUE
                    elif self.decided(cx, hy2, not_(t)):
                        m[t] = FALSE
                memo = {}
                x2, y2 = self.assume(x, m, memo), self.assume(y, m, memo)
                if not self.eq(cx, hy2, x2, y2):
                    return False
            return True
        finally:
            self.ncase -= 1

    def infeasible(self, cx, hy):
        return smt.check(list(cx.lits) + hy, False, 1000) == "unsat"

    def decided(self, cx, hy, t):
        if any(h is t for h in hy):
            return True
        return smt.check(list(cx.lits) + hy + [not_(t)], False, 1000) == "unsat"

    def z3(self, cx, hy, x, y, nl):
        self.stats["z3"] += 1
        g = not_(iff(x, y)) if x.sort == "B" else not_(eq(x, y))
        if g is FALSE:
            return True
        if g is TRUE:
            goals = []
        else:
            goals = [g]
        return smt.check(list(cx.lits) + hy + goals, nl, 1500 if not nl else 2500) == "unsat"

    def merge(self, cx, hy, x, y):
        for rnd_ in range(3):
            ax, ay = atoms(x), atoms(y)
            for h in hy:
                outer_atoms(h, ax, set(t.id for t in ax))
            sx, sy = {t.id for t in ax}, {t.id for t in ay}
            m = {}
            if hy and rnd_ == 0:
                for u in {t.id: t for t in ax + ay}.values():
                    if u.op in ("rnd", "sqrt", "trunc") and self.zero(cx, hy, u.args[-1]):
                        m[u] = R(0)
                ax = [u for u in ax if u not in m]
                ay = [u for u in ay if u not in m]
            todo = [u for u in ay if u.id not in sx]
            for v in todo:
                for u in ax:
                    r = self.relate(cx, hy, u, v)
                    if r is not None:
                        m[v] = r
                        break
            # related atoms within the same side too
            for k, v in enumerate(ax):
                if v in m:
                    continue
                for u in ax[:k]:
                    if u in m or u.op == "rec" and v.op == "rec" and (u.args[0] is v.args[0] or u.sort == "B"):
                        continue
                    r = self.relate(cx, hy, u, v)
                    if r is not None:
                        m[v] = r
                        break
            for v in ax + ay:
                if v in m or v.op != "fold":
                    continue
                for u in ax + ay:
                    if u is v or u in m or u.op != "fold" or u.args[0] != v.args[0] or u.sort != v.sort:
                        continue
                    r = self.longer(cx, hy, u, v)
                    if r is not None:
                        m[v] = r
                        break
            if not m:
                break
            x2, y2 = self.repl(x, m), self.repl(y, m)
            hy = [self.repl(h, m) for h in hy]
            if x2 is x and y2 is y:
                break
            x, y = x2, y2
            if x is y:
                break
        return x, y, hy

    def implications(self, cx, hy, x, y):
        """any(A) => any(B) over the same rows where A => B"""
        al, seen = [], set()
        for t in [x, y] + hy:
            outer_atoms(t, al, seen)
        al = [t for t in al if t.op == "fold" and t.args[0] == "any"]
        out = []
        for u in al:
            for v in al:
                if u is v or u.args[3] is not v.args[3] or u.args[4] is not v.args[4]:
                    continue
                key = ("imp", u.id, v.id)
                r = self.memo.get(key)
                if r is None:
                    w = fresh("q")
                    b1, b2 = subst(u.args[2][0], {bvar(u.h): w}), subst(v.args[2][0], {bvar(v.h): w})
                    r = self.memo[key] = smt.check([b1, not_(b2)], False, 500) == "unsat"
                if r:
                    t = or_(not_(u), v)
                    if not any(h is t for h in hy):
                        out.append(t)
        return out

    def relate(self, cx, hy, u, v):
        """atom v as a term over atom u, or None"""
        if u is v or u.op != v.op or u.sort != v.sort:
            return None
        if u.op != "fold":
            return u if self.fpeq(cx, u, v) and self.atom(cx, hy, u, v) else None
        k, k2 = u.args[0], v.args[0]
        if k == k2 and self.fpeq(cx, u, v) and self.atom(cx, hy, u, v):
            return u
        if (k == k2 == "sum" or {k, k2} == {"max", "min"}) and self.fpeq(cx, u, v, True):
            w = fold_raw(k, v.args[1], (neg(v.args[2][0]),), v.args[3], v.args[4])
            if w.op == "fold" and self.atom(cx, hy, u, w):
                return neg(u)
        if {k, k2} == {"pmax", "pmin"} and self.fpeq(cx, u, v, True):
            w = fold_raw(k, v.args[1], (v.args[2][0], neg(v.args[2][1])), v.args[3], v.args[4])
            if w.op == "fold" and self.atom(cx, hy, u, w):
                return neg(u)
        if {k, k2} == {"first", "last"}:
            return self.mirrored(cx, hy, u, v)
        return None

    def longer(self, cx, hy, u, v):
        """v ranges over at most three rows more than u: v in terms of u"""
        kind = v.args[0]
        if kind not in ("max", "min", "sum", "isum", "any", "all"):
            return None
        lo, hi, lo2, hi2 = u.args[3], u.args[4], v.args[3], v.args[4]
        if lo is lo2:
            d = sub(hi2, hi)
            end = True
        elif hi is hi2:
            d = sub(lo, lo2)
            end = False
        else:
            return None
        if d.op != "const" or not 1 <= d.args[0] <= 3:
            return None
        if not cx.entails(lt(lo, hi)):
            return None
        w = fresh("q")
        b1, b2 = subst(u.args[2][0], {bvar(u.h): w}), subst(v.args[2][0], {bvar(v.h): w})
        if not self.split_eq(cx.ext(le(lo, w), lt(w, hi)), hy, b1, b2):
            return None
        r = u
        for k in range(int(d.args[0])):
            e = subst(v.args[2][0], {bvar(v.h): add(hi, I(k)) if end else sub(lo, I(k + 1))})
            e = simp(e, cx)
            r = {"max": max_, "min": min_, "sum": add, "isum": add, "any": or_, "all": and_}[kind](r, e)
        return r

    def zero(self, cx, hy, a):
        if not any(h.op == "eq0" or h.op == "not" for h in hy):
            return False
        return self.decided(cx, hy, eq0(a))

    def repl(self, t, m):
        memo = {}

        def go(q):
            r = memo.get(q.id)
            if r is None:
                if q in m:
                    r = m[q]
                elif q.op in ("fold", "rec"):
                    r = q
                else:
                    r = rebuild(q, go)
                memo[q.id] = r
            return r
        return go(t)

    # --------------------------------------------------------------- atoms
    def atom(self, cx, hy, u, v):
        if u is v:
            return True
        if u.op != v.op or u.sort != v.sort:
            return False
        key = ("atom", cx.ids, frozenset(h.id for h in hy), u.id, v.id)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = False
            self.depth += 1
            try:
                r = self.depth < 40 and self._atom(cx, hy, u, v)
            finally:
                self.depth -= 1
            self.memo[key] = r
        return r

    def _atom(self, cx, hy, u, v):
        op = u.op
        if op == "rnd":
            return u.args[0] == v.args[0] and self.eq(cx, hy, u.args[1], v.args[1])
        if op in ("sqrt", "inv", "trunc", "itrunc"):
            if self.eq(cx, hy, u.args[0], v.args[0]):
                return True
            return False
        if op == "fold":
            return self.folds(cx, hy, u, v)
        if op == "rec":
            return self.recs(cx, hy, u, v)
        return False

    def folds(self, cx, hy, u, v):
        if self.folds_(cx, hy, u, v):
            return True
        k, _, bs, lo, hi = u.args
        if k == v.args[0] and k in ("sum", "isum", "any", "all", "max", "min") and not self.rank_flip:
            # the same rows taken in opposite order
            self.rank_flip = True
            try:
                b = self.reflected(cx, u, v)
                if b is not None:
                    w, b1, b2 = b
                    return self.split_eq(cx.ext(le(lo, w), lt(w, hi)), hy, b1, b2)
            finally:
                self.rank_flip = False
        return False

    rank_flip = False

    def reflected(self, cx, u, v):
        """(row, body of u there, body of v at the mirrored row) or None"""
        lo, hi, lo2, hi2 = u.args[3], u.args[4], v.args[3], v.args[4]
        if not cx.entails(eq(sub(hi, lo), sub(hi2, lo2))):
            return None
        w = fresh("q")
        m = sub(sub(hi2, I(1)), sub(w, lo))
        return w, subst(u.args[2][0], {bvar(u.h): w}), subst(v.args[2][0], {bvar(v.h): m})

    def mirrored(self, cx, hy, u, v):
        """v (last / first) in terms of u (first / last)"""
        b = self.reflected(cx, u, v)
        if b is None:
            return None
        w, b1, b2 = b
        if not self.split_eq(cx.ext(le(u.args[3], w), lt(w, u.args[4])), hy, b1, b2):
            return None
        return sub(sub(v.args[4], I(1)), sub(u, u.args[3]))

    def folds_(self, cx, hy, u, v):
        k, ex, bs, lo, hi = u.args
        k2, ex2, bs2, lo2, hi2 = v.args
        if k != k2 or len(bs) != len(bs2) or len(ex) != len(ex2):
            return False
        for p, q in zip(ex, ex2):
            if isinstance(p, T):
                if not self.eq(cx, hy, p, q):
                    return False
            elif p != q:
                return False
        w = fresh("q")
        b1 = [subst(b, {bvar(u.h): w}) for b in bs]
        d = sub(lo2, lo)
        if cx.entails(eq(lo, lo2)) and cx.entails(eq(hi, hi2)):
            off = I(0)
        elif k in ("sum", "isum", "max", "min", "any", "all", "pmax", "pmin") and cx.entails(eq(sub(hi2, hi), d)):
            off = d
        elif k in ("sum", "isum", "any") and self.trim(cx, hy, u, v):
            return True
        else:
            return False
        b2 = [subst(b, {bvar(v.h): add(w, off)}) for b in bs2]
        c2 = cx.ext(le(lo, w), lt(w, hi))
        hy2 = hy
        if k in ("pmax", "pmin"):
            if not self.split_eq(c2, hy2, b1[0], b2[0]):
                return False
            return self.split_eq(c2, hy2 + [b1[0]], b1[1], b2[1])
        if k == "ewm":
            if not self.split_eq(c2, hy2, b1[0], b2[0]):
                return False
            return self.split_eq(c2, hy2 + [b1[0]], b1[1], b2[1])
        return all(self.split_eq(c2, hy2, p, q) for p, q in zip(b1, b2))

    def trim(self, cx, hy, u, v):
        """ranges differ where the bodies are neutral"""
        k, _, bs, lo, hi = u.args
        _, _, bs2, lo2, hi2 = v.args
        zero = FALSE if k == "any" else num(0, u.sort)
        w = fresh("q")
        b1, b2 = subst(bs[0], {bvar(u.h): w}), subst(bs2[0], {bvar(v.h): w})
        mlo = lo if cx.entails(le(lo2, lo)) else lo2 if cx.entails(le(lo, lo2)) else None
        mhi = hi if cx.entails(le(hi, hi2)) else hi2 if cx.entails(le(hi2, hi)) else None
        if mlo is None or mhi is None:
            return False
        for b, l, h in ((b1, lo, hi), (b2, lo2, hi2)):
            if l is not mlo and not self.split_eq(cx.ext(le(l, w), lt(w, mlo), lt(w, h)), hy, b, zero):
                return False
            if h is not mhi and not self.split_eq(cx.ext(le(mhi, w), lt(w, h), le(l, w)), hy, b, zero):
                return False
        return self.split_eq(cx.ext(le(mlo, w), lt(w, mhi)), hy, b1, b2)

    # --------------------------------------------------- recurrences, induction
    def recs(self, cx, hy, u, v):
        s, c, i = u.args
        s2, c2, i2 = v.args
        d = sub(i2, i)
        if not (d.op == "const"):
            if cx.entails(eq(i, i2)):
                d = I(0)
            elif d.fv:
                return False
        w = fresh("q")
        B = [subst(b, {bvar(s.h): w}) for b in s.args]
        B2 = [subst(b, {bvar(s2.h): add(w, d)}) for b in s2.args]
        for L in self.bases(cx, w, i, B[c], B2[c2]):
            if self.induct(cx, hy, w, i, d, L, (s, B, c), (s2, B2, c2)):
                return True
        return False

    def bases(self, cx, w, i, *bodies):
        """candidate first rows of an induction"""
        cand = [I(0)]
        for b in bodies:
            out = []
            int_conds(b, out, set())
            for t in out:
                k = _lincoef(t.args[0], w)
                if k in (1, -1):
                    q = sub(t.args[0], w) if k == 1 else add(t.args[0], w)
                    th = neg(q) if k == 1 else q
                    if w in th.fv:
                        continue
                    cand += [th, add(th, I(1))]
        out = []
        for x in cand:
            if x not in out and cx.entails(le(x, i)) and cx.entails(le(I(0), x)):
                out.append(x)
        return out[:6]

    def induct(self, cx, hy, w, i, d, L, A, A2):
        s, B, c0 = A
        s2, B2, c02 = A2
        todo = [(c0, c02)]
        match = {c0: (c02, False)}
        done = set()
        _ihn[0] += 1
        tag = "ih%d" % _ihn[0]
        cbase = cx.ext(eq(w, L))
        cstep = cx.ext(lt(L, w), le(w, i))
        zero_ok = cx.entails(le(I(0), L))
        while todo:
            c, c2 = todo.pop()
            if (c, c2) in done:
                continue
            done.add((c, c2))
            ng = match[c][1]
            # base: no earlier row may be looked at
            x, y = simp(subst(B[c], {w: L}), cx), simp(subst(B2[c2], {w: L}), cx)
            if ng:
                y = not_(y)
            if has_self(x) or has_self(y):
                return False
            if not self.split_eq(cx, hy, x, y):
                return False
            x, y = simp(B[c], cstep), simp(B2[c2], cstep)
            need1, need2 = _selfs(x), _selfs(y)
            for t, dd in [(t, I(0)) for t in need1] + [(t, d) for t in need2]:
                e = sub(t.args[1], dd)
                if not (cstep.entails(le(L, e)) and cstep.entails(lt(e, w))):
                    return False
            n1, n2 = {t.args[0] for t in need1}, {t.args[0] for t in need2}
            for a in sorted(n1):
                if a in match:
                    continue
                used = {b for b, _ in match.values()}
                free = [b for b in sorted(n2) if b not in used] + [b for b in range(len(B2)) if b not in used and b not in n2]
                free = [b for b in free if s2.args[b].sort == s.args[a].sort]
                ra = rec(s, a, i)
                for b in free:
                    rb = rec(s2, b, add(i, d))
                    hit = None
                    if self.fpeq(cx, ra, rb):
                        hit = False
                    elif rb.sort == "B" and self.fpeq(cx, ra, not_(rb)):
                        hit = True
                    if hit is not None:
                        match[a] = (b, hit)
                        todo.append((a, b))
                        break
            inv_ = {b: (a, g) for a, (b, g) in match.items()}

            def f1(cc, e, so):
                return uf("%s_%d" % (tag, cc), (e,), so) if cc in match else uf("%s_l%d" % (tag, cc), (e,), so)

            def f2(cc, e, so):
                if cc in inv_:
                    r = uf("%s_%d" % (tag, inv_[cc][0]), (sub(e, d),), so)
                    return not_(r) if inv_[cc][1] else r
                return uf("%s_r%d" % (tag, cc), (e,), so)
            facts = []
            if zero_ok:
                for t in need1:
                    e = replace_self(t.args[1], f1, {})
                    facts += _inv_facts(t.args[0], INV.get(s.id, {}), e, f1(t.args[0], e, t.sort))
            x, y = replace_self(x, f1, {}), replace_self(y, f2, {})
            if ng:
                y = not_(y)
            if not self.split_eq(cstep.ext(*[f for f in facts if int_only(f)]), hy, x, y):
                if DEBUG:
                    print("    INDUCT step fails", c, c2, match, facts, "\n      ", brief(x)[:DEBUG], "\n      ", brief(y)[:DEBUG])
                return False
        return True

    # ------------------------------------------------------------ arithmetic
    def sum_zero(self, cx, hy, d):
        """a linear combination of sums whose combined body is zero pointwise
        (every sum widened to a common range)"""
        items, rest = [], {}
        for m, c in aspoly(d).items():
            fs = [(a, e) for a, e in m if a.op == "fold" and a.args[0] == "sum"]
            if len(fs) == 1 and fs[0][1] == 1:
                f = fs[0][0]
                items.append((mkpoly({tuple(x for x in m if x[0] is not f): c}, "R"), f))
            else:
                rest[m] = c
        if rest or len(items) < 2:
            return False
        lo, hi = items[0][1].args[3:]
        for k, f in items[1:]:
            if f.args[3] is not lo and not cx.entails(le(lo, f.args[3])):
                if not cx.entails(le(f.args[3], lo)):
                    return False
                lo = f.args[3]
            if f.args[4] is not hi and not cx.entails(le(f.args[4], hi)):
                if not cx.entails(le(hi, f.args[4])):
                    return False
                hi = f.args[4]
        w = fresh("q")
        b = R(0)
        for k, f in items:
            x = mul(k, subst(f.args[2][0], {bvar(f.h): w}))
            if f.args[3] is not lo:
                x = ite(le(f.args[3], w), x, R(0))
            if f.args[4] is not hi:
                x = ite(lt(w, f.args[4]), x, R(0))
            b = add(b, x)
        return self.split_eq(cx.ext(le(lo, w), lt(w, hi)), hy, b, R(0))

    def clear(self, cx, hy, d, depth):
        """d = 0 by clearing reciprocals (zero / non-zero denominators apart)"""
        self.tick()
        if d is R(0):
            return True
        if depth > 8 or d.op == "ite":
            return False
        invs = []
        for m, c in aspoly(d).items():
            for a, e in m:
                if a.op == "inv" and a not in invs:
                    invs.append(a)
        if not invs:
            return depth > 0 and (self.z3(cx, hy, d, R(0), False) or self.z3(cx, hy, d, R(0), True))
        q = max(invs, key=lambda t: len(subterms(t)))
        p = q.args[0]
        zero = eq0(p)
        nz = not_(zero)
        # denominator zero
        if zero is not FALSE and not any(h is nz for h in hy):
            m0 = {q: R(0)}
            d0 = self.repl(d, m0)
            if d0 is not R(0) and smt.check(list(cx.lits) + hy + [zero], False, 1000) != "unsat" \
                    and smt.check(list(cx.lits) + hy + [zero], True, 1500) != "unsat" \
                    and not self.clear(cx, hy + [zero], d0, depth + 1):
                return False
        # denominator not zero: multiply by p^k
        k = max(e for m, c in aspoly(d).items() for a, e in m if a is q)
        acc = R(0)
        for m, c in aspoly(d).items():
            e = dict(m).get(q, 0)
            rest = mkpoly({tuple(x for x in m if x[0] is not q): c}, "R")
            acc = add(acc, mul(rest, power(p, k - e)))
        return self.clear(cx, hy + ([nz] if nz is not TRUE else []), acc, depth + 1)

    # ----------------------------------------------------------- fingerprints
    def fpeq(self, cx, u, v, negated=False):
        """False when u and v differ on a sampled point of the context"""
        for E, env in self.points(cx):
            try:
                if E.ev(u, env) != (-E.ev(v, env) if negated else E.ev(v, env)):
                    return False
            except (Unstable, KeyError, ZeroDivisionError, OverflowError, RecursionError):
                continue
        return True

    def points(self, cx):
        r = self.fp.get(cx.ids)
        if r is None:
            r = self.fp[cx.ids] = sample_points(cx, self.rng, 3)
        return r


def sample_points(cx, rng, count, sizes=(12, 60, 400)):
    """concrete integer assignments satisfying the context, with random data"""
    from .cases import data
    out = []
    vs = {}
    for t in cx.lits:
        for x in subterms(t).values():
            if x.op in ("param", "var") and x.sort == "I":
                vs[x.id] = x
    n = param("n", "I")
    vs[n.id] = n
    lits = list(cx.lits)
    for t, k in smt.declared():
        vs[t.id] = t
        lits.append(le(I(k), t))
    low = {k: smt.OPAQUE.low(x) for k, x in vs.items()}
    for rep in range(count):
        m = None
        for b in sizes:
            s = z3.Solver()
            s.set("timeout", 500)
            for t in lits:
                s.add(smt.OPAQUE.low(t))
            for z in low.values():
                s.add(z <= b, z >= -b)
            if s.check() != z3.sat:
                continue
            m = s.model()
            order = list(low.values())
            rng.shuffle(order)
            for z in order:
                v = rng.randint(0, max(2, b // 2))
                s.push()
                s.add(z >= v if rng.random() < 0.7 else z == v)
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
            break
        if m is None:
            break
        env, ps, ufv = {}, {}, []
        for k, x in vs.items():
            v = m.eval(low[k], model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else 0
            if x.op == "param":
                ps[x.args[0]] = v
            elif x.op == "var":
                env[x] = v
            else:
                ufv.append((x, v))
        nn = max(1, ps.get("n", 10), ps.get("i", 0) + ps.get("rest", 0) + 1)
        d = data(rng, nn, ["open", "high", "low", "close", "volume"], strict=rng.random() < 0.5)
        E = Ev(Defaults(ps, rng), DefArr(rng, nn, "val", {"in_" + c: x for c, x in d.items()}),
               DefArr(rng, nn, "nan"), DefArr(rng, nn, "inf"), UFs(rng), strict=True)
        for x, v in ufv:
            try:
                E.ufs.tab[(x.args[0], tuple(E.ev(y, env) for y in x.args[1:]))] = v
            except Exception:
                pass
        out.append((E, env))
    return out


class Defaults(dict):
    """unassigned real parameters take small random values"""

    def __init__(self, d, rng):
        dict.__init__(self, d)
        self.rng = rng

    def integer(self, t):
        v = self[t.args[0]] = self.rng.randint(1, 8)
        return v

    def __missing__(self, k):
        v = self[k] = Fraction(self.rng.randint(1, 8), 8)
        return v


class DefArr(dict):
    def __init__(self, rng, n, what, d=None):
        dict.__init__(self, d or {})
        self.rng, self.n, self.what = rng, n, what

    def get(self, k, default=None):
        if k not in self:
            if self.what == "nan":
                self[k] = [self.rng.random() < 0.2 for _ in range(self.n)]
            elif self.what == "inf":
                self[k] = [0] * self.n
            else:
                self[k] = [Fraction(self.rng.randint(-400, 400), 4) for _ in range(self.n)]
        return dict.get(self, k)


class UFs(dict):
    def __init__(self, rng):
        self.rng = rng
        self.tab = {}

    def get(self, name, default=None):
        def f(*args):
            k = (name, args)
            if k not in self.tab:
                self.tab[k] = Fraction(hash(k) % 1000, 4)
            return self.tab[k]
        return f
