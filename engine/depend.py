"""Dependency analysis of terms (a sound syntactic non-interference check).

`later(t, cx, k)` lists what in t may depend on input rows after row k or on
the number of rows, given the integer facts in cx (which mention n only through
k < n).  An empty list means: two inputs that agree on rows up to k and both
satisfy cx give t the same value."""
from .terms import *
from .prover import Ctx, simp, int_only, int_conds

N = param("n", "I")


def mentions_n(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = t is N or any(mentions_n(x) for x in children(t))
        memo[t.id] = r
    return r


class Dep:
    def __init__(self, k, prefixes=("in_",)):
        self.k, self.memo, self.bad = k, set(), []
        self.selfrefs = []
        self.prefixes = prefixes

    def go(self, t, cx):
        if t.op in ("const", "true", "false", "var"):
            return
        if t.op == "param":
            if t is N:
                self.bad.append(("row count", t))
            return
        key = (t.id, cx.ids)
        if key in self.memo:
            return
        self.memo.add(key)
        op, a = t.op, t.args
        if t.sort == "B" and int_only(t) and mentions_n(t):
            if cx.dec(t) is not None:
                return
        if op == "ite":
            c = a[0]
            d = cx.dec(c) if int_only(c) else None
            if d is not None:
                return self.go(a[1] if d else a[2], cx)
            self.go(c, cx)
            i = int_only(c)
            self.go(a[1], cx.ext(c) if i else cx)
            self.go(a[2], cx.ext(not_(c)) if i else cx)
            return
        if op in ("and", "or"):
            ints = [x for x in a if int_only(x)]
            for x in a:
                ctx = cx
                for y in ints:
                    # an operand only matters where the others do not settle it;
                    # order: integer operands guard the others and, among
                    # themselves, earlier ones guard later ones
                    if y is x:
                        if int_only(x):
                            break
                        continue
                    ctx = ctx.ext(y if op == "and" else not_(y))
                self.go(x, ctx)
            return
        if op in ("rd", "rdn", "rdi"):
            self.go(a[1], cx)
            if not cx.entails(le(a[1], self.k)):
                self.bad.append(("later row", t))
            return
        if op == "fold":
            kind, extra, bodies, lo, hi = a
            self.go(lo, cx)
            self.go(hi, cx)
            w = fresh("j")
            v = bvar(t.h)
            c2 = cx.ext(le(lo, w), lt(w, hi))
            for b in bodies:
                self.go(subst(b, {v: w}), c2)
            for x in extra:
                if isinstance(x, T):
                    self.go(x, cx)
            return
        if op == "rec":
            s, c, idx = a
            self.go(idx, cx)
            self.sys(s, idx, cx)
            return
        if op == "self":
            self.selfrefs.append((a[1], cx))
            self.go(a[1], cx)
            return
        for x in children(t):
            self.go(x, cx)

    def sys(self, s, idx, cx):
        key = ("sys", s.id, idx.id, cx.ids)
        if key in self.memo:
            return
        self.memo.add(key)
        w = fresh("j")
        v = bvar(s.h)
        bodies = [subst(b, {v: w}) for b in s.args]
        # rows a reference can reach: at most idx, and not below a row from
        # which the definition is closed
        facts = [le(w, idx)]
        for b in starts(bodies, w):
            if not cx.entails(le(b, idx)):
                continue
            if self.closed(bodies, w, b, cx.ext(*facts)):
                facts.append(le(b, w))
        c2 = cx.ext(*facts)
        for b in bodies:
            saved, self.selfrefs = self.selfrefs, []
            self.go(b, c2)
            mine, self.selfrefs = self.selfrefs, saved
            for x, c in mine:
                if not c.entails(lt(x, w)):
                    self.bad.append(("recurrence refers ahead", x))

    def closed(self, bodies, w, lb, cx):
        """every reference made at a row >= lb goes to a row >= lb"""
        d = Dep(self.k)
        c2 = cx.ext(le(lb, w))
        for b in bodies:
            d.go(b, c2)
        return all(c.entails(le(lb, x)) for x, c in d.selfrefs)


def starts(bodies, w):
    """rows at which the bodies' integer conditions change"""
    out, seen, todo = [], set(), list(bodies)
    while todo:
        t = todo.pop()
        if t.id in seen or t.op in ("fold", "sys"):
            continue
        seen.add(t.id)
        if t.op in ("ile0", "ieq0") and w in t.fv:
            p = t.args[0]
            for c in (1, -1):
                b = sub(scale(c, w), scale(c, p)) if False else (sub(w, p) if c == 1 else add(w, p))
                if w not in b.fv:
                    out += [b, add(b, I(1)), sub(b, I(1))]
        todo += children(t)
    res = []
    for b in out:
        if b not in res:
            res.append(b)
    return res[:12]


def later(ts, cx, k):
    d = Dep(k)
    for t in ts:
        d.go(t, cx)
    return d.bad


def cell_later(c, cx, k, depth=0):
    """a cell: infinity and value only matter where it is not missing"""
    if cx.inconsistent():
        return []
    nan = simp(c.nan, cx)
    if nan is TRUE:
        return []
    conds = []
    int_conds(nan, conds, set())
    if conds and depth < 8:
        x = min(conds, key=lambda t: t.id)
        return later([x], cx, k) + cell_later(c, cx.ext(x), k, depth + 1) + cell_later(c, cx.ext(not_(x)), k, depth + 1)
    return later([nan, simp(c.inf, cx), simp(c.val, cx)], cx, k)
