"""Hash-consed term language of the verifier.

Sorts: 'B' (bool), 'I' (mathematical integer), 'R' (mathematical real).
Integers and reals are kept in polynomial normal form over atoms.  `inv(x)` is
the total reciprocal with inv(0) = 0.  Binders (folds and recurrences) use
height-canonical bound variables so that equal bodies are equal terms.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(100000)

_table = {}
_next = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "h", "_hash")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool")


def _fv_of(a, acc):
    if isinstance(a, T):
        acc |= a.fv
        return a.h
    if isinstance(a, tuple):
        h = 0
        for x in a:
            h = max(h, _fv_of(x, acc))
        return h
    return 0


def _key(a):
    if isinstance(a, T):
        return ("t", a.id)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, args, sort):
    k = (op, sort, _key(args))
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.id = _next[0]
    _next[0] += 1
    acc = set()
    h = _fv_of(args, acc)
    if op == "var":
        acc = {t}
    elif op == "fold":
        h += 1
        acc.discard(bvar(h))
    elif op == "sys":
        h += 1
        acc.discard(bvar(h))
    t.fv = frozenset(acc)
    t.h = h
    _table[k] = t
    return t


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
_fresh = [0]


def var(name, sort="I"):
    return mk("var", (name,), sort)


def bvar(h):
    return mk_bvar(h)


def mk_bvar(h):
    k = ("var", "I", (("str", "$%d" % h),))
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = "var", ("$%d" % h,), "I"
        t.id = _next[0]
        _next[0] += 1
        t.fv = frozenset([t])
        t.h = 0
        _table[k] = t
    return t


def fresh(base="v", sort="I"):
    _fresh[0] += 1
    return var("%s!%d" % (base, _fresh[0]), sort)


def param(name, sort):
    """A global constant symbol (n, period, ...)."""
    return mk("param", (name,), sort)


# ------------------------------------------------------------------ polynomials
def num(c, sort):
    c = Fraction(c)
    if sort == "I":
        assert c.denominator == 1, c
    return mk("const", (c,), sort)


def I(c):
    return num(c, "I")


def R(c):
    if isinstance(c, float):
        c = lit(c)
    return num(c, "R")


def lit(f):
    """The real number a decimal literal denotes (0.1 is one tenth)."""
    return Fraction(repr(f))


# atoms known to be non-zero (declared by the precondition)
_nonzero_ops = set()
_nonzero_atoms = set()
_pos_arrays = set()


def declare_nonzero(t):
    _nonzero_atoms.add(t.id)


def declare_positive_array(name):
    _pos_arrays.add(name)


_order = {}      # (a, b) -> strict:  array a >= b (> if strict) elementwise


def declare_order(a, b, strict=False):
    _order[(a, b)] = strict


def order_sign(p):
    """1 / 0 if the polynomial c*(x(i) - y(i)) is > 0 / >= 0, -1 / -2 if it is
    < 0 / <= 0 by a declared array order, else None"""
    if p.op != "poly" or len(p.args) != 2:
        return None
    (m1, c1), (m2, c2) = p.args
    if len(m1) != 1 or len(m2) != 1 or c1 != -c2 or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    x, y = m1[0][0], m2[0][0]
    if x.op != "rd" or y.op != "rd" or x.args[1] is not y.args[1]:
        return None
    if c1 < 0:
        x, y = y, x
    k = _order.get((x.args[0], y.args[0]))
    if k is not None:
        return 1 if k else 0
    k = _order.get((y.args[0], x.args[0]))
    if k is not None:
        return -1 if k else -2
    return None


def known_nonzero(a):
    if a.id in _nonzero_atoms:
        return True
    if a.op == "rd" and a.args[0] in _pos_arrays:
        return True
    if a.op == "toreal":
        if a.args[0].id in _nonzero_atoms:
            return True
        lo, hi = _bounds(a.args[0])
        return lo is not None and lo > 0 or hi is not None and hi < 0
    if a.op == "inv":
        return known_nonzero_poly(a.args[0])
    return False


def known_nonzero_poly(p):
    if p.op == "const":
        return p.args[0] != 0
    if p.op == "poly":
        if len(p.args) == 1:
            return all(known_nonzero(a) for a, _ in p.args[0][0])
        if p.id in _nonzero_atoms or order_sign(p) in (1, -1):
            return True
        lo, hi = _real_bounds(p)
        return lo is not None and lo > 0 or hi is not None and hi < 0
    return known_nonzero(p)


def aspoly(t):
    """dict: mono -> coefficient; mono is a tuple of (atom, exponent)."""
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def mkpoly(d, sort):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return num(0, sort)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=_monokey)
    return mk("poly", tuple(items), sort)


def _monokey(mc):
    m = mc[0]
    return (len(m), tuple((a.id, e) for a, e in m))


def _monomul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # cancel x * inv(x) when x is known non-zero
    for a in list(d):
        if a.op == "inv" and a in d:
            b = a.args[0]
            if b.op not in ("const", "poly") and b in d and known_nonzero(b):
                k = min(d[a], d[b])
                d[a] -= k
                d[b] -= k
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def add(*ts):
    sort = ts[0].sort
    d = {}
    for t in ts:
        assert t.sort == sort, (sort, t.sort, ts)
        for m, c in aspoly(t).items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d, sort)


def scale(c, t):
    c = Fraction(c)
    if c == 0:
        return num(0, t.sort)
    return mkpoly({m: k * c for m, k in aspoly(t).items()}, t.sort)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _cancel_poly_inv(d):
    return d


def mul(a, b):
    assert a.sort == b.sort, (a, b)
    if a.op == "const":
        return scale(a.args[0], b)
    if b.op == "const":
        return scale(b.args[0], a)
    # x * inv(x) for a declared-nonzero polynomial x
    pa, pb = aspoly(a), aspoly(b)
    for x, y, py in ((a, b, pb), (b, a, pa)):
        if x.op == "poly" and x.id in _nonzero_atoms and len(py) == 1:
            (m, c), = py.items()
            for at, e in m:
                if at.op == "inv" and at.args[0] is x:
                    rest = tuple((q, w if q is not at else w - 1) for q, w in m if q is not at or w > 1)
                    return mkpoly({rest: c}, a.sort)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _monomul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d, a.sort)


def power(a, k):
    r = num(1, a.sort)
    for _ in range(k):
        r = mul(r, a)
    return r


def inv(t):
    """Total reciprocal on reals, inv(0)=0."""
    assert t.sort == "R"
    if t.op == "const":
        return t if t.args[0] == 0 else R(1 / t.args[0])
    if t.op == "inv":
        return t.args[0]
    if t.op == "poly":
        if len(t.args) == 1:
            m, c = t.args[0]
            r = R(1 / c)
            for a, e in m:
                ia = inv(a)
                for _ in range(e):
                    r = mul(r, ia)
            return r
        lead = t.args[0][1]
        lead = lead if lead > 0 else lead
        if lead != 1:
            if t.id in _nonzero_atoms:
                q = scale(1 / lead, t)
                _nonzero_atoms.add(q.id)
            return scale(1 / lead, inv(scale(1 / lead, t)))
        return mk("inv", (t,), "R")
    return mk("inv", (t,), "R")


def div(a, b):
    return mul(a, inv(b))


def toreal(t):
    assert t.sort == "I"
    if t.op == "const":
        return R(t.args[0])
    if t.op == "poly":
        r = R(0)
        for m, c in t.args:
            p = R(c)
            for a, e in m:
                for _ in range(e):
                    p = mul(p, toreal(a))
            r = add(r, p)
        if t.id in _nonzero_atoms:
            _nonzero_atoms.add(r.id)
        return r
    if t.op == "ite":
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    if t.op == "fold" and t.args[0] == "isum":
        return fold_raw("sum", t.args[1], (toreal(t.args[2][0]),), t.args[3], t.args[4])
    return mk("toreal", (t,), "R")


# ---------------------------------------------------------------------- booleans
def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "and":
        return or_(*[not_(x) for x in b.args])
    if b.op == "or":
        return and_(*[not_(x) for x in b.args])
    if b.op == "ile0":  # p <= 0  ->  p >= 1
        return ile0(sub(I(1), b.args[0]))
    if b.op == "ite":
        return ite(b.args[0], not_(b.args[1]), not_(b.args[2]))
    return mk("not", (b,), "B")


def _nary(op, unit, zero, bs):
    flat = []
    seen = set()
    for b in bs:
        for x in (b.args if b.op == op else (b,)):
            if x is unit or x.id in seen:
                continue
            if x is zero:
                return zero
            seen.add(x.id)
            flat.append(x)
    for x in flat:
        nx = not_(x) if x.op not in ("and", "or") else None
        if nx is not None and nx.id in seen:
            return zero
    if len(flat) > 1:
        flat = _signs(op, flat)
        if flat is None:
            return zero
    if not flat:
        return unit
    if len(flat) == 1:
        return flat[0]
    flat.sort(key=lambda x: x.id)
    return mk(op, tuple(flat), "B")


_sgkey = {}


def _sign_lit(x):
    """literal about the sign of a real term: (key term, allowed signs)"""
    r = _sgkey.get(x.id)
    if r is None:
        y, ng = (x.args[0], True) if x.op == "not" else (x, False)
        r = ()
        if y.op in ("lt0", "eq0"):
            p = y.args[0]
            c = p.args[0][1] if p.op == "poly" else Fraction(1)
            q = scale(1 / c, p) if c != 1 else p
            if y.op == "eq0":
                sg = frozenset((0,))
            else:
                sg = frozenset((-1,)) if c > 0 else frozenset((1,))
            if ng:
                sg = frozenset((-1, 0, 1)) - sg
            r = (q, sg)
        _sgkey[x.id] = r
    return r


_ALLS = frozenset((-1, 0, 1))


def _signs(op, flat):
    """literals about the sign of one term combined; None = contradiction
    (and) / tautology (or)"""
    g = {}
    for x in flat:
        k = _sign_lit(x)
        if k:
            g.setdefault(k[0].id, []).append((x, k))
    if all(len(v) < 2 for v in g.values()):
        return flat
    out = [x for x in flat if not _sign_lit(x) or len(g[_sign_lit(x)[0].id]) < 2]
    have = {x.id for x in out}
    for v in g.values():
        if len(v) < 2:
            continue
        q = v[0][1][0]
        sg = v[0][1][1]
        for _, (_, s2) in v[1:]:
            sg = sg & s2 if op == "and" else sg | s2
        if (not sg) if op == "and" else sg == _ALLS:
            return None
        r = _sign_term(q, sg)
        if r is (TRUE if op == "and" else FALSE):
            continue
        if r is (FALSE if op == "and" else TRUE):
            return None
        for y in (r.args if r.op == op else (r,)):
            if y.id not in have:
                have.add(y.id)
                out.append(y)
    return out


def _sign_term(q, sg):
    if sg == {-1}:
        return lt0(q)
    if sg == {1}:
        return lt0(neg(q))
    if sg == {0}:
        return eq0(q)
    if sg == {-1, 0}:
        return not_(lt0(neg(q)))
    if sg == {0, 1}:
        return not_(lt0(q))
    if sg == {-1, 1}:
        return not_(eq0(q))
    return TRUE if sg else FALSE


def and_(*bs):
    return _nary("and", TRUE, FALSE, bs)


def or_(*bs):
    return _nary("or", FALSE, TRUE, bs)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return and_(implies(a, b), implies(b, a))


def _content(p):
    """positive scaling so that the first coefficient is +-1"""
    c = None
    if p.op == "poly":
        for m, k in p.args:
            if m != ():
                c = k
                break
    return abs(c) if c else Fraction(1)


_pos_atoms = set()


def declare_pos(t):
    """declared precondition: real symbol t > 0"""
    _pos_atoms.add(t.id)
    _nonzero_atoms.add(t.id)


def _strip_pos(p):
    """p without the declared positive symbols every monomial has in common"""
    if p.op != "poly":
        return p
    com = None
    for m, c in p.args:
        e = {a: k for a, k in m if a.id in _pos_atoms or a.op == "inv" and a.args[0].id in _pos_atoms}
        com = e if com is None else {a: min(k, e[a]) for a, k in com.items() if a in e}
        if not com:
            return p
    d = {}
    for m, c in p.args:
        r = tuple((a, k - com.get(a, 0)) for a, k in m if k > com.get(a, 0))
        d[r] = d.get(r, 0) + c
    return mkpoly(d, "R")


def lt0(p):
    """p < 0 over the reals"""
    if _pos_atoms:
        p = _strip_pos(p)
    if p.op == "const":
        return TRUE if p.args[0] < 0 else FALSE
    c = _content(p)
    if c != 1:
        p = scale(1 / c, p)
    if p.op == "poly" and len(p.args) == 1:
        m, k = p.args[0]
        if all(_known_pos(a) for a, _ in m):
            return TRUE if k < 0 else FALSE
    elif _known_pos(p):
        return FALSE
    o = order_sign(p)
    if o in (0, 1):
        return FALSE
    if o == -1:
        return TRUE
    return mk("lt0", (p,), "B")


def _known_pos(a):
    if a.id in _pos_atoms:
        return True
    return a.op == "rd" and a.args[0] in _pos_arrays


def eq0(p):
    if _pos_atoms and p.sort == "R":
        p = _strip_pos(p)
    if p.op == "const":
        return TRUE if p.args[0] == 0 else FALSE
    if known_nonzero_poly(p):
        return FALSE
    if p.op == "poly":
        c = p.args[0][1]
        if p.args[0][0] == () and len(p.args) > 1:
            c = p.args[1][1]
        if c != 1:
            p = scale(1 / c, p)
        if len(p.args) == 1 and p.op == "poly":
            return or_(*[eq0(a) for a, _ in p.args[0][0]])
    if p.op == "inv":
        return eq0(p.args[0])
    return mk("eq0", (p,), "B")


_lb = {}
_lb_terms = {}


def declare_lb(t, k):
    """declared precondition: integer symbol t >= k"""
    _lb[t.id] = k
    _lb_terms[t.id] = t


def _bounds(p):
    """(lower, upper) of an integer polynomial from declared lower bounds"""
    lo = hi = Fraction(0)
    for m, c in aspoly(p).items():
        if m == ():
            if lo is not None:
                lo += c
            if hi is not None:
                hi += c
            continue
        b = None
        if len(m) == 1 and m[0][1] == 1:
            b = _lb.get(m[0][0].id)
        if b is None:
            return None, None
        if c > 0:
            hi = None
            if lo is not None:
                lo += c * b
        else:
            lo = None
            if hi is not None:
                hi += c * b
    return lo, hi


def _real_bounds(p):
    """bounds of a real polynomial over embedded integers with declared lower
    bounds (each shifted to its bound, then read off the signs)"""
    if len(p.args) > 12:
        return None, None
    sh = {}
    for m, c in p.args:
        for a, e in m:
            if a.op != "toreal" or a.args[0].id not in _lb or e > 4:
                return None, None
            sh[a] = _lb[a.args[0].id]
    d = {}
    for m, c in p.args:
        q = {(): c}
        for a, e in m:
            for _ in range(e):
                r = {}
                for m2, c2 in q.items():
                    m3 = _monomul(m2, ((a, 1),))
                    r[m3] = r.get(m3, 0) + c2
                    r[m2] = r.get(m2, 0) + c2 * sh[a]
                q = r
        for m2, c2 in q.items():
            d[m2] = d.get(m2, 0) + c2
    c0 = d.pop((), 0)
    pos = all(c >= 0 for c in d.values())
    neg_ = all(c <= 0 for c in d.values())
    return (c0 if pos else None), (c0 if neg_ else None)


def ile0(p):
    """p <= 0 over the integers"""
    if p.op == "const":
        return TRUE if p.args[0] <= 0 else FALSE
    lo, hi = _bounds(p)
    if lo is not None and lo > 0:
        return FALSE
    if hi is not None and hi <= 0:
        return TRUE
    if p.op == "poly":
        from math import gcd
        g = 0
        for m, c in p.args:
            if m != ():
                g = gcd(g, abs(int(c)))
        if g > 1:
            d = {m: c / g for m, c in p.args if m != ()}
            c0 = dict(p.args).get((), Fraction(0))
            if c0:
                # g*q + c0 <= 0  <=>  q <= floor(-c0/g)
                d[()] = Fraction(-((-int(c0)) // g))
            p = mkpoly(d, "I")
    return mk("ile0", (p,), "B")


def le(a, b):
    if a.sort == "I":
        return ile0(sub(a, b))
    return not_(lt0(sub(b, a)))


def lt(a, b):
    if a.sort == "I":
        return ile0(add(sub(a, b), I(1)))
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        return iff(a, b)
    if a.sort == "I":
        p = sub(a, b)
        if p.op == "const":
            return TRUE if p.args[0] == 0 else FALSE
        if p.op == "poly":
            for m, c in p.args:
                if m != ():
                    if c < 0:
                        p = neg(p)
                    break
            nonc = [c for m, c in p.args if m != ()] if p.op == "poly" else [Fraction(1)]
            c0 = dict(p.args).get((), Fraction(0)) if p.op == "poly" else 0
            from math import gcd
            g = 0
            for c in nonc:
                g = gcd(g, abs(int(c)))
            if g > 1:
                if int(c0) % g:
                    return FALSE
                p = mkpoly({m: c / g for m, c in p.args}, "I")
        lo, hi = _bounds(p)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return FALSE
        return mk("ieq0", (p,), "B")
    return eq0(sub(a, b))


def ite(c, a, b):
    assert a.sort == b.sort, (a, b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == "B":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if a.op == "ite" and a.args[0] is c:
            a = a.args[1]
        if b.op == "ite" and b.args[0] is c:
            b = b.args[2]
        if a is b:
            return a
        if c.op == "not":
            return mk("ite", (c.args[0], b, a), "B")
        return mk("ite", (c, a, b), "B")
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "or":
        c, a, b = not_(c), b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, ite(d, x, b), b) -> ite(c and d, x, b)
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if c.op == "and":
        # keep conjunctions as they are; canonical orientation only
        return mk("ite", (c, a, b), a.sort)
    if c.op == "ile0":
        # orientation: prefer the literal with the smaller id
        n = not_(c)
        if n.id < c.id:
            return mk("ite", (n, b, a), a.sort)
    return mk("ite", (c, a, b), a.sort)


def max_(a, b):
    return ite(lt(a, b), b, a)


def min_(a, b):
    return ite(lt(b, a), b, a)


def abs_(a):
    if a.sort == "R":
        return ite(lt0(a), neg(a), a)
    return ite(lt(a, I(0)), neg(a), a)


def rnd(k, x):
    """round half to even to k decimals (k concrete)"""
    if x.op == "const":
        return R(round(x.args[0], k))
    if x.op == "rnd" and x.args[0] <= k:
        return x
    if x.op == "ite":
        return ite(x.args[0], rnd(k, x.args[1]), rnd(k, x.args[2]))
    return mk("rnd", (k, x), "R")


def trunc(x):
    """truncation of a real towards zero, as a real"""
    if x.op == "const":
        v = x.args[0]
        return R(int(v))
    if x.op == "trunc":
        return x
    return mk("trunc", (x,), "R")


def itrunc(x):
    """int(x) of a real"""
    if x.op == "const":
        return I(int(x.args[0]))
    if x.op == "toreal":
        return x.args[0]
    # int(p/2)-like with integral numerator handled by floordiv at the caller
    if x.op == "poly":
        from math import lcm
        L = 1
        ok = True
        for m, c in x.args:
            for a, e in m:
                if a.op != "toreal":
                    ok = False
            L = lcm(L, c.denominator)
        if ok:
            p = I(0)
            for m, c in x.args:
                q = I(int(c * L))
                for a, e in m:
                    for _ in range(e):
                        q = mul(q, a.args[0])
                p = add(p, q)
            # truncation of p / L
            return ite(lt(p, I(0)), neg(idiv(neg(p), L)), idiv(p, L))
    return mk("itrunc", (x,), "I")


def idiv(a, k):
    """floor division of an integer by a positive concrete integer"""
    if k == 1:
        return a
    if a.op == "const":
        return I(int(a.args[0]) // k)
    if a.op == "poly" and all(int(c) % k == 0 for _, c in a.args):
        return mkpoly({m: c / k for m, c in a.args}, "I")
    return mk("idiv", (a, k), "I")


def sqrt(x):
    if x.op == "const":
        v = x.args[0]
        import math
        if v >= 0:
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return R(Fraction(p, q))
    return mk("sqrt", (x,), "R")


def sgn(x):
    """sign as an integer"""
    return ite(lt0(x), I(-1), ite(eq0(x), I(0), I(1)))


# ------------------------------------------------------------------ array reads
def rd(name, i):
    return mk("rd", (name, i), "R")


def rdn(name, i):
    return mk("rdn", (name, i), "B")


def rdi(name, i):
    return mk("rdi", (name, i), "I")


def uf(name, args, sort):
    return mk("uf", (name,) + tuple(args), sort)


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """m: dict var-term -> term (capture-free by the height discipline)"""
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if not (t.fv & keys):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "var":
        r = m.get(t, t)
    else:
        r = rebuild(t, lambda x: _subst(x, m, keys, memo))
    memo[t.id] = r
    return r


def rebuild(t, f):
    """apply f to the children of t and rebuild through the smart constructors"""
    op, a = t.op, t.args
    if op in ("const", "param", "var", "true", "false"):
        return t
    if op == "poly":
        r = None
        acc = {}
        for mn, c in a:
            if all(f(x) is x for x, _ in mn):
                acc[mn] = acc.get(mn, 0) + c
                continue
            p = num(c, t.sort)
            for x, e in mn:
                fx = f(x)
                for _ in range(e):
                    p = mul(p, fx)
            for m2, c2 in aspoly(p).items():
                acc[m2] = acc.get(m2, 0) + c2
        return mkpoly(acc, t.sort)
    if op == "inv":
        return inv(f(a[0]))
    if op == "toreal":
        return toreal(f(a[0]))
    if op == "not":
        return not_(f(a[0]))
    if op == "and":
        return and_(*[f(x) for x in a])
    if op == "or":
        return or_(*[f(x) for x in a])
    if op == "lt0":
        return lt0(f(a[0]))
    if op == "eq0":
        return eq0(f(a[0]))
    if op == "ile0":
        return ile0(f(a[0]))
    if op == "ieq0":
        return eq(f(a[0]), I(0))
    if op == "ite":
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == "rnd":
        return rnd(a[0], f(a[1]))
    if op == "trunc":
        return trunc(f(a[0]))
    if op == "itrunc":
        return itrunc(f(a[0]))
    if op == "idiv":
        return idiv(f(a[0]), a[1])
    if op == "sqrt":
        return sqrt(f(a[0]))
    if op in ("rd", "rdn", "rdi"):
        return mk(op, (a[0], f(a[1])), t.sort)
    if op == "uf":
        return mk(op, (a[0],) + tuple(f(x) for x in a[1:]), t.sort)
    if op == "fold":
        kind, extra, bodies, lo, hi = a
        nb = tuple(f(x) for x in bodies)
        ne = tuple(f(x) if isinstance(x, T) else x for x in extra)
        nlo, nhi = f(lo), f(hi)
        if nb == bodies and ne == extra:
            return fold_raw(kind, ne, nb, nlo, nhi, closed_h=t.h)
        v = bvar(t.h)
        w = fresh("j")
        nb = tuple(subst(x, {v: w}) for x in nb)
        return fold(kind, ne, w, nb, nlo, nhi)
    if op == "rec":
        return mk("rec", (f(a[0]), a[1], f(a[2])), t.sort)
    if op == "sys":
        nb = tuple(f(x) for x in a)
        if nb == a:
            return t
        v = bvar(t.h)
        w = fresh("j")
        nb = tuple(subst(x, {v: w}) for x in nb)
        return mk_sys(w, nb)
    if op == "self":
        return mk("self", (a[0], f(a[1])), t.sort)
    raise NotImplementedError(op)


# ------------------------------------------------------------------------- folds
# kinds: sum (R), isum (I, count), max, min (R), any, all (B), first, last (I:
# first/last index satisfying the body; -1-free: value is only meaningful when
# one exists), argmax/argmin (I, position relative to lo), ewm (R)
FOLD_SORT = {"sum": "R", "isum": "I", "max": "R", "min": "R", "any": "B", "all": "B",
             "first": "I", "last": "I", "argmin": "I", "argmax": "I", "ewm": "R",
             "pmax": "R", "pmin": "R"}


def body_height(ts):
    return max([t.h for t in ts] + [0])


def fold(kind, extra, v, bodies, lo, hi):
    """Fold over v in [lo, hi) of the bodies (terms with free variable v)."""
    bodies = tuple(bodies)
    # shift normalisation for order-insensitive folds
    if kind in ("sum", "isum", "max", "min", "any", "all", "pmax", "pmin"):
        sh = _shift_of(v, bodies)
        if sh is not None:
            sgn_, off = sh  # canonical read index = sgn*v + off ; w = sgn*v+off
            w = fresh("j")
            if sgn_ == 1:
                if off is not I(0):
                    bodies = tuple(subst(b, {v: sub(w, off)}) for b in bodies)
                    lo, hi = add(lo, off), add(hi, off)
                    v = w
            else:
                bodies = tuple(subst(b, {v: sub(off, w)}) for b in bodies)
                lo, hi = add(sub(off, hi), I(1)), add(sub(off, lo), I(1))
                v = w
    h = 1 + max(body_height(bodies), body_height([x for x in extra if isinstance(x, T)]), lo.h, hi.h)
    if kind in ("sum", "isum"):
        return _sum(kind, v, bodies[0], lo, hi)
    return _close(kind, extra, v, bodies, lo, hi)


def _close(kind, extra, v, bodies, lo, hi):
    h = 1 + max(body_height(bodies), body_height([x for x in extra if isinstance(x, T)]), lo.h, hi.h)
    b = bvar(h)
    nb = tuple(subst(x, {v: b}) for x in bodies)
    h2 = 1 + max(body_height(nb), body_height([x for x in extra if isinstance(x, T)]), lo.h, hi.h)
    if h2 != h:  # smart constructors changed the height
        return _close(kind, extra, v, tuple(subst(x, {b: v}) for x in nb), lo, hi)
    return fold_raw(kind, extra, nb, lo, hi, closed_h=h)


def fold_raw(kind, extra, bodies, lo, hi, closed_h=None):
    h = 1 + max(body_height(bodies), body_height([x for x in extra if isinstance(x, T)]), lo.h, hi.h)
    if closed_h is not None and closed_h != h:
        v = bvar(closed_h)
        w = fresh("j")
        return _close(kind, extra, w, tuple(subst(x, {v: w}) for x in bodies), lo, hi)
    ln = sub(hi, lo)
    if ln.op == "const" and kind in ("sum", "isum", "any", "all", "max", "min"):
        k = int(ln.args[0])
        v = bvar(h)
        if k <= 0:
            if kind in ("sum", "isum"):
                return num(0, FOLD_SORT[kind])
            if kind == "any":
                return FALSE
            if kind == "all":
                return TRUE
        elif k <= 3:
            els = [subst(bodies[0], {v: add(lo, I(j))}) for j in range(k)]
            if kind in ("sum", "isum"):
                return add(*els)
            if kind == "any":
                return or_(*els)
            if kind == "all":
                return and_(*els)
            r = els[0]
            for e in els[1:]:
                r = (max_ if kind == "max" else min_)(r, e)
            return r
    if kind == "any":
        if bodies[0] is FALSE:
            return FALSE
        if bodies[0] is TRUE:
            return lt(lo, hi)
    if kind == "all":
        if bodies[0] is TRUE:
            return TRUE
        if bodies[0] is FALSE:
            return le(hi, lo)
    if kind in ("max", "min") and bodies[0].fv.isdisjoint({bvar(h)}):
        return bodies[0]
    return mk("fold", (kind, tuple(extra), tuple(bodies), lo, hi), FOLD_SORT[kind])


def max0(t):
    return ite(le(t, I(0)), I(0), t)


def _lincoef(p, v):
    """coefficient of v in integer polynomial p if p is linear in v, else None"""
    c = Fraction(0)
    for m, k in aspoly(p).items():
        for a, e in m:
            if a is v:
                if len(m) == 1 and e == 1:
                    c = k
                else:
                    return None
            elif v in a.fv:
                return None
    return c


def _find_split(t, v, seen):
    """find an ile0 condition linear (+-1) in v inside t (not under binders)"""
    if v not in t.fv or t.id in seen:
        return None
    seen.add(t.id)
    if t.op == "ile0":
        c = _lincoef(t.args[0], v)
        if c in (1, -1):
            return t
        return None
    if t.op == "ieq0":
        c = _lincoef(t.args[0], v)
        if c in (1, -1):
            return t
        return None
    if t.op in ("fold", "rec", "sys", "rd", "rdn", "rdi"):
        return None
    for a in t.args:
        if isinstance(a, T):
            r = _find_split(a, v, seen)
            if r is not None:
                return r
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, tuple) and isinstance(y[0], T):
                            r = _find_split(y[0], v, seen)
                            if r is not None:
                                return r
    return None


def replace(t, m, memo=None):
    """replace sub-terms (dict term->term) everywhere outside binders"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ("fold", "sys"):
        r = t
    else:
        r = rebuild(t, lambda x: replace(x, m, memo))
    memo[t.id] = r
    return r


def _sum(kind, v, body, lo, hi, depth=0):
    sort = FOLD_SORT[kind]
    if v not in body.fv:
        cnt = max0(sub(hi, lo))
        return mul(body, toreal(cnt)) if sort == "R" else mul(body, cnt)
    c = _find_split(body, v, set())
    if c is not None and depth < 8:
        k = _lincoef(c.args[0], v)
        p = c.args[0]
        nv = not_(c)
        if c.op == "ile0":
            if k == 1:      # v + q <= 0  : v <= -q
                q = sub(p, v)
                b = sub(I(1), q)              # true for v < b
                bt, bf = replace(body, {c: TRUE, nv: FALSE}), replace(body, {c: FALSE, nv: TRUE})
                lowb, highb = bt, bf
            else:           # -v + q <= 0 : v >= q
                q = add(p, v)
                b = q                         # false for v < b
                bt, bf = replace(body, {c: TRUE, nv: FALSE}), replace(body, {c: FALSE, nv: TRUE})
                lowb, highb = bf, bt
            mid = min_(max_(b, lo), max_(hi, lo))
            return add(_sum(kind, v, lowb, lo, mid, depth + 1), _sum(kind, v, highb, mid, hi, depth + 1))
        else:
            q = sub(p, v) if k == 1 else add(p, v)
            at = neg(q) if k == 1 else q
            bt, bf = replace(body, {c: TRUE}), replace(body, {c: FALSE})
            inside = and_(le(lo, at), lt(at, hi))
            corr = ite(inside, sub(subst(bt, {v: at}), subst(bf, {v: at})), num(0, sort))
            return add(_sum(kind, v, bf, lo, hi, depth + 1), corr)
    # constant part and v-free factors
    p = aspoly(body)
    groups = {}
    const = {}
    for m, co in p.items():
        out, inn = [], []
        for a, e in m:
            (inn if v in a.fv else out).append((a, e))
        if not inn:
            const[m] = const.get(m, 0) + co
        else:
            groups.setdefault(tuple(out), {})[tuple(inn)] = co
    res = num(0, sort)
    if const:
        cnt = max0(sub(hi, lo))
        res = add(res, mul(mkpoly(const, sort), toreal(cnt) if sort == "R" else cnt))
    for out, g in sorted(groups.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0])):
        fac = mkpoly({out: Fraction(1)}, sort)
        for inn, co in g.items():
            res = add(res, scale(co, mul(fac, _sum1(kind, v, mkpoly({inn: Fraction(1)}, sort), lo, hi))))
    return res


def _sum1(kind, v, bp, lo, hi):
    """sum of a single monomial, with its own shift normalisation"""
    sort = FOLD_SORT[kind]
    if bp is v and sort == "I" or (bp.op == "toreal" and bp.args[0] is v):
        # sum of v over [lo,hi) = (hi-lo)*(hi+lo-1)/2 for hi>=lo
        L = max0(sub(hi, lo))
        if sort == "R":
            return scale(Fraction(1, 2), mul(toreal(L), toreal(add(add(lo, lo), sub(L, I(1))))))
        return _close(kind, (), v, (bp,), lo, hi)
    if sort == "R" and bp.op == "poly" and len(bp.args) == 1 and bp.args[0][0] == ((toreal(v), 2),):
        # sum of squares via S(hi)-S(lo), S(x)=(x-1)x(2x-1)/6, for hi>=lo
        hh = toreal(add(lo, max0(sub(hi, lo))))
        ll = toreal(lo)

        def S(x):
            return scale(Fraction(1, 6), mul(mul(sub(x, R(1)), x), sub(scale(2, x), R(1))))
        return sub(S(hh), S(ll))
    sh = _shift_of(v, (bp,))
    if sh is not None:
        sgn_, off = sh
        if sgn_ == 1 and off is not I(0):
            w = fresh("j")
            return _sum(kind, w, subst(bp, {v: sub(w, off)}), add(lo, off), add(hi, off), 8)
        if sgn_ == -1:
            w = fresh("j")
            return _sum(kind, w, subst(bp, {v: sub(off, w)}), add(sub(off, hi), I(1)), add(sub(off, lo), I(1)), 8)
    return _close(kind, (), v, (bp,), lo, hi)


def _reads(t, v, acc, seen):
    if v not in t.fv or t.id in seen:
        return
    seen.add(t.id)
    if t.op in ("rd", "rdn", "rdi"):
        acc.append((t.args[0], t.op, t.args[1]))
    if t.op == "rec":
        acc.append(("~rec", "rec%d" % t.args[1], t.args[2]))
        return
    if t.op == "self":
        acc.append(("~self", "self%d" % t.args[0], t.args[1]))
        return
    if t.op == "fold":
        # reads inside a nested fold: use its lower bound as the anchor
        acc.append(("~fold", t.args[0], t.args[3]))
        return
    for a in t.args:
        if isinstance(a, T):
            _reads(a, v, acc, seen)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], T):
                            _reads(y[0], v, acc, seen)


def _shift_of(v, bodies):
    """Find the canonical shift: (sign, offset) with index = sign*v+offset."""
    acc = []
    for b in bodies:
        _reads(b, v, acc, set())
    best = None
    for name, op, ix in acc:
        c = _lincoef(ix, v)
        if c not in (1, -1):
            continue
        off = sub(ix, scale(c, v))
        if v in off.fv:
            continue
        d = aspoly(off)
        c0 = d.get((), Fraction(0))
        rest = mkpoly({m: k for m, k in d.items() if m != ()}, "I")
        key = (name, op, 0 if rest is I(0) else 1, _sortkey(rest), -c0)
        if best is None or key < best[0]:
            best = (key, int(c), off)
    if best is None:
        return None
    return best[1], best[2]


def _sortkey(t):
    return show(t)


# -------------------------------------------------------------------- recurrences
def mk_sys(v, bodies):
    """System of recurrences: component c at index v equals bodies[c], which may
    refer to ('self', c', idx) with idx < v wherever that reference matters."""
    h = 1 + body_height(bodies)
    b = bvar(h)
    nb = tuple(subst(x, {v: b}) for x in bodies)
    h2 = 1 + body_height(nb)
    if h2 != h:
        return mk_sys(v, tuple(subst(x, {b: v}) for x in nb))
    return mk("sys", nb, "S")


def self_(c, idx, sort):
    return mk("self", (c, idx), sort)


def rec(sys_, c, idx):
    return mk("rec", (sys_, c, idx), sys_.args[c].sort)


def unfold_rec(t):
    """one-step unfolding of a rec term"""
    sys_, c, idx = t.args
    v = bvar(sys_.h)
    body = sys_.args[c]
    return subst_self(subst_idx(body, v, idx), sys_)


def subst_idx(body, v, idx):
    if bvar_safe(body, idx):
        return subst(body, {v: idx})
    return subst(body, {v: idx})


def bvar_safe(body, idx):
    return True


def subst_self(t, sys_, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "self":
        r = rec(sys_, t.args[0], subst_self(t.args[1], sys_, memo))
    elif t.op == "sys" or not has_self(t):
        r = t
    else:
        r = rebuild(t, lambda x: subst_self(x, sys_, memo))
    memo[t.id] = r
    return r


_hs = {}


def has_self(t):
    r = _hs.get(t.id)
    if r is not None:
        return r
    if t.op == "self":
        r = True
    elif t.op == "sys":
        r = False
    else:
        r = any(has_self(x) for x in children(t))
    _hs[t.id] = r
    return r


def children(t):
    op, a = t.op, t.args
    if op == "poly":
        return [x for m, _ in a for x, _ in m]
    if op == "fold":
        return list(a[2]) + [x for x in a[1] if isinstance(x, T)] + [a[3], a[4]]
    return [x for x in a if isinstance(x, T)]


def subterms(t, seen=None):
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(children(x))
    return seen


# ------------------------------------------------------------------------ printing
_brief = [False]


def brief(t):
    """short form: folds and recurrences by number only"""
    _brief[0] = True
    try:
        return show(t) if isinstance(t, T) else "[" + ", ".join(show(x) for x in t) + "]"
    finally:
        _brief[0] = False


def show(t, d=0):
    if _brief[0] and t.op == "fold":
        return "%s#%d" % (t.args[0], t.id)
    if _brief[0] and t.op == "inv" and t.args[0].op == "poly":
        return "inv#%d" % t.args[0].id
    if d > 60:
        return "..."
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == "const":
        return str(a[0])
    if op in ("true", "false"):
        return op
    if op in ("var", "param"):
        return a[0]
    if op == "poly":
        out = []
        for m, c in a:
            f = "*".join((s(x) if x.op != "poly" else "(" + s(x) + ")") + ("^%d" % e if e > 1 else "") for x, e in m)
            if m == ():
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append("%s*%s" % (c, f))
        return "(" + " + ".join(out) + ")"
    if op == "rd":
        return "%s[%s]" % (a[0], s(a[1]))
    if op == "rdn":
        return "nan(%s[%s])" % (a[0], s(a[1]))
    if op == "rdi":
        return "inf(%s[%s])" % (a[0], s(a[1]))
    if op == "lt0":
        return "(%s < 0)" % s(a[0])
    if op in ("eq0", "ieq0"):
        return "(%s = 0)" % s(a[0])
    if op == "ile0":
        return "(%s <= 0)" % s(a[0])
    if op == "fold":
        return "%s%s{$%d in [%s,%s)}(%s)" % (a[0], "" if not a[1] else list(map(lambda x: s(x) if isinstance(x, T) else str(x), a[1])), t.h, s(a[3]), s(a[4]), "; ".join(map(s, a[2])))
    if op == "rec":
        return "REC%d.%d[%s]" % (a[0].id, a[1], s(a[2]))
    if op == "sys":
        return "SYS%d{$%d: %s}" % (t.id, t.h, "; ".join(map(s, a)))
    if op == "self":
        return "SELF.%d[%s]" % (a[0], s(a[1]))
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else str(x) for x in a))
