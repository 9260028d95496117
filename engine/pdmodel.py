"""Assumed contracts of the external functions the repository calls (pandas,
numpy, statsmodels, builtins).  Everything here is part of the trusted base; the
conformance runs compare the resulting specifications with the real libraries.
"""
from fractions import Fraction
import math
from .terms import *
from .num import *
from .values import *
from . import smt


# ------------------------------------------------------------------ conversions
def is_pynum(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def is_scalar(v):
    return isinstance(v, (int, float, Fraction, bool, SInt, SNum, SBool)) or v is None


def num_of(v):
    if isinstance(v, SNum):
        return v.n
    if isinstance(v, SInt):
        return fin(toreal(v.t))
    if isinstance(v, SBool):
        return fin(ite(v.t, R(1), R(0)))
    if isinstance(v, bool):
        return fin(R(int(v)))
    if isinstance(v, (int, Fraction)):
        return fin(R(v))
    if isinstance(v, float):
        return const(v)
    if v is None:
        return NAN
    raise Unsupported("number expected, got %r" % (type(v).__name__,))


def int_of(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return I(int(v))
    if isinstance(v, int):
        return I(v)
    if isinstance(v, SNum) and v.n.nan is FALSE and v.n.inf is Z:
        t = v.n.val
        if t.op == "toreal":
            return t.args[0]
        if t.op == "const" and t.args[0].denominator == 1:
            return I(t.args[0])
    if isinstance(v, Fraction) and v.denominator == 1:
        return I(v)
    raise Unsupported("integer expected, got %r" % (type(v).__name__,))


def is_intlike(v):
    return isinstance(v, (SInt, int)) and not isinstance(v, bool)


def mkint(t):
    return int(t.args[0]) if t.op == "const" else SInt(t)


def mkbool(t):
    return True if t is TRUE else False if t is FALSE else SBool(t)


def mknum(n, np=True):
    return SNum(n, np)


def is_np(v):
    return isinstance(v, SNum) and v.np


def elem_val(kind, e):
    if kind == "num":
        return SNum(e, True)
    if kind == "bool":
        return mkbool(e)
    return SStr(e)


def val_elem(kind, v):
    if kind == "num":
        return num_of(v)
    if kind == "bool":
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, bool):
            return TRUE if v else FALSE
        raise Unsupported("bool expected")
    if isinstance(v, SStr):
        return v.t
    if isinstance(v, str):
        return I(str_code(v))
    if v is None:
        return I(-1)
    raise Unsupported("string expected")


def kind_of_value(v):
    if isinstance(v, (str, SStr)):
        return "str"
    if isinstance(v, (bool, SBool)):
        return "bool"
    return "num"


# ----------------------------------------------------------------- column helpers
def col_write(buf, pos, val):
    """single position write, recorded so that loops can recover it"""
    k = kind_of_value(val)
    old = buf.col
    kind = old.kind
    if k == "str" and kind == "num":
        probe = old.get(var("#probe"))
        if probe.nan is TRUE:
            old = Col(lambda i: I(-1), "str")
            kind = "str"
        else:
            raise Unsupported("string stored in numeric column")
    elif k == "num" and kind == "bool":
        o = old
        old = Col(lambda i: fin(ite(o.get(i), R(1), R(0))), "num")
        kind = "num"
    elif k == "num" and kind == "str" and not (isinstance(val, SNum) and val.n.nan is TRUE or val is None):
        raise Unsupported("number stored in string column")
    e = val_elem(kind, val)
    c = Col(lambda q: sel(kind, eq(q, pos), e, old.get(q)), kind)
    c.wlog = (pos, e, buf.col)
    buf.col = c


def map1(col, f, kind="num"):
    return Col(lambda i: f(col.get(i)), kind)


def as_num_col(col):
    if col.kind == "num":
        return col
    if col.kind == "bool":
        return Col(lambda i: fin(ite(col.get(i), R(1), R(0))))
    raise Unsupported("numeric column expected")


def idx_end(ix):
    return add(ix.start, ix.length)


def series(ix, col, name=None):
    return SSeries(ix, Buf(col), name)


def reindexed(col, src, dst):
    """column of src aligned to index dst (missing outside)"""
    if src.same(dst):
        return col
    if isinstance(src, SIndex) and isinstance(dst, SIndex) and src.base == dst.base and not src.shuffled and not dst.shuffled:
        s, e = src.start, idx_end(src)
        lo_in = TRUE if s is dst.start else None
        hi_in = TRUE if e is idx_end(dst) else None
        k = col.kind

        def f(i):
            inside = and_(le(s, i) if lo_in is None else TRUE, lt(i, e) if hi_in is None else TRUE)
            return sel(k, inside, col.get(i), nan_elem(k))
        return Col(f, k)
    raise Unsupported("alignment of unrelated indexes")


def common_index(a, b):
    """index of an arithmetic result (outer join)"""
    if a.same(b):
        return a
    if isinstance(a, SIndex) and isinstance(b, SIndex) and a.base == b.base and not a.shuffled and not b.shuffled:
        for x, y in ((a, b), (b, a)):
            if smt_le(x.start, y.start) and smt_le(idx_end(y), idx_end(x)):
                return x
    raise Unsupported("outer join of indexes")


from .values import CUR  # noqa: E402


def smt_le(a, b):
    t = le(a, b)
    if t is TRUE:
        return True
    return CUR[0].decide(t) is True


def dec(c):
    return CUR[0].decide(c)


def require(c, exc, *args):
    CUR[0].require(c, exc, *args)


def simp_max(a, b):
    t = le(a, b)
    d = dec(t)
    if d is True:
        return b
    if d is False:
        return a
    return ite(t, b, a)


def simp_min(a, b):
    t = le(a, b)
    d = dec(t)
    if d is True:
        return a
    if d is False:
        return b
    return ite(t, a, b)


def norm_pos(v, length, exc=IndexError):
    """normalised position of a scalar index; raises when out of range"""
    t = int_of(v)
    neg_ = lt(t, I(0))
    d = dec(neg_)
    if d is None:
        d = CUR[0].fork(neg_)
    if d:
        t = add(t, length)
        require(le(I(0), t), exc)
    else:
        require(lt(t, length), exc)
    return t


def norm_bound(v, length, default):
    if v is None:
        return default
    t = int_of(v)
    neg_ = lt(t, I(0))
    d = dec(neg_)
    if d is None:
        d = CUR[0].fork(neg_)
    if d:
        return simp_max(I(0), add(t, length))
    return simp_min(t, length)


def norm_slice(s, length):
    step = s.step
    if step not in (None, 1):
        raise Unsupported("slice step")
    a = norm_bound(s.start, length, I(0))
    b = norm_bound(s.stop, length, length)
    n = sub(b, a)
    d = dec(le(I(0), n))
    if d is True:
        return a, n
    if d is False:
        return a, I(0)
    return a, max0_(n)


def max0_(t):
    return ite(le(t, I(0)), I(0), t)


# --------------------------------------------------------------------- reductions
def col_all_present(col, lo, hi):
    v = fresh("j")
    x = col.get(v)
    return all_over(v, and_(not_(x.nan), eq(x.inf, Z)), lo, hi)


def all_over(v, ok, lo, hi):
    """conjunction over v in [lo,hi) (hi > lo or empty) of ok, thresholds on the
    index are turned into conditions on the bounds (valid for hi > lo)"""
    lits = ok.args if ok.op == "and" else (ok,)
    out = []
    for l in lits:
        if l is TRUE:
            continue
        if v not in l.fv:
            out.append(or_(l, le(hi, lo)) if False else l)
            continue
        if l.op == "ile0":
            k = lincoef(l.args[0], v)
            if k in (-1, 1):
                at = lo if k == -1 else sub(hi, I(1))
                out.append(subst(l, {v: at}))
                continue
        out.append(fold("all", (), v, (l,), lo, hi))
    return and_(*out)


def ok_of(x):
    return and_(not_(x.nan), eq(x.inf, Z))


def roll_col(r, how, ddof=1):
    obj, w, minp = r.obj, r.window, r.minp
    col, ix = as_num_col(obj.buf.col), obj.index
    start = ix.start

    def f(j):
        hi = add(j, I(1))
        lo0 = sub(hi, w)
        inb = le(start, lo0)
        if minp is w:
            lo = lo0
            present = and_(inb, col_all_present(col, lo, hi))
            nan = not_(present)
            v = fresh("j")
            x = col.get(v)
            if how in ("max", "min"):
                return Num(nan, Z, fold(how, (), v, (x.val,), lo, hi))
            n = toreal(w)
            s = fold("sum", (), v, (x.val,), lo, hi)
            if how == "sum":
                return Num(nan, Z, s)
            m = div(s, n)
            if how == "mean":
                return Num(nan, Z, m)
            ss = fold("sum", (), v, (mul(x.val, x.val),), lo, hi)
            return _std(nan, ss, s, n, m, ddof, how)
        lo = ite(inb, lo0, start)
        if dec(inb) is True:
            lo = lo0
        cnt = win_cnt(col.get, lo, hi)
        need = max_(minp, I(1)) if how != "sum" else minp
        nan = lt(cnt, need)
        if how in ("max", "min"):
            return Num(nan, Z, fold_minmax(how, col.get, lo, hi))
        s = win_sum(col.get, lo, hi)
        if how == "sum":
            return Num(nan, Z, s)
        n = toreal(cnt)
        m = div(s, n)
        if how == "mean":
            return Num(nan, Z, m)
        return _std(nan, win_sumsq(col.get, lo, hi), s, n, m, ddof, how)
    return Col(f)


def weighted_col(col, start, w, minp, win_type):
    """weighted moving average: the weights are the scipy window function,
    uninterpreted here (argument: window length, position)"""
    def f(j):
        lo = sub(add(j, I(1)), w)
        nan = not_(and_(le(start, lo), col_all_present(col, lo, add(j, I(1)))))
        v = fresh("j")
        wt = uf("window_" + win_type, (w, v), "R")
        x = col.get(add(lo, v))
        return Num(nan, Z, div(fold("sum", (), v, (mul(wt, x.val),), I(0), w), fold("sum", (), v, (wt,), I(0), w)))
    if minp is not w:
        raise Unsupported("weighted window with fewer periods")
    return Col(f)


def _std(nan, ss, s, n, m, ddof, how):
    var_ = sub(ss, mul(s, m))
    d = sub(n, R(ddof))
    v = div(var_, d)
    nan = or_(nan, not_(lt(R(0), d)))
    if how == "var":
        return Num(nan, Z, v)
    return Num(nan, Z, sqrt(v))


def ewm_col(e):
    obj, alpha, minp = e.obj, e.alpha, e.minp
    col, ix = as_num_col(obj.buf.col), obj.index
    v = fresh("j")
    x = col.get(v)
    ok = ok_of(x)
    if ok is not TRUE:
        from .prover import Ctx, simp, int_only
        it = CUR[0]
        x = Num(*[simp(t, Ctx([h for h in it.pc if int_only(h)] + [le(ix.start, v), lt(v, idx_end(ix))])) for t in x.comps()])
        ok = ok_of(x)
    lits = [] if ok is TRUE else list(ok.args if ok.op == "and" else (ok,))
    c = ix.start
    thr = True
    for l in lits:
        if l.op == "ile0" and lincoef(l.args[0], v) == -1:
            c = simp_max(c, add(l.args[0], v))
        else:
            thr = False
    need = simp_max(minp, I(1))
    if thr:
        xs = x.val
        # drop the don't-care part below c
        body = ite(le(v, c), subst(xs, {v: c}), add(mul(sub(R(1), alpha), self_(0, sub(v, I(1)), "R")), mul(alpha, xs)))
        sys_ = mk_sys(v, (body,))

        def f(j):
            return Num(lt(j, add(c, sub(need, I(1)))), Z, rec(sys_, 0, j))
        return Col(f)

    def g(j):
        lo, hi = ix.start, add(j, I(1))
        val = fold("ewm", (alpha,), v, (ok, x.val), lo, hi)
        if need.op == "const" and need.args[0] == 1:
            nan = not_(fold("any", (), v, (ok,), lo, hi))
        else:
            nan = lt(fold("isum", (), v, (ite(ok, I(1), I(0)),), lo, hi), need)
        return Num(nan, Z, val)
    return Col(g)


def reduce_col(col, how, lo, hi, skipna=True, ddof=1):
    """reduction of a column over [lo,hi) to a cell"""
    v = fresh("j")
    x = as_num_col(col).get(v)
    if x.inf is not Z and dec_body(v, lo, hi, eq(x.inf, Z)) is not True:
        if how not in ("max", "min", "sum", "mean", "std", "var", "count"):
            raise Unsupported("reduction of possibly infinite values")
        infs = True
    else:
        infs = False
        x = Num(x.nan, Z, x.val)
    some_nan = fold("any", (), v, (x.nan,), lo, hi)
    if x.nan is not FALSE and dec_body(v, lo, hi, not_(x.nan)) is True:
        some_nan = FALSE
        x = Num(FALSE, x.inf, x.val)
    if infs:
        if how in ("max", "min") and skipna:
            return extreme(lambda i: subst_num(x, v, i), how, lo, hi)
        if not skipna:
            raise Unsupported("reduction of possibly infinite values")
        if how == "count":
            return fin(toreal(fold("isum", (), v, (ite(x.nan, I(0), I(1)),), lo, hi)))
        if how in ("std", "var"):
            any_inf = fold("any", (), v, (and_(not_(x.nan), not_(eq(x.inf, Z))),), lo, hi)
            r = reduce_col(Col(lambda i: subst_num(Num(x.nan, Z, x.val), v, i)), how, lo, hi, True, ddof)
            return Num(or_(r.nan, any_inf), r.inf, r.val)
        pos_ = fold("any", (), v, (and_(not_(x.nan), lt(Z, x.inf)),), lo, hi)
        neg_ = fold("any", (), v, (and_(not_(x.nan), lt(x.inf, Z)),), lo, hi)
        s = fold("sum", (), v, (ite(x.nan, R(0), x.val),), lo, hi)
        nan, val = and_(pos_, neg_), s
        if how == "mean":
            cnt = fold("isum", (), v, (ite(x.nan, I(0), I(1)),), lo, hi)
            nan, val = or_(nan, le(cnt, I(0))), div(s, toreal(cnt))
        return Num(nan, ite(pos_, I(1), ite(neg_, I(-1), Z)), val)
    if not skipna:
        c2 = Col(lambda i: Num(FALSE, Z, as_num_col(col).get(i).val))
        r = reduce_col(c2, how, lo, hi, True, ddof)
        return Num(or_(r.nan, some_nan), r.inf, r.val)
    cnt = fold("isum", (), v, (ite(x.nan, I(0), I(1)),), lo, hi)
    if how == "count":
        return fin(toreal(cnt))
    if how in ("max", "min"):
        nan = le(cnt, I(0)) if x.nan is FALSE else not_(fold("any", (), v, (not_(x.nan),), lo, hi))
        return Num(nan, Z, fold_minmax(how, lambda i: subst_num(x, v, i), lo, hi))
    s = fold("sum", (), v, (ite(x.nan, R(0), x.val),), lo, hi)
    if how == "sum":
        return fin(s)
    n = toreal(cnt)
    nan = le(cnt, I(0))
    if how == "mean":
        return Num(nan, Z, div(s, n))
    if how in ("std", "var"):
        ss = fold("sum", (), v, (ite(x.nan, R(0), mul(x.val, x.val)),), lo, hi)
        return _std(nan, ss, s, n, div(s, n), ddof, how)
    raise Unsupported("reduction " + how)


def extreme(f, how, lo, hi):
    """largest / smallest present cell of a range, infinite cells included"""
    v = fresh("j")
    x = f(v)
    some = TRUE if x.nan is FALSE else fold("any", (), v, (not_(x.nan),), lo, hi)
    val = fold_minmax(how, f, lo, hi)
    if x.inf is Z:
        return Num(not_(some), Z, val)
    s = 1 if how == "max" else -1
    top = fold("any", (), v, (and_(not_(x.nan), eq(x.inf, I(s))),), lo, hi)
    finite = fold("any", (), v, (and_(not_(x.nan), eq(x.inf, Z)),), lo, hi)
    return Num(not_(some), ite(top, I(s), ite(finite, Z, I(-s))), val)


def subst_num(x, v, i):
    return x.map(lambda t: subst(t, {v: i}))


def dec_body(v, lo, hi, t):
    """is t true for every v in [lo,hi) under the path condition?"""
    if t is TRUE:
        return True
    it = CUR[0]
    return True if smt.entails(it.pc + [le(lo, v), lt(v, hi)], t) else None


# ---------------------------------------------------------------------- arithmetic
def pybin(op, a, b):
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mult":
        return a * b
    if op == "Div":
        if b == 0:
            raise RaiseEx(ExcVal(ZeroDivisionError))
        return Fraction(a) / Fraction(b)
    if op == "FloorDiv":
        if b == 0:
            raise RaiseEx(ExcVal(ZeroDivisionError))
        return a // b
    if op == "Mod":
        if b == 0:
            raise RaiseEx(ExcVal(ZeroDivisionError))
        return a % b
    if op == "Pow":
        return a ** b
    raise Unsupported("operator " + op)


def cnv(x):
    return lit(x) if isinstance(x, float) and math.isfinite(x) else x


def scalar_bin(op, a, b):
    if is_pynum(a) and is_pynum(b) or isinstance(a, bool) and is_pynum(b) or is_pynum(a) and isinstance(b, bool) or isinstance(a, bool) and isinstance(b, bool):
        if op in ("BitAnd", "BitOr") and isinstance(a, bool) and isinstance(b, bool):
            return (a and b) if op == "BitAnd" else (a or b)
        return pybin(op, cnv(a), cnv(b))
    if op in ("BitAnd", "BitOr"):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            x, y = val_elem("bool", a), val_elem("bool", b)
            return mkbool(and_(x, y) if op == "BitAnd" else or_(x, y))
        raise Unsupported("bit operator")
    if is_intlike(a) and is_intlike(b):
        x, y = int_of(a), int_of(b)
        if op == "Add":
            return mkint(add(x, y))
        if op == "Sub":
            return mkint(sub(x, y))
        if op == "Mult":
            return mkint(mul(x, y))
        if op == "Pow" and isinstance(b, int) and 0 <= b <= 4:
            return mkint(power(x, b))
        if op in ("FloorDiv", "Mod"):
            if isinstance(b, int) and b > 0:
                q = idiv(x, b)
                return mkint(q if op == "FloorDiv" else sub(x, scale(b, q)))
            raise Unsupported("integer division by a symbol")
        if op != "Div":
            raise Unsupported("integer operator " + op)
    x, y = num_of(a), num_of(b)
    np_ = is_np(a) or is_np(b)
    if op == "Add":
        r = n_add(x, y)
    elif op == "Sub":
        r = n_sub(x, y)
    elif op == "Mult":
        r = n_mul(x, y)
    elif op == "Div":
        if not np_:
            require(not_(and_(not_(y.nan), eq(y.inf, Z), eq0(y.val))), ZeroDivisionError)
            r = Num(or_(x.nan, y.nan), Z, div(x.val, y.val)) if x.inf is Z and y.inf is Z else n_div(x, y)
        else:
            r = n_div(x, y)
    elif op == "Pow":
        if is_pynum(b) and b == int(b) and 1 <= b <= 4:
            r = n_pow(x, int(b))
        elif is_pynum(b) and b == 0.5:
            r = n_sqrt(x)
        else:
            raise Unsupported("power")
    else:
        raise Unsupported("operator " + op)
    return SNum(r, np_)


def seq_access(v):
    """(length, elem(k)) of a 1-D positional sequence, else None"""
    if isinstance(v, SArr):
        ca, off = v.buf.col, v.off
        return v.length, (lambda k: elem_val(ca.kind, ca.get(add(off, k))))
    if isinstance(v, SSeries):
        cs, st = v.buf.col, v.index.start
        return v.index.length, (lambda k: elem_val(cs.kind, cs.get(add(st, k))))
    if isinstance(v, SList):
        return v.length, v.get
    if isinstance(v, LList):
        cl, npf = v.buf.col, v.numpy
        return v.length, (lambda k: SNum(cl.get(k), npf()) if cl.kind == "num" else elem_val(cl.kind, cl.get(k)))
    if isinstance(v, SRange):
        return simp_max(I(0), range_len(v)), (lambda k: mkint(add(v.lo, scale(v.step, k))))
    if isinstance(v, IndexMask):
        return v.length, (lambda k: mkbool(v.col.get(k)))
    if isinstance(v, (list, tuple)):
        vals = list(v)

        def g(k):
            if k.op == "const":
                return vals[int(k.args[0])]
            if not vals:
                raise Unsupported("empty list")
            r = vals[-1]
            from .loops import merge_values
            for q in range(len(vals) - 2, -1, -1):
                r = merge_values(eq(k, I(q)), vals[q], r)
            return r
        return I(len(vals)), g
    return None


def range_len(v):
    if v.step == 1:
        return sub(v.hi, v.lo)
    if v.step == -1:
        return sub(v.lo, v.hi)
    raise Unsupported("range step")


def to_llist(v):
    """turn a list of symbolic length (SList) that the code goes on to change into a mutable one, in place"""
    ln, get = v.length, v.get
    probe = get(fresh("j"))
    if isinstance(probe, (tuple, list)) or isinstance(probe, SLabel):
        raise Unsupported("change of a list of " + type(probe).__name__)
    k = kind_of_value(probe)
    if k not in ("num", "bool", "str"):
        raise Unsupported("change of a list")
    col = Col(lambda p: val_elem(k, get(p)), k)
    for a in ("length", "get", "const_elem", "parts", "fcol"):
        v.__dict__.pop(a, None)
    v.__class__ = LList
    v.length, v.buf, v.meta = ln, Buf(col), Meta()
    v.note(probe)


def col_of_seq(v, start):
    """column (absolute positions from start) of a positional sequence"""
    ln, get = seq_access(v)
    if isinstance(v, (SArr,)):
        off = v.off
        c = v.buf.col
        if off is start:
            return ln, c
        return ln, Col(lambda p: c.get(add(off, sub(p, start))), c.kind)
    probe = get(fresh("j") if ln.op != "const" else I(0))
    k = kind_of_value(probe)
    return ln, Col(lambda p: val_elem(k, get(sub(p, start))), k)


def elementwise(op, ca, cb):
    if op in ("BitAnd", "BitOr"):
        if ca.kind != "bool" or cb.kind != "bool":
            raise Unsupported("bitwise on numbers")
        g = and_ if op == "BitAnd" else or_
        return Col(lambda i: g(ca.get(i), cb.get(i)), "bool")
    ca, cb = as_num_col(ca), as_num_col(cb)
    fn = {"Add": n_add, "Sub": n_sub, "Mult": n_mul, "Div": n_div}.get(op)
    if op == "Pow":
        def fn(x, y):
            if y.nan is FALSE and y.inf is Z and y.val.op == "const":
                k = y.val.args[0]
                if k in (1, 2, 3, 4):
                    return n_pow(x, int(k))
                if k == Fraction(1, 2):
                    return n_sqrt(x)
            raise Unsupported("power")
    if fn is None:
        raise Unsupported("operator " + op)
    return Col(lambda i: fn(ca.get(i), cb.get(i)))


def cmp_fn(op):
    return {"Lt": n_lt, "LtE": n_le, "Gt": n_gt, "GtE": n_ge, "Eq": n_eq, "NotEq": n_ne}[op]


def cmp_cols(op, ca, cb):
    if ca.kind == "str" or cb.kind == "str":
        if ca.kind != cb.kind or op not in ("Eq", "NotEq"):
            raise Unsupported("string comparison")
        return Col(lambda i: eq(ca.get(i), cb.get(i)) if op == "Eq" else not_(eq(ca.get(i), cb.get(i))), "bool")
    ca, cb = as_num_col(ca), as_num_col(cb)
    f = cmp_fn(op)
    return Col(lambda i: f(ca.get(i), cb.get(i)), "bool")


def const_of(v):
    k = kind_of_value(v)
    e = val_elem(k, v)
    return Col(lambda i: e, k)


def is_vec(v):
    return isinstance(v, (SSeries, SFrame, SArr, IndexMask, SArr2))


def vec_bin(f, a, b):
    """apply f(colA, colB)->col over any mix of vectors and scalars"""
    if isinstance(a, SFrame) or isinstance(b, SFrame):
        if isinstance(a, SFrame) and isinstance(b, SFrame):
            ix = common_index(a.index, b.index)
            la, lb = a.labels(), b.labels()
            if la != lb:
                raise Unsupported("frame arithmetic with different columns")
            return SFrame(ix, [[l, Buf(f(reindexed(x.col, a.index, ix), reindexed(y.col, b.index, ix)))] for (l, x), (_, y) in zip(a.cols, b.cols)])
        fr, o, sw = (a, b, False) if isinstance(a, SFrame) else (b, a, True)
        if isinstance(o, SArr2):
            raise Unsupported("frame with 2-D array")
        if not (is_scalar(o) or isinstance(o, (str, SStr))):
            raise Unsupported("frame with vector arithmetic")
        c = const_of(o)
        return SFrame(fr.index, [[l, Buf(f(c, x.col) if sw else f(x.col, c))] for l, x in fr.cols])
    if isinstance(a, SSeries) or isinstance(b, SSeries):
        if isinstance(a, SSeries) and isinstance(b, SSeries):
            ix = common_index(a.index, b.index)
            nm = a.name if a.name == b.name else None
            return series(ix, f(reindexed(a.buf.col, a.index, ix), reindexed(b.buf.col, b.index, ix)), nm)
        s, o, sw = (a, b, False) if isinstance(a, SSeries) else (b, a, True)
        if is_scalar(o) or isinstance(o, (str, SStr)):
            c = const_of(o)
        else:
            acc = seq_access(o)
            if acc is None:
                raise Unsupported("series arithmetic with %s" % type(o).__name__)
            ln, c = col_of_seq(o, s.index.start)
            require(eq(ln, s.index.length), ValueError)
        return series(s.index, f(c, s.buf.col) if sw else f(s.buf.col, c), s.name)
    if isinstance(a, SArr2) or isinstance(b, SArr2):
        raise Unsupported("2-D array arithmetic")
    # arrays (positions 0..len)
    def arr(o):
        if is_scalar(o) or isinstance(o, (str, SStr)):
            return None, const_of(o)
        acc = seq_access(o)
        if acc is None:
            raise Unsupported("array arithmetic")
        return col_of_seq(o, I(0))
    la, ca = arr(a)
    lb, cb = arr(b)
    if la is not None and lb is not None:
        require(eq(la, lb), ValueError)
    c = f(ca, cb)
    return SArr(Buf(c), la if la is not None else lb)


def binop(it, op, a, b):
    CUR[0] = it
    if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, OpaqueStr, SStr)) and isinstance(b, (str, OpaqueStr, SStr)):
                return OpaqueStr()
            raise RaiseEx(ExcVal(TypeError))
        if op == "Mod" and isinstance(a, (str, OpaqueStr)):
            return OpaqueStr()
        if op == "Mult" and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise Unsupported("string operator")
    if isinstance(a, (list, tuple, SList, LList)) or isinstance(b, (list, tuple, SList, LList)):
        if not (is_vec(a) or is_vec(b)):
            return list_bin(op, a, b)
    if isinstance(a, set) and isinstance(b, set):
        return {"Sub": a - b, "BitOr": a | b, "BitAnd": a & b}[op]
    if is_vec(a) or is_vec(b):
        return vec_bin(lambda x, y: elementwise(op, x, y), a, b)
    if a is None or b is None:
        raise RaiseEx(ExcVal(TypeError))
    if any(isinstance(x, Opaque) and "get_position" in x.name for x in (a, b)) and all(isinstance(x, (Opaque, int, float, Fraction)) for x in (a, b)):
        return Opaque("get_position arithmetic")
    if not (is_scalar(a) and is_scalar(b)):
        raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))
    return scalar_bin(op, a, b)


def list_bin(op, a, b):
    if op == "Add":
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return a + b
        pa = parts_of(a)
        pb = parts_of(b)
        if pa is None or pb is None:
            raise Unsupported("list +")
        return cat_list(pa + pb)
    if op == "Mult":
        if isinstance(b, (list, tuple)):
            a, b = b, a
        if isinstance(b, int):
            return a * b
        if isinstance(a, list) and isinstance(b, SInt):
            ln, get = seq_access(a)
            if len(a) == 1:
                x = a[0]
                r = SList(simp_max(I(0), b.t), lambda k: x)
                r.const_elem = x
                return r
    raise Unsupported("list operator")


def parts_of(v):
    if isinstance(v, SList) and hasattr(v, "parts"):
        return list(v.parts)
    if isinstance(v, (list, tuple, SList, LList)):
        return [v]
    return None


def cat_list(parts):
    ps = [p for p in parts if not (isinstance(p, (list, tuple)) and not p)]
    offs = [I(0)]
    acc = []
    for p in ps:
        ln, g = seq_access(p)
        acc.append((ln, g))
        offs.append(add(offs[-1], ln))

    def get(k):
        from .loops import merge_values
        r = None
        for q in range(len(ps) - 1, -1, -1):
            if r is None:
                r = acc[q][1](sub(k, offs[q]))
            else:
                c = lt(k, offs[q + 1])
                if c is TRUE:
                    r = acc[q][1](sub(k, offs[q]))
                elif c is not FALSE:
                    r = merge_values(c, acc[q][1](sub(k, offs[q])), r)
        return r
    s = SList(offs[-1], get)
    s.parts = ps
    return s


def unary_neg(it, v):
    CUR[0] = it
    if isinstance(v, Fraction):
        return -v
    if isinstance(v, SInt):
        return mkint(neg(v.t))
    if isinstance(v, SNum):
        return SNum(n_neg(v.n), v.np)
    if is_vec(v):
        return binop(it, "Mult", v, -1)
    raise Unsupported("negation")


def unary_invert(it, v):
    CUR[0] = it
    f = lambda c: Col(lambda i: not_(c.get(i)), "bool")
    if isinstance(v, SSeries) and v.buf.col.kind == "bool":
        return series(v.index, f(v.buf.col), v.name)
    if isinstance(v, SFrame):
        return SFrame(v.index, [[l, Buf(f(b.col))] for l, b in v.cols])
    if isinstance(v, SArr):
        c = v.buf.col
        return SArr(Buf(f(c)), v.length, v.off)
    if isinstance(v, IndexMask):
        return IndexMask(f(v.col), v.length)
    if isinstance(v, SBool):
        return mkbool(not_(v.t))
    raise Unsupported("invert")


def py_cmp(op, a, b):
    import operator
    return {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge,
            "Eq": operator.eq, "NotEq": operator.ne}[op](a, b)


def two_calendars(a, b):
    """dates of two unrelated valid indexes"""
    return {a, b} == {"D", "E"}


def date_of(base, i):
    return uf("date_" + base, (i,), "I")


def same_dates(a, b):
    """two indexes in date order hold the same dates"""
    a, b = sorted((a, b), key=lambda x: x.base)
    v = fresh("j")
    return and_(eq(a.length, b.length), fold("all", (), v, (eq(date_of(a.base, add(a.start, v)), date_of(b.base, add(b.start, v))),), I(0), a.length))


def compare(it, op, a, b):
    CUR[0] = it
    if op in ("Is", "IsNot"):
        for x, y in ((a, b), (b, a)):
            if y is None and isinstance(x, SNum) and x.none is not FALSE:
                return mkbool(x.none if op == "Is" else not_(x.none))
        if isinstance(a, (Sym, SSeries, SFrame)) and b is None or a is None and isinstance(b, (Sym, SSeries, SFrame)):
            r = False
        elif isinstance(a, (bool, type(None), Instance, ClassVal, TypeVal, type)) or isinstance(b, (bool, type(None), Instance, ClassVal, TypeVal, type)):
            if isinstance(a, SBool) or isinstance(b, SBool):
                raise Unsupported("is on symbolic bool")
            r = a is b or isinstance(a, TypeVal) and a == b
        elif is_vec(a) or is_vec(b) or isinstance(a, (list, dict, str)) or isinstance(b, (list, dict, str)):
            r = a is b
        else:
            raise Unsupported("is")
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(it, b, a)
        if isinstance(r, bool):
            return r if op == "In" else not r
        return mkbool(r.t if op == "In" else not_(r.t))
    if is_vec(a) or is_vec(b):
        return vec_bin(lambda x, y: cmp_cols(op, x, y), a, b)
    if isinstance(a, SIndex) or isinstance(b, SIndex):
        if isinstance(a, SIndex) and isinstance(b, SLabel) and b.base == a.base and not a.shuffled:
            s, p = a.start, b.pos
            g = {"Lt": lambda k: lt(add(s, k), p), "LtE": lambda k: le(add(s, k), p), "Gt": lambda k: lt(p, add(s, k)),
                 "GtE": lambda k: le(p, add(s, k)), "Eq": lambda k: eq(add(s, k), p), "NotEq": lambda k: not_(eq(add(s, k), p))}[op]
            return IndexMask(Col(g, "bool"), a.length)
        if isinstance(a, SIndex) and isinstance(b, SIndex) and op in ("Eq", "NotEq") and two_calendars(a.base, b.base) and not a.shuffled and not b.shuffled:
            require(eq(a.length, b.length), ValueError)
            f = lambda k: eq(date_of(a.base, add(a.start, k)), date_of(b.base, add(b.start, k)))
            return IndexMask(Col(f if op == "Eq" else lambda k: not_(f(k)), "bool"), a.length)
        raise Unsupported("index comparison")
    if isinstance(a, SLabel) and isinstance(b, SLabel) and two_calendars(a.base, b.base):
        x, y = date_of(a.base, a.pos), date_of(b.base, b.pos)
        return mkbool({"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge, "Eq": eq, "NotEq": lambda p, q: not_(eq(p, q))}[op](x, y))
    if isinstance(a, SLabel) and isinstance(b, SLabel) and a.base == b.base:
        x, y = a.pos, b.pos
        return mkbool({"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge, "Eq": eq, "NotEq": lambda p, q: not_(eq(p, q))}[op](x, y))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) and (isinstance(a, SStr) or isinstance(b, SStr)):
        t = eq(val_elem("str", a), val_elem("str", b))
        if op == "Eq":
            return mkbool(t)
        if op == "NotEq":
            return mkbool(not_(t))
        raise Unsupported("string order")
    if isinstance(a, SLabel) or isinstance(b, SLabel) or isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
        raise Unsupported("comparison of labels")
    if isinstance(a, ColumnIndex):
        a = list(a.labels)
    if isinstance(b, ColumnIndex):
        b = list(b.labels)
    if isinstance(a, (SBool,)) and isinstance(b, (SBool, bool)) or isinstance(b, SBool) and isinstance(a, (SBool, bool)):
        if op in ("Eq", "NotEq"):
            t = iff(val_elem("bool", a), val_elem("bool", b))
            return mkbool(t if op == "Eq" else not_(t))
    if is_scalar(a) and is_scalar(b) and (isinstance(a, Sym) or isinstance(b, Sym)):
        if a is None or b is None:
            if op in ("Eq", "NotEq"):
                return op == "NotEq"
            raise RaiseEx(ExcVal(TypeError))
        if is_intlike(a) and is_intlike(b):
            x, y = int_of(a), int_of(b)
            return mkbool({"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge, "Eq": eq, "NotEq": lambda p, q: not_(eq(p, q))}[op](x, y))
        return mkbool(cmp_fn(op)(num_of(a), num_of(b)))
    if isinstance(a, Sym) or isinstance(b, Sym):
        if op in ("Eq", "NotEq"):
            return op == "NotEq"
        raise RaiseEx(ExcVal(TypeError))
    if isinstance(a, (float, Fraction)) and isinstance(b, (float, Fraction, int)) or isinstance(b, (float, Fraction)) and isinstance(a, (float, Fraction, int)):
        return py_cmp(op, cnv(a), cnv(b))
    if isinstance(a, (list, tuple)) and deep_sym(a) or isinstance(b, (list, tuple)) and deep_sym(b):
        if op in ("Eq", "NotEq") and type(a) is type(b):
            if len(a) != len(b):
                return op == "NotEq"
            acc = TRUE
            for x, y in zip(a, b):
                r = compare(it, "Eq", x, y)
                acc = and_(acc, val_elem("bool", r))
            return mkbool(acc if op == "Eq" else not_(acc))
        raise Unsupported("sequence comparison")
    try:
        return py_cmp(op, a, b)
    except TypeError:
        raise RaiseEx(ExcVal(TypeError))


def deep_sym(v):
    return any(isinstance(x, Sym) or isinstance(x, (list, tuple)) and deep_sym(x) for x in v)


def contains(it, seq, x):
    if isinstance(seq, ColumnIndex):
        seq = seq.labels
    if isinstance(seq, SFrame):
        seq = seq.labels()
    if isinstance(seq, (list, tuple, set, dict)):
        acc = FALSE
        for y in seq:
            r = compare(it, "Eq", x, y)
            acc = or_(acc, val_elem("bool", r))
        return mkbool(acc)
    if isinstance(seq, str) and isinstance(x, str):
        return x in seq
    if isinstance(seq, SIndex) and isinstance(x, SLabel) and x.base == "#absent":
        return False
    if isinstance(seq, SIndex) and isinstance(x, SLabel) and x.base == seq.base:
        return mkbool(and_(le(seq.start, x.pos), lt(x.pos, idx_end(seq))))
    if isinstance(seq, SRange) and is_intlike(x) and seq.step == 1:
        return mkbool(and_(le(seq.lo, int_of(x)), lt(int_of(x), seq.hi)))
    raise Unsupported("in")


def opaque_result(it, f, args, kw):
    if f.name.endswith(".subplots"):
        nr = kw.get("nrows", args[0] if args else 1)
        if not isinstance(nr, int):
            raise Unsupported("subplots rows")
        if nr == 1 and kw.get("squeeze", True) is not False:
            return (Opaque("fig"), Opaque("ax0"))
        ax = [Opaque("ax%d" % k) for k in range(nr)]
        return (Opaque("fig"), ax)
    if f.name.endswith(".get_legend_handles_labels"):
        drawn = [kw_.get("label") for n, a_, kw_ in it.record if n == f.name.rsplit(".", 1)[0] + ".plot"]
        return ([Opaque("handle") for _ in drawn], drawn)
    return Opaque(f.name + "()")


from .pdops import *  # noqa: E402,F401,F403
