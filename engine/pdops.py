"""Attribute access, indexing and the external function table."""
from fractions import Fraction
import copy
import math
from .terms import *
from .num import *
from .values import *
from . import pdmodel as P

U = Unsupported


def B(name, fn):
    return Builtin(name, fn)


def method(o, name, fn):
    return Builtin(type(o).__name__ + "." + name, lambda *a, **k: fn(o, *a, **k))


# ------------------------------------------------------------------- object model
def getattr_(it, o, name):
    P.CUR[0] = it
    if isinstance(o, SFrame):
        return frame_attr(it, o, name)
    if isinstance(o, SSeries):
        return series_attr(it, o, name)
    if isinstance(o, (SIndex, RangeIdx)):
        return index_attr(it, o, name)
    if isinstance(o, (SArr, SArr2, IndexMask)):
        return arr_attr(it, o, name)
    if isinstance(o, SNum):
        return num_attr(it, o, name)
    if isinstance(o, Rolling):
        return rolling_attr(it, o, name)
    if isinstance(o, Rolling2):
        if name == "mean":
            return B("rolling.mean", lambda: apply_cols(o.obj, lambda q: P.weighted_col(P.as_num_col(q.buf.col), q.index.start, o.window, o.minp, o.win_type)))
        raise U("weighted rolling " + name)
    if isinstance(o, Ewm):
        if name == "mean":
            return B("ewm.mean", lambda: apply_cols(o.obj, lambda s: P.ewm_col(Ewm(s, o.alpha, o.minp))))
        raise U("ewm." + name)
    if isinstance(o, Opaque):
        return Opaque(o.name + "." + name)
    if isinstance(o, str):
        return str_attr(it, o, name)
    if isinstance(o, (list, LList)):
        return list_attr(it, o, name)
    if isinstance(o, dict):
        return dict_attr(it, o, name)
    if isinstance(o, Filt):
        return filt_attr(it, o, name)
    if isinstance(o, FiltIdx):
        if name == "size":
            return P.mkint(o.count())
        raise U("positions." + name)
    if isinstance(o, ColumnIndex):
        if name in ("tolist", "to_list"):
            return B("tolist", lambda: list(o.labels))
        if name == "values":
            return list(o.labels)
        if name == "str":
            return ColStr(o)
        if name == "size":
            return len(o.labels)
        raise U("columns." + name)
    if isinstance(o, ColStr):
        if name in ("lower", "upper", "strip"):
            return B(name, lambda: ColumnIndex([getattr(c, name)() for c in o.ci.labels]))
        raise U("columns.str." + name)
    if isinstance(o, (ExcVal,)):
        if name == "args":
            return tuple(o.args)
        raise RaiseEx(ExcVal(AttributeError, (name,)))
    if isinstance(o, TypeVal):
        if name == "__name__":
            return o.name.split(".")[-1]
        if name in TYPE_STATIC.get(o.name, {}):
            return TYPE_STATIC[o.name][name]
        raise U("type attribute " + name)
    if isinstance(o, type) and name == "__name__":
        return o.__name__
    if isinstance(o, DType):
        if name in ("kind",):
            return {"num": "f", "bool": "b", "str": "O"}[o.kind]
        raise U("dtype." + name)
    if isinstance(o, RollOLSModel):
        if name == "fit":
            return B("fit", o.fit)
        raise U("model." + name)
    if isinstance(o, Params):
        if name == "params":
            return o.arr
        raise U("regression result." + name)
    if isinstance(o, (int, float, Fraction, tuple, type(None), SInt, SBool, set)):
        if isinstance(o, tuple) and name == "index":
            return B("index", lambda x: o.index(x))
        if isinstance(o, (float, Fraction)) and name == "is_integer":
            return B(name, lambda: Fraction(o).denominator == 1)
        if isinstance(o, set) and name in ("add", "discard"):
            return B(name, lambda x: getattr(o, name)(x))
        raise RaiseEx(ExcVal(AttributeError, (name,)))
    if isinstance(o, (Closure, Builtin)) and name == "__name__":
        return o.name
    if isinstance(o, RowSeries):
        if name in ("tolist", "to_list"):
            return B(name, lambda: [v for _, v in o.items])
        if name == "values":
            return [v for _, v in o.items]
        if name == "index":
            return ColumnIndex([l for l, _ in o.items])
        raise U("row." + name)
    if isinstance(o, OpaqueStr):
        if name in ("replace", "lower", "upper", "strip", "format", "title", "capitalize", "join"):
            return B("str." + name, lambda *a, **k: OpaqueStr())
        raise U("method of unknown string: " + name)
    if isinstance(o, SLabel):
        raise U("label." + name)
    raise U("attribute %s of %s" % (name, type(o).__name__))


class ColStr(Immutable):
    def __init__(self, ci):
        self.ci = ci


class DType(Immutable):
    def __init__(self, kind, numeric=True):
        self.kind, self.numeric = kind, numeric


class Params(Immutable):
    def __init__(self, arr):
        self.arr = arr


TYPE_STATIC = {}


def setattr_(it, o, name, v):
    P.CUR[0] = it
    if isinstance(o, SFrame) and name == "columns":
        labels = it.concrete_iter(v)
        if labels is None or len(labels) != len(o.cols):
            raise RaiseEx(ExcVal(ValueError, ("Length mismatch",)))
        o.cols[:] = [[l, b] for l, (_, b) in zip(labels, o.cols)]
        return
    if isinstance(o, SSeries) and name == "name":
        o.name = v
        return
    if isinstance(o, SFrame) and name == "index" and isinstance(v, SIndex):
        if P.dec(eq(v.length, o.index.length)) is not True:
            raise U("index assignment")
        if not (v.start is o.index.start):
            raise U("index assignment")
        o.index = v
        return
    if isinstance(o, Opaque):
        return
    raise U("set attribute %s of %s" % (name, type(o).__name__))


def apply_cols(obj, f, keep_name=True):
    """apply a series->col function to a series or to every frame column"""
    if isinstance(obj, SSeries):
        return SSeries(obj.index, Buf(f(obj)), obj.name if keep_name else None)
    return SFrame(obj.index, [[l, Buf(f(SSeries(obj.index, b, l)))] for l, b in obj.cols])


def as_win(v):
    if isinstance(v, SNum) or isinstance(v, float):
        raise RaiseEx(ExcVal(ValueError, ("window must be an integer",)))
    t = P.int_of(v)
    P.require(le(I(0), t), ValueError)
    return t


def mk_rolling(o, window=None, min_periods=None, center=False, win_type=None, **kw):
    if kw or center or win_type is not None:
        if win_type is not None and not center:
            # weighted window (scipy): opaque uninterpreted function of the data
            return Rolling2(o, as_win(window), win_type, as_win(min_periods) if min_periods is not None else as_win(window))
        raise U("rolling options")
    w = as_win(window)
    m = w if min_periods is None else as_win(min_periods)
    P.require(le(m, w), ValueError)
    return Rolling(o, w, m)


class Rolling2(Immutable):
    def __init__(self, obj, window, win_type, minp):
        self.obj, self.window, self.win_type, self.minp = obj, window, win_type, minp


def mk_ewm(o, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, **kw):
    if kw or halflife is not None or ignore_na:
        raise U("ewm options")
    if adjust is not False:
        raise U("adjusted exponential window")
    n = sum(x is not None for x in (com, span, alpha))
    if n != 1:
        raise RaiseEx(ExcVal(ValueError))
    if alpha is not None:
        a = P.num_of(alpha)
        P.require(and_(lt(R(0), a.val), le(a.val, R(1))), ValueError)
        a = a.val
    elif span is not None:
        s = P.num_of(span).val
        P.require(le(R(1), s), ValueError)
        a = div(R(2), add(s, R(1)))
    else:
        c = P.num_of(com).val
        P.require(le(R(0), c), ValueError)
        a = inv(add(c, R(1)))
    m = P.int_of(0 if min_periods is None else min_periods)
    return Ewm(o, a, m)


def mk_expanding(o, min_periods=1, **kw):
    if kw:
        raise U("expanding options")
    return Rolling(o, o.index.length, P.int_of(min_periods))


def rolling_attr(it, o, name):
    if name in ("mean", "sum", "max", "min"):
        return B("rolling." + name, lambda: apply_cols(o.obj, lambda s: P.roll_col(Rolling(s, o.window, o.minp), name)))
    if name in ("std", "var"):
        return B("rolling." + name, lambda ddof=1: apply_cols(o.obj, lambda s: P.roll_col(Rolling(s, o.window, o.minp), name, ddof)))
    raise U("rolling." + name)


def shift_col(s, periods):
    d = P.int_of(periods)
    ix, col = s.index, s.buf.col
    st, en = ix.start, P.idx_end(ix)
    k = col.kind
    if k == "bool":
        raise U("shift of bool")

    def f(i):
        src = sub(i, d)
        lo = le(st, src) if not (d.op == "const" and d.args[0] <= 0) else TRUE
        hi = lt(src, en) if not (d.op == "const" and d.args[0] >= 0) and P.dec(le(I(0), d)) is not True else TRUE
        return sel(k, and_(lo, hi), col.get(src), nan_elem(k))
    return Col(f, k)


def round_col(c, k=0):
    if c.kind != "num":
        return c
    if not isinstance(k, int):
        raise U("round digits")
    return Col(lambda i: n_round(k, c.get(i)))


def fill_col(s, how):
    if s.buf.col.kind == "obj":
        return s.buf.col        # contents of non-numeric columns are not modelled
    ix, col = s.index, P.as_num_col(s.buf.col)

    def f(i):
        v = fresh("j")
        x = col.get(v)
        here = col.get(i)
        if x.nan is FALSE:
            return here
        if how == "ffill":
            lo, hi = ix.start, add(i, I(1))
            kind = "last"
        else:
            lo, hi = i, P.idx_end(ix)
            kind = "first"
        some = fold("any", (), v, (not_(x.nan),), lo, hi)
        at = fold(kind, (), v, (not_(x.nan),), lo, hi)
        y = col.get(at)
        return Num(not_(some), y.inf, y.val)
    return Col(f)


def bool_col_of(o):
    """(column in absolute coordinates, index) of a boolean mask"""
    if isinstance(o, SSeries) and o.buf.col.kind == "bool":
        return o.buf.col, o.index
    raise U("boolean mask expected")


def threshold_mask(col, start, length):
    """mask p -> p <= q on positions: returns q (absolute) or None"""
    v = fresh("j")
    t = col.get(v)
    if t.op == "ile0":
        k = P.lincoef(t.args[0], v)
        if k == 1:
            return ("le", sub(v, t.args[0]))
        if k == -1:
            return ("ge", add(v, t.args[0]))
    if t is TRUE:
        return ("le", add(start, sub(length, I(1))))
    return None


def slice_index(ix, a, n):
    if isinstance(ix, RangeIdx):
        return SIndex("#range", add(ix.start, a), n)
    return SIndex(ix.base, add(ix.start, a), n, ix.shuffled)


def take_slice(o, s):
    a, n = P.norm_slice(s, o.index.length)
    ix = slice_index(o.index, a, n)
    if isinstance(o, SSeries):
        return SSeries(ix, o.buf, o.name)
    r = SFrame(ix, [[l, b] for l, b in o.cols])
    r.pristine = o.pristine
    return r


def mask_select(it, o, m):
    """o[m] for a boolean mask over the same rows"""
    if isinstance(m, (SArr, IndexMask)):
        st = o.index.start
        if isinstance(m, IndexMask):
            mc = Col(lambda p: m.col.get(sub(p, st)), "bool")
        else:
            mc = Col(lambda p: m.elem(sub(p, st)), "bool")
        P.require(eq(m.length, o.index.length), IndexError)
    else:
        mc, mix = bool_col_of(m)
        if not mix.same(o.index):
            raise U("mask over another index")
    th = threshold_mask(mc, o.index.start, o.index.length)
    if th is not None:
        st, en = o.index.start, P.idx_end(o.index)
        if th[0] == "le":
            b = P.simp_min(add(th[1], I(1)), en)
            b = P.simp_max(st, b)
            ix = SIndex(o.index.base, st, sub(b, st), o.index.shuffled)
        else:
            a = P.simp_min(P.simp_max(th[1], st), en)
            ix = SIndex(o.index.base, a, sub(en, a), o.index.shuffled)
        if isinstance(o, SSeries):
            return SSeries(ix, Buf(o.buf.col), o.name)
        return SFrame(ix, [[l, Buf(b.col)] for l, b in o.cols])
    if isinstance(o, SSeries):
        return Filt([[o.name, o.buf.col]], mc, (o.index.start, P.idx_end(o.index)), name=o.name)
    return Filt([[l, b.col] for l, b in o.cols], mc, (o.index.start, P.idx_end(o.index)), is_frame=True)


def mask_count(f):
    v = fresh("j")
    lo, hi = f.length
    return fold("isum", (), v, (ite(f.mask.get(v), I(1), I(0)),), lo, hi)


def filt_attr(it, o, name):
    if name == "index":
        return FiltLabels(o)
    if name in ("iat", "iloc"):
        return Indexer(o, name)
    if name in ("empty",):
        lo, hi = o.length
        v = fresh("j")
        return P.mkbool(not_(fold("any", (), v, (o.mask.get(v),), lo, hi)))
    if name == "size" and not o.is_frame or name == "shape":
        n = P.mkint(mask_count(o))
        return n if name == "size" else ((n, len(o.cols)) if o.is_frame else (n,))
    if name in ("sum", "max", "min", "mean", "count") and not o.is_frame:
        c = o.cols[0][1]
        m = o.mask
        masked = Col(lambda i: n_ite(m.get(i), P.as_num_col(c).get(i), NAN))
        return B(name, lambda: SNum(P.reduce_col(masked, name, *o.length), True))
    if name in ("values", "to_numpy"):
        return o if name == "values" else B(name, lambda: o)
    if name == "dropna":
        raise U("filtered dropna")
    raise U("filtered." + name)


class FiltLabels(Immutable):
    def __init__(self, f):
        self.f = f


def filt_at(o, k):
    """row position of the k-th (0-based) or last selected row"""
    lo, hi = o.length
    v = fresh("j")
    m = o.mask.get(v)
    if k in (0, -1):
        some = fold("any", (), v, (m,), lo, hi)
        P.require(some, IndexError)
        return fold("last" if k == -1 else "first", (), v, (m,), lo, hi)
    raise U("indexing into a filtered series")


# ----------------------------------------------------------------------- frames
def get_col(o, name):
    b = o.find(name)
    if not b:
        raise RaiseEx(ExcVal(KeyError, (name,)))
    if len(b) > 1:
        raise U("duplicate column labels")
    return SSeries(o.index, b[0], name)


def vec_method(op):
    def f(o, other, *a, **k):
        if a or k:
            if k.get("axis", 0) in (0, "index") and isinstance(o, SFrame) and isinstance(other, SSeries):
                return SFrame(o.index, [[l, P.binop(P.CUR[0], op, SSeries(o.index, b, l), other).buf] for l, b in o.cols])
            if set(k) - {"axis"} or a:
                raise U("arithmetic method options")
        return P.binop(P.CUR[0], op, o, other)
    return f


def rsub(o, other):
    return P.binop(P.CUR[0], "Sub", other, o)


ARITH = {"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div", "truediv": "Div", "divide": "Div", "pow": "Pow"}
CMPS = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}


def common_attr(it, o, name):
    """attributes shared by series and frames; None when not handled"""
    if name in ARITH:
        return method(o, name, vec_method(ARITH[name]))
    if name in CMPS:
        return method(o, name, lambda o, x: P.compare(P.CUR[0], CMPS[name], o, x))
    if name == "rsub":
        return method(o, name, rsub)
    if name == "index":
        return o.index
    if name in ("iloc", "loc", "iat", "at"):
        return Indexer(o, name)
    if name == "rolling":
        return method(o, name, mk_rolling)
    if name == "ewm":
        return method(o, name, mk_ewm)
    if name == "expanding":
        return method(o, name, mk_expanding)
    if name == "abs":
        return method(o, name, lambda o: apply_cols(o, lambda s: P.map1(P.as_num_col(s.buf.col), n_abs)))
    if name == "round":
        return method(o, name, lambda o, decimals=0: apply_cols(o, lambda s: round_col(s.buf.col, decimals)))
    if name == "shift":
        def sh(o, periods=1, fill_value=None):
            if fill_value is not None:
                raise U("shift fill")
            return apply_cols(o, lambda s: shift_col(s, periods))
        return method(o, name, sh)
    if name == "diff":
        def df(o, periods=1, axis=0):
            if axis not in (0, "index"):
                raise U("diff axis")
            def g(s):
                c, d = P.as_num_col(s.buf.col), shift_col(s, periods)
                return Col(lambda i: n_sub(c.get(i), d.get(i)))
            return apply_cols(o, g)
        return method(o, name, df)
    if name == "pct_change":
        def pc(o, periods=1, fill_method=None):
            if fill_method is not None:
                raise U("pct_change fill")
            def g(s):
                c = P.as_num_col(s.buf.col)
                if P.dec_body_nonan(c, s.index) is not True:
                    raise U("pct_change with missing values")
                d = shift_col(s, periods)
                return Col(lambda i: n_sub(n_div(c.get(i), d.get(i)), fin(R(1))))
            return apply_cols(o, g)
        return method(o, name, pc)
    if name == "cumsum":
        def cs(o, axis=0, skipna=True):
            if axis not in (0, "index", None) or not skipna:
                raise U("cumsum options")
            def g(s):
                c = P.as_num_col(s.buf.col)
                st = s.index.start
                def f(i):
                    v = fresh("j")
                    x = c.get(v)
                    if x.inf is not Z and P.dec_body(v, st, P.idx_end(s.index), eq(x.inf, Z)) is not True:
                        raise U("cumulative sum of infinite values")
                    h = c.get(i)
                    return Num(h.nan, Z, fold("sum", (), v, (ite(x.nan, R(0), x.val),), st, add(i, I(1))))
                return Col(f)
            return apply_cols(o, g)
        return method(o, name, cs)
    if name in ("cummax", "cummin"):
        def cm(o):
            def g(s):
                c = P.as_num_col(s.buf.col)
                st = s.index.start
                return Col(lambda i: Num(c.get(i).nan, Z, fold_minmax(name[3:], c.get, st, add(i, I(1)))))
            return apply_cols(o, g)
        return method(o, name, cm)
    if name == "fillna":
        def fn(o, value=None, inplace=False, **k):
            if k or not is_sc(value):
                raise U("fillna options")
            e = P.num_of(value)
            r = apply_cols(o, lambda s: P.map1(P.as_num_col(s.buf.col), lambda x: n_ite(x.nan, e, x)))
            if inplace:
                raise U("fillna inplace")
            return r
        return method(o, name, fn)
    if name in ("ffill", "bfill", "pad", "backfill"):
        h = "ffill" if name in ("ffill", "pad") else "bfill"
        def ff(o, **k):
            if any(v not in (None, False, 0) for v in k.values()):
                raise U(name + " options")
            return apply_cols(o, lambda s: fill_col(s, h))
        return method(o, name, ff)
    if name in ("isna", "isnull", "notna", "notnull"):
        neg_ = name.startswith("not")
        def g(s):
            c = s.buf.col
            if c.kind == "str":
                return Col(lambda i: not_(eq(c.get(i), I(-1))) if neg_ else eq(c.get(i), I(-1)), "bool")
            if c.kind == "bool":
                return Col(lambda i: TRUE if neg_ else FALSE, "bool")
            return Col(lambda i: not_(c.get(i).nan) if neg_ else c.get(i).nan, "bool")
        return method(o, name, lambda o: apply_cols(o, g))
    if name in ("where", "mask"):
        def wh(o, cond, other=None):
            return where_(o, cond, other, name == "mask")
        return method(o, name, wh)
    if name == "clip":
        def cl(o, lower=None, upper=None, **k):
            if k:
                raise U("clip options")
            return apply_cols(o, lambda s: clip_col(s.buf.col, lower, upper))
        return method(o, name, cl)
    if name == "pipe":
        return B("pipe", lambda f, *a, **k: P.CUR[0].call(f, [o] + list(a), k))
    if name == "empty":
        if isinstance(o, SFrame) and not o.cols:
            return True
        return P.mkbool(le(o.index.length, I(0)))
    if name == "replace":
        def rp(o, to_replace=None, value=None):
            vals = P.CUR[0].concrete_iter(to_replace) if isinstance(to_replace, (list, tuple)) else [to_replace]
            infs = {v for v in vals if isinstance(v, float) and math.isinf(v)}
            if len(infs) != len(vals) or len(infs) != 2:
                raise U("replace")
            e = P.num_of(value)
            return apply_cols(o, lambda s: P.map1(P.as_num_col(s.buf.col), lambda x: n_ite(and_(not_(x.nan), not_(eq(x.inf, Z))), e, x)))
        return method(o, name, rp)
    if name == "sort_index":
        def si(o, axis=0, level=None, ascending=True, inplace=False, **k):
            if axis not in (0, "index") or ascending is not True or inplace or k or level is not None:
                raise U("sort_index options")
            return sort_rows(o)
        return method(o, name, si)
    if name == "copy":
        def cp(o, deep=True):
            if not deep:
                raise U("shallow copy")
            if isinstance(o, SSeries):
                return SSeries(o.index, Buf(o.buf.col), o.name)
            r = SFrame(o.index, [[l, Buf(b.col)] for l, b in o.cols], o.pristine)
            return r
        return method(o, name, cp)
    if name == "astype":
        def at(o, dtype=None, copy=True, errors="raise"):
            return astype_(it, o, dtype, errors)
        return method(o, name, at)
    if name in ("head", "tail"):
        def ht(o, n=5):
            if name == "head":
                return take_slice(o, slice(None, n))
            t = P.int_of(n)
            return take_slice(o, slice(P.mkint(neg(t)), None)) if P.dec(lt(I(0), t)) else (_ for _ in ()).throw(U("tail"))
        return method(o, name, ht)
    return None


def is_sc(v):
    return P.is_scalar(v)


def sort_rows(o):
    ix = o.index
    if not ix.shuffled:
        if isinstance(o, SSeries):
            return SSeries(ix, Buf(o.buf.col), o.name)
        return SFrame(ix, [[l, Buf(b.col)] for l, b in o.cols])
    nix = SIndex(ix.base, ix.start, ix.length, False)
    perm = lambda i: uf("perm_" + ix.base, (i,), "I")
    mkc = lambda c: Col(lambda i: c.get(perm(i)), c.kind)
    if isinstance(o, SSeries):
        return SSeries(nix, Buf(mkc(o.buf.col)), o.name)
    return SFrame(nix, [[l, Buf(mkc(b.col))] for l, b in o.cols])


def clip_col(c, lower, upper):
    c = P.as_num_col(c)
    if not all(x is None or is_sc(x) for x in (lower, upper)):
        raise U("clip with vectors")
    lo = P.num_of(lower) if lower is not None else None
    hi = P.num_of(upper) if upper is not None else None

    def f(x):
        if lo is not None:
            x = n_ite(n_lt(x, lo), lo, x)
        if hi is not None:
            x = n_ite(n_lt(hi, x), hi, x)
        return x
    return P.map1(c, f)


def where_(o, cond, other, inv_):
    it = P.CUR[0]

    def pick(s, mc, oc):
        c = P.as_num_col(s.buf.col)
        if inv_:
            return Col(lambda i: n_ite(mc.get(i), oc.get(i), c.get(i)))
        return Col(lambda i: n_ite(mc.get(i), c.get(i), oc.get(i)))
    if isinstance(o, SSeries):
        mc, mix = mask_col(cond, o.index)
        return SSeries(o.index, Buf(pick(o, mc, other_col(other, o.index))), o.name)
    if isinstance(cond, SFrame):
        out = []
        for l, b in o.cols:
            m = cond.find(l)
            if not m or not cond.index.same(o.index):
                raise U("where mask")
            out.append([l, Buf(pick(SSeries(o.index, b, l), m[0].col, other_col(other, o.index)))])
        return SFrame(o.index, out)
    raise U("where")


def mask_col(cond, ix):
    """boolean mask aligned with index ix, in absolute coordinates"""
    if isinstance(cond, SSeries):
        if cond.buf.col.kind != "bool" or not cond.index.same(ix):
            raise U("mask alignment")
        return cond.buf.col, ix
    if isinstance(cond, (SArr, IndexMask)):
        ln = cond.length
        P.require(eq(ln, ix.length), ValueError)
        if isinstance(cond, SArr):
            return Col(lambda p: cond.elem(sub(p, ix.start)), "bool"), ix
        return Col(lambda p: cond.col.get(sub(p, ix.start)), "bool"), ix
    raise U("mask")


def other_col(v, ix):
    if is_sc(v):
        e = P.num_of(v)
        return Col(lambda i: e)
    if isinstance(v, SSeries):
        return P.as_num_col(P.reindexed(v.buf.col, v.index, ix))
    if isinstance(v, (SArr, SList, LList, list)):
        ln, c = P.col_of_seq(v, ix.start)
        P.require(eq(ln, ix.length), ValueError)
        return P.as_num_col(c)
    raise U("value")


def dtype_name(d):
    if isinstance(d, str):
        return d
    if isinstance(d, TypeVal):
        return {"numpy.float64": "float64", "numpy.int64": "int64", "float": "float64", "int": "int64", "numpy.float32": "float32", "str": "str", "bool": "bool"}.get(d.name, d.name)
    if d is None:
        return None
    raise U("dtype")


def astype_(it, o, dtype, errors):
    d = dtype_name(dtype)
    if d in ("float64", "float"):
        return apply_cols(o, lambda s: P.as_num_col(s.buf.col))
    if d in ("object",):
        return apply_cols(o, lambda s: s.buf.col)
    if d in ("int64", "int"):
        cols = [o.buf.col] if isinstance(o, SSeries) else [b.col for _, b in o.cols]
        ok = TRUE
        for c in cols:
            v = fresh("j")
            x = P.as_num_col(c).get(v)
            okb = P.ok_of(x)
            if P.dec_body(v, o.index.start, P.idx_end(o.index), okb) is not True:
                ok = and_(ok, fold("all", (), v, (okb,), o.index.start, P.idx_end(o.index)))
        if not it.fork(ok):
            if errors == "ignore":
                return apply_cols(o, lambda s: s.buf.col)
            raise RaiseEx(ExcVal(ValueError))
        return apply_cols(o, lambda s: P.map1(P.as_num_col(s.buf.col), lambda x: Num(x.nan, x.inf, trunc(x.val))))
    raise U("astype %s" % d)


def row_reduce(o, how, skipna=True, ddof=1):
    """reduction over the columns of a frame (axis=1)"""
    cols = [P.as_num_col(b.col) for _, b in o.cols]

    def f(i):
        xs = [c.get(i) for c in cols]
        if how in ("sum", "mean"):
            if not skipna:
                r = xs[0]
                for x in xs[1:]:
                    r = n_add(r, x)
                return r if how == "sum" else n_div(r, fin(R(len(xs))))
            r = n_ite(xs[0].nan, fin(R(0)), xs[0])
            cnt = ite(xs[0].nan, I(0), I(1))
            for x in xs[1:]:
                r = n_add(r, n_ite(x.nan, fin(R(0)), x))
                cnt = add(cnt, ite(x.nan, I(0), I(1)))
            if how == "sum":
                return r
            if cnt.op == "const":
                return n_div(r, fin(R(cnt.args[0]))) if cnt.args[0] else NAN
            return n_div(r, fin(toreal(cnt)))
        if how in ("max", "min"):
            cmp_ = n_lt if how == "max" else n_gt
            r = xs[0]
            for x in xs[1:]:
                better = cmp_(r, x)
                if skipna:
                    r = n_ite(or_(better, r.nan), x, r)
                else:
                    both = n_ite(better, x, r)
                    r = Num(or_(r.nan, x.nan), both.inf, both.val)
            return r
        if how in ("any", "all"):
            raise U("row any/all")
        raise U("row " + how)
    return series(o.index, Col(f))


def series(ix, col, name=None):
    return SSeries(ix, Buf(col), name)


def frame_attr(it, o, name):
    if name == "columns":
        return ColumnIndex(o.labels())
    r = common_attr(it, o, name)
    if r is not None:
        return r
    if name in ("values",):
        return frame_values(o)
    if name == "to_numpy":
        return B("to_numpy", lambda dtype=None, copy=False, **k: SArr2([Buf(P.as_num_col(b.col) if dtype is not None else b.col) for _, b in o.cols], o.index.length, o.index.start))
    if name in ("max", "min", "sum", "mean"):
        def red(o, axis=0, skipna=True, **k):
            if k:
                raise U("reduction options")
            if axis in (1, "columns"):
                return row_reduce(o, name, skipna)
            if len(o.cols) == 1 or True:
                return ColReduce(o, name, skipna)
        return method(o, name, red)
    if name == "shape":
        return (P.mkint(o.index.length), len(o.cols))
    if name == "size":
        return P.mkint(scale(len(o.cols), o.index.length))
    if name == "drop":
        def dr(o, labels=None, axis=0, index=None, columns=None, inplace=False, **k):
            if columns is None and axis in (1, "columns"):
                columns = labels
            elif labels is not None or index is not None or columns is None:
                raise U("drop rows")
            names = columns if isinstance(columns, (list, tuple)) else [columns]
            if isinstance(columns, ColumnIndex):
                names = columns.labels
            for n in names:
                if not o.find(n) and k.get("errors") != "ignore":
                    raise RaiseEx(ExcVal(KeyError, (n,)))
            cols = [c for c in o.cols if c[0] not in names]
            if inplace:
                o.cols[:] = cols
                o.pristine = False
                return None
            return SFrame(o.index, [[l, Buf(b.col)] for l, b in cols])
        return method(o, name, dr)
    if name == "dropna":
        def dn(o, axis=0, how=None, subset=None, inplace=False, **k):
            if k or inplace or axis not in (0, "index") or how not in (None, "any", "all"):
                raise U("dropna options")
            names = subset if isinstance(subset, (list, tuple)) else ([subset] if subset is not None else o.labels())
            cols = [get_col(o, n).buf.col for n in names]
            def m(i):
                ts = []
                for c in cols:
                    if c.kind == "str":
                        ts.append(not_(eq(c.get(i), I(-1))))
                    else:
                        ts.append(not_(c.get(i).nan))
                return or_(*ts) if how == "all" else and_(*ts)
            return Filt([[l, b.col] for l, b in o.cols], Col(m, "bool"), (o.index.start, P.idx_end(o.index)), is_frame=True)
        return method(o, name, dn)
    if name == "rename":
        def rn(o, columns=None, inplace=False, **k):
            if k or inplace:
                raise U("rename options")
            if isinstance(columns, dict):
                g = lambda c: columns.get(c, c)
            elif isinstance(columns, (Closure, Builtin, TypeVal, Bound)):
                g = lambda c: it.call(columns, [c], {})
            else:
                raise U("rename")
            return SFrame(o.index, [[g(l), Buf(b.col)] for l, b in o.cols])
        return method(o, name, rn)
    if name == "set_axis":
        def sa(o, labels, axis=0, copy=None):
            if axis not in (1, "columns"):
                raise U("set_axis rows")
            ls = it.concrete_iter(labels)
            if ls is None or len(ls) != len(o.cols):
                raise RaiseEx(ExcVal(ValueError))
            return SFrame(o.index, [[l, Buf(b.col)] for l, (_, b) in zip(ls, o.cols)])
        return method(o, name, sa)
    if name == "assign":
        def asg(o, **k):
            r = SFrame(o.index, [[l, Buf(b.col)] for l, b in o.cols])
            for n, v in k.items():
                if isinstance(v, (Closure, Builtin)):
                    v = it.call(v, [r], {})
                set_column(r, n, v)
            return r
        return method(o, name, asg)
    if name in ("dtypes",):
        raise U("dtypes")
    if name == "filter":
        def fl(o, items=None, **k):
            if k or items is None:
                raise U("filter")
            return SFrame(o.index, [[n, Buf(get_col(o, n).buf.col)] for n in items if o.find(n)])
        return method(o, name, fl)
    if name == "reindex":
        def ri(o, labels=None, columns=None, **k):
            if k or labels is not None or columns is None:
                raise U("reindex")
            out = []
            for n in columns:
                b = o.find(n)
                out.append([n, Buf(b[0].col) if b else Buf(Col(lambda i: NAN))])
            return SFrame(o.index, out)
        return method(o, name, ri)
    if name == "items":
        return B("items", lambda: [(l, SSeries(o.index, b, l)) for l, b in o.cols])
    if name == "squeeze" and len(o.cols) == 1:
        return B("squeeze", lambda *a, **k: SSeries(o.index, o.cols[0][1], o.cols[0][0]))
    if name == "pop":
        def pp(o, n):
            s = get_col(o, n)
            o.cols[:] = [c for c in o.cols if c[0] != n]
            o.pristine = False
            return s
        return method(o, name, pp)
    if o.find(name):
        return get_col(o, name)
    raise U("DataFrame." + name)


class ColReduce(Immutable):
    """column-wise reduction of a frame (a series indexed by column labels)"""

    def __init__(self, o, how, skipna):
        self.labels = o.labels()
        self.vals = [SNum(P.reduce_col(b.col, how, o.index.start, P.idx_end(o.index), skipna), True) for _, b in o.cols]
        self._concrete = self.vals


def frame_values(o):
    if o.pristine:
        return SArr2([b for _, b in o.cols], o.index.length, o.index.start)
    return SArr2([Buf(b.col) for _, b in o.cols], o.index.length, o.index.start)


def series_attr(it, o, name):
    if name == "name":
        return o.name
    if name in ("dtype",):
        return DType(o.buf.col.kind, not getattr(o.buf, "nonnumeric", False))
    r = common_attr(it, o, name)
    if r is not None:
        return r
    if name == "values":
        return SArr(o.buf, o.index.length, o.index.start)
    if name in ("to_numpy", "array"):
        return B(name, lambda dtype=None, copy=False, **k: SArr(Buf(o.buf.col) if copy else o.buf, o.index.length, o.index.start))
    if name in ("to_list", "tolist"):
        def tl():
            ln = o.index.length
            c = o.buf.col
            st = o.index.start
            def g(k):
                e = P.elem_val(c.kind, c.get(add(st, k)))
                return SNum(e.n, False) if isinstance(e, SNum) else e
            r = SList(ln, g)
            r.fcol = (c, st)
            return r
        return B(name, tl)
    if name in ("max", "min", "sum", "mean", "count"):
        def red(axis=0, skipna=True, **k):
            if k:
                raise U("reduction options")
            if o.buf.col.kind == "bool" and name == "sum":
                c = o.buf.col
                v = fresh("j")
                return P.mkint(fold("isum", (), v, (ite(c.get(v), I(1), I(0)),), o.index.start, P.idx_end(o.index)))
            return SNum(P.reduce_col(o.buf.col, name, o.index.start, P.idx_end(o.index), skipna), True)
        return B("Series." + name, red)
    if name in ("std", "var"):
        return B(name, lambda ddof=1, **k: SNum(P.reduce_col(o.buf.col, name, o.index.start, P.idx_end(o.index), True, ddof), True))
    if name in ("all", "any"):
        def aa():
            c = o.buf.col
            v = fresh("j")
            if c.kind == "bool":
                t = c.get(v)
            else:
                x = P.as_num_col(c).get(v)
                z = and_(not_(x.nan), eq(x.inf, Z), eq0(x.val))
                t = not_(z) if name == "all" else and_(not_(x.nan), not_(and_(eq(x.inf, Z), eq0(x.val))))
            return P.mkbool(fold(name, (), v, (t,), o.index.start, P.idx_end(o.index)))
        return B(name, aa)
    if name in ("argmin", "argmax"):
        def am():
            c = P.as_num_col(o.buf.col)
            lo, hi = o.index.start, P.idx_end(o.index)
            P.require(lt(I(0), o.index.length), ValueError)
            m = P.extreme(c.get, name[3:], lo, hi)
            v = fresh("j")
            at = sub(fold("first", (), v, (n_eq(c.get(v), m),), lo, hi), lo)
            if c.get(v).nan is FALSE:
                return P.mkint(at)
            some = fold("any", (), v, (not_(c.get(v).nan),), lo, hi)
            return P.mkint(ite(some, at, I(-1)))
        return B(name, am)
    if name == "dropna":
        def dn(**k):
            c = o.buf.col
            m = Col(lambda i: not_(eq(c.get(i), I(-1))) if c.kind == "str" else not_(c.get(i).nan), "bool")
            th = threshold_mask(m, o.index.start, o.index.length)
            if th is not None and th[0] == "ge":
                return mask_select(it, o, SSeries(o.index, Buf(m)))
            return Filt([[o.name, c]], m, (o.index.start, P.idx_end(o.index)), name=o.name)
        return B(name, dn)
    if name == "to_frame":
        return B(name, lambda name=None: SFrame(o.index, [[name if name is not None else (o.name if o.name is not None else 0), Buf(o.buf.col)]]))
    if name == "rename":
        return B(name, lambda n=None, **k: SSeries(o.index, Buf(o.buf.col), n))
    if name in ("apply", "map"):
        def ap(f, **k):
            if k:
                raise U("apply options")
            from .loops import merge_call
            c = o.buf.col
            return series(o.index, merge_call(it, lambda e: it.call(f, [e], {}), c, o.index), o.name)
        return B(name, ap)
    if name == "size":
        return P.mkint(o.index.length)
    if name == "shape":
        return (P.mkint(o.index.length),)
    if name == "ndim":
        return 1
    if name == "item":
        def itm():
            P.require(eq(o.index.length, I(1)), ValueError)
            return P.elem_val(o.buf.col.kind, o.buf.col.get(o.index.start))
        return B(name, itm)
    if name == "between":
        def bt(a, b, inclusive="both"):
            if inclusive != "both":
                raise U("between")
            return P.binop(it, "BitAnd", P.compare(it, "GtE", o, a), P.compare(it, "LtE", o, b))
        return B(name, bt)
    if name == "combine":
        raise U("combine")
    raise U("Series." + name)


def toreal_inf(x):
    return toreal(x.inf)


def index_attr(it, o, name):
    if name == "equals":
        def eqs(x):
            if isinstance(x, SIndex) and isinstance(o, SIndex) and x.base == o.base and not x.shuffled and not o.shuffled:
                return P.mkbool(and_(eq(x.length, o.length), or_(le(o.length, I(0)), eq(x.start, o.start))))
            if isinstance(x, SIndex) and isinstance(o, SIndex) and x.base != o.base:
                if P.two_calendars(o.base, x.base) and not x.shuffled and not o.shuffled:
                    return P.mkbool(P.same_dates(o, x))
                return P.mkbool(uf("same_index_%s_%s" % tuple(sorted((o.base, x.base))), (I(0),), "B"))
            raise U("index equals")
        return B("equals", eqs)
    if name == "sort_values":
        def sv(ascending=True, **k):
            if ascending is not True or k:
                raise U("sort_values options")
            return SIndex(o.base, o.start, o.length, False)
        return B("sort_values", sv)
    if name in ("size",):
        return P.mkint(o.length)
    if name == "shape":
        return (P.mkint(o.length),)
    if name == "empty":
        return P.mkbool(le(o.length, I(0)))
    if name in ("tolist", "to_list"):
        return B(name, lambda: SList(o.length, lambda k: SLabel(o.base, add(o.start, k))))
    if name == "is_monotonic_increasing":
        if not o.shuffled:
            return True
        return P.mkbool(uf("sorted_" + o.base, (I(0),), "B"))
    if name == "copy":
        return B(name, lambda *a, **k: o)
    if name == "get_loc":
        def get_loc(lab):
            if not isinstance(lab, SLabel):
                raise U("get_loc")
            return P.mkint(sub(label_pos(SFrame(o, []), lab), o.start))
        return B(name, get_loc)
    raise U("index." + name)


def arr_attr(it, o, name):
    if isinstance(o, SArr2):
        if name == "shape":
            return (P.mkint(o.length), len(o.bufs))
        if name == "copy":
            return B(name, lambda: SArr2([Buf(b.col) for b in o.bufs], o.length, o.off))
        if name in ("max", "min", "sum", "mean"):
            return B(name, lambda axis=None: np_reduce(it, o, name, axis))
        raise U("array." + name)
    if isinstance(o, IndexMask):
        o = SArr(Buf(o.col), o.length)
    if name == "shape":
        return (P.mkint(o.length),)
    if name == "size":
        return P.mkint(o.length)
    if name in ("max", "min", "sum", "mean", "std"):
        return B("ndarray." + name, lambda axis=None: np_reduce(it, o, name, axis))
    if name == "copy":
        return B(name, lambda: SArr(Buf(o.buf.col), o.length, o.off))
    if name in ("tolist",):
        return B(name, lambda: SList(o.length, lambda k: P.elem_val(o.buf.col.kind, o.elem(k))))
    if name == "round":
        return B(name, lambda d=0: SArr(Buf(round_col(o.buf.col, d)), o.length, o.off))
    if name == "astype":
        return B(name, lambda d: o if dtype_name(d) in ("float64", "float") else (_ for _ in ()).throw(U("array astype")))
    if name in ("all", "any"):
        v = fresh("j")
        c = o.buf.col
        if c.kind != "bool":
            raise U("array any/all")
        return B(name, lambda: P.mkbool(fold(name, (), v, (c.get(v),), o.off, add(o.off, o.length))))
    raise U("array." + name)


def np_reduce(it, o, how, axis=None):
    if isinstance(o, SArr2):
        if axis == 1:
            cols = [[k, Buf(b.col)] for k, b in enumerate(o.bufs)]
            s = row_reduce(SFrame(SIndex("#arr", o.off, o.length), cols), how, skipna=False)
            return SArr(s.buf, o.length, o.off)
        raise U("array reduction axis")
    if isinstance(o, Filt):
        c = o.cols[0][1]
        m = o.mask
        v = fresh("j")
        if how == "sum":
            x = P.as_num_col(c).get(v)
            mv = m.get(v)
            lo, hi = o.length
            nan = fold("any", (), v, (and_(mv, x.nan),), lo, hi)
            if x.inf is not Z:
                raise U("sum of infinite values")
            return SNum(Num(nan, Z, fold("sum", (), v, (ite(mv, x.val, R(0)),), lo, hi)), True)
        raise U("filtered reduction")
    if isinstance(o, IndexMask):
        o = SArr(Buf(o.col), o.length)
    if isinstance(o, SSeries):
        return SNum(P.reduce_col(o.buf.col, how, o.index.start, P.idx_end(o.index), True, 0), True)
    if isinstance(o, SArr):
        if o.buf.col.kind == "bool" and how == "sum":
            v = fresh("j")
            return P.mkint(fold("isum", (), v, (ite(o.buf.col.get(v), I(1), I(0)),), o.off, add(o.off, o.length)))
        if how in ("max", "min"):
            P.require(lt(I(0), o.length), ValueError)
        return SNum(P.reduce_col(o.buf.col, how, o.off, add(o.off, o.length), False, 0), True)
    raise U("numpy reduction of %s" % type(o).__name__)


def num_attr(it, o, name):
    if name == "round":
        return B("round", lambda d=0: SNum(n_round(d, o.n), o.np))
    if name == "item":
        return B("item", lambda: SNum(o.n, False))
    if name == "is_integer":
        raise U("is_integer")
    raise RaiseEx(ExcVal(AttributeError, (name,)))


def str_attr(it, o, name):
    def f(*a, **k):
        if any(isinstance(x, Sym) for x in a):
            return OpaqueStr()
        if name == "join":
            xs = it.concrete_iter(a[0])
            if xs is None or any(not isinstance(x, str) for x in xs):
                return OpaqueStr()
            return o.join(xs)
        if not hasattr(o, name):
            raise RaiseEx(ExcVal(AttributeError, (name,)))
        return getattr(o, name)(*a, **k)
    return B("str." + name, f)


def list_attr(it, o, name):
    if isinstance(o, LList):
        if name == "append":
            def ap(x):
                tmp = o.buf
                P.col_write(tmp, o.length, x)
                o.note(x)
                o.length = add(o.length, I(1))
            return B("append", ap)
        if name == "extend":
            def ext(xs):
                s = it.concrete_iter(xs)
                if s is None:
                    raise U("extend by a symbolic number of items")
                for x in list(s):
                    P.col_write(o.buf, o.length, x)
                    o.note(x)
                    o.length = add(o.length, I(1))
            return B("extend", ext)
        if name == "copy":
            def cpy():
                r = LList(o.length, Buf(o.buf.col))
                r.meta.kinds |= o.meta.kinds
                return r
            return B("copy", cpy)
        raise U("list." + name)
    if name == "sort":
        def srt(key=None, reverse=False):
            if key is not None or reverse:
                raise U("sort options")
            if not deep_symbolic(o):
                o.sort()
                return
            sort_network(it, o)
        return B("sort", srt)
    if name == "index":
        def ix(x):
            for k, y in enumerate(o):
                r = P.compare(it, "Eq", y, x)
                if it.truth(r):
                    return k
            raise RaiseEx(ExcVal(ValueError))
        return B("index", ix)
    if name == "append":
        return B("append", lambda x: o.append(x))
    if name == "extend":
        def ex(x):
            xs = it.concrete_iter(x)
            if xs is None:
                raise U("extend by a symbolic sequence")
            o.extend(xs)
        return B("extend", ex)
    if name == "copy":
        return B("copy", lambda: list(o))
    if name in ("insert", "pop", "remove", "reverse", "count", "clear"):
        def f(*a):
            if any(isinstance(x, Sym) for x in a):
                raise U("list." + name)
            try:
                return getattr(o, name)(*a)
            except (ValueError, IndexError) as e:
                raise RaiseEx(ExcVal(type(e)))
        return B(name, f)
    raise U("list." + name)


def deep_symbolic(xs):
    return any(isinstance(x, Sym) for x in xs)


def sort_network(it, o):
    """insertion sort with forking comparisons (list.sort contract on <)"""
    out = []
    for x in o:
        if isinstance(x, SNum) and P.dec(x.n.nan) is not False:
            raise U("sorting possibly missing values")
        k = len(out)
        while k > 0 and it.truth(P.compare(it, "Lt", x, out[k - 1])):
            k -= 1
        out.insert(k, x)
    o[:] = out


def dict_attr(it, o, name):
    if name == "get":
        return B("get", lambda k, d=None: o.get(k, d))
    if name == "items":
        return B("items", lambda: list(o.items()))
    if name == "keys":
        return B("keys", lambda: list(o))
    if name == "values":
        return B("values", lambda: list(o.values()))
    if name == "update":
        return B("update", lambda d=None, **k: o.update(d or {}, **k))
    if name == "copy":
        return B("copy", lambda: dict(o))
    if name == "setdefault":
        return B("setdefault", lambda k, d=None: o.setdefault(k, d))
    if name == "pop":
        def pp(k, *d):
            if k in o:
                return o.pop(k)
            if d:
                return d[0]
            raise RaiseEx(ExcVal(KeyError))
        return B("pop", pp)
    raise U("dict." + name)


# ---------------------------------------------------------------------- indexing
def conc(v):
    return isinstance(v, int) and not isinstance(v, bool)


def getitem(it, o, i):
    P.CUR[0] = it
    if isinstance(o, Indexer):
        return idx_get(it, o, i)
    if isinstance(o, SFrame):
        if isinstance(i, (str, int)) and not isinstance(i, bool):
            return get_col(o, i)
        if isinstance(i, ColumnIndex):
            i = list(i.labels)
        if isinstance(i, (list, tuple)) and all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in i):
            if isinstance(i, tuple):
                raise RaiseEx(ExcVal(KeyError))
            return SFrame(o.index, [[n, Buf(get_col(o, n).buf.col)] for n in i])
        if isinstance(i, SFrame):
            return where_(o, i, None, False)
        if isinstance(i, slice):
            return take_slice(o, i)
        return mask_select(it, o, i)
    if isinstance(o, SSeries):
        if isinstance(i, slice):
            return take_slice(o, i)
        if isinstance(i, (SSeries, SArr, IndexMask)):
            return mask_select(it, o, i)
        if isinstance(i, SLabel):
            return loc_label(it, o, i)
        if P.is_intlike(i):
            raise U("positional access by label")
        raise U("series index")
    if isinstance(o, (SIndex, RangeIdx)):
        if isinstance(i, slice):
            a, n = P.norm_slice(i, o.length)
            return slice_index(o, a, n)
        if P.is_intlike(i):
            p = P.norm_pos(i, o.length)
            return SLabel(o.base, add(o.start, p))
        raise U("index subscript")
    if isinstance(o, SArr):
        return arr_get(it, o, i)
    if isinstance(o, IndexMask):
        return arr_get(it, SArr(Buf(o.col), o.length), i)
    if isinstance(o, SArr2):
        return arr2_get(it, o, i)
    if isinstance(o, SRow):
        c = i
        if not conc(c):
            raise U("row subscript")
        b = o.arr.bufs[c]
        p = P.norm_pos(o.pos, o.arr.length)
        return P.elem_val(b.col.kind, b.col.get(add(o.arr.off, p)))
    if isinstance(o, (list, tuple, str)):
        if isinstance(i, slice):
            if any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
                raise U("symbolic list slice")
            return o[i]
        if isinstance(i, SInt):
            ln, g = P.seq_access(o)
            p = P.norm_pos(i, ln)
            return g(p)
        if not conc(i):
            raise RaiseEx(ExcVal(TypeError))
        try:
            return o[i]
        except IndexError:
            raise RaiseEx(ExcVal(IndexError))
    if isinstance(o, (SList, LList)):
        ln, g = P.seq_access(o)
        if isinstance(i, slice):
            a, n = P.norm_slice(i, ln)
            return SList(n, lambda k: g(add(a, k)))
        return g(P.norm_pos(i, ln))
    if isinstance(o, SRange):
        ln, g = P.seq_access(o)
        return g(P.norm_pos(i, ln))
    if isinstance(o, dict):
        if isinstance(i, Sym):
            raise U("symbolic dictionary key")
        if i not in o:
            raise RaiseEx(ExcVal(KeyError, (i,)))
        return o[i]
    if isinstance(o, Opaque):
        return Opaque(o.name + "[]")
    if isinstance(o, ColumnIndex):
        it.order_sensitive = True
        return o.labels[i] if not isinstance(i, slice) else ColumnIndex(o.labels[i])
    if isinstance(o, FiltIdx):
        if conc(i):
            return P.mkint(sub(filt_at(Filt([], o.mask, (I(0), o.length)), i), I(0)))
        raise U("positions subscript")
    if isinstance(o, ColReduce):
        if i in o.labels:
            return o.vals[o.labels.index(i)]
        raise RaiseEx(ExcVal(KeyError))
    if isinstance(o, Filt):
        if isinstance(i, str) and o.is_frame:
            c = [x for x in o.cols if x[0] == i]
            if not c:
                raise RaiseEx(ExcVal(KeyError))
            return Filt([c[0]], o.mask, o.length, name=i)
        if conc(i) and not o.is_frame:
            return filt_iat(o, i)
        raise U("filtered subscript")
    raise U("subscript of %s" % type(o).__name__)


def filt_iat(o, i):
    p = filt_at(o, i)
    c = o.cols[0][1]
    return P.elem_val(c.kind, c.get(p))


def arr_get(it, o, i):
    if P.is_intlike(i) or isinstance(i, SNum):
        p = P.norm_pos(i, o.length)
        return P.elem_val(o.buf.col.kind, o.elem(p))
    if isinstance(i, slice):
        if i.step == -1 and i.start is None and i.stop is None:
            c, off, ln = o.buf.col, o.off, o.length
            return SArr(Buf(Col(lambda k: c.get(sub(add(off, ln), add(k, I(1)))), c.kind)), ln, I(0))
        a, n = P.norm_slice(i, o.length)
        return SArr(o.buf, n, add(o.off, a))
    if isinstance(i, (SArr, IndexMask)):
        mc = i.buf.col if isinstance(i, SArr) else i.col
        mo = i.off if isinstance(i, SArr) else I(0)
        if mc.kind != "bool":
            raise U("fancy indexing")
        P.require(eq(i.length, o.length), IndexError)
        c, off = o.buf.col, o.off
        return Filt([[None, Col(lambda k: c.get(add(off, k)), c.kind)]], Col(lambda k: mc.get(add(mo, k)), "bool"), (I(0), o.length))
    raise U("array subscript")


def arr2_get(it, o, i):
    if isinstance(i, tuple) and len(i) == 2:
        r, c = i
        if isinstance(c, slice):
            if c == slice(None):
                return arr2_get(it, o, r)
            if any(isinstance(x, Sym) for x in (c.start, c.stop)):
                raise U("column slice")
            return arr2_get(it, SArr2(o.bufs[c], o.length, o.off), r)
        if conc(c):
            if c < 0:
                c += len(o.bufs)
            if not 0 <= c < len(o.bufs):
                raise RaiseEx(ExcVal(IndexError))
            return arr_get(it, SArr(o.bufs[c], o.length, o.off), r)
        raise U("array column")
    if isinstance(i, slice):
        a, n = P.norm_slice(i, o.length)
        return SArr2(o.bufs, n, add(o.off, a))
    if P.is_intlike(i):
        return SRow(o, i)
    raise U("2-D subscript")


def check_order(it, o):
    if len(o.cols) > 1 and getattr(o, "input_order", True):
        it.order_sensitive = True


def idx_get(it, x, i):
    o, kind = x.obj, x.kind
    if isinstance(o, Filt):
        if kind == "iat" and conc(i) and not o.is_frame or kind == "iloc" and conc(i) and not o.is_frame:
            return filt_iat(o, i)
        raise U("filtered " + kind)
    if isinstance(o, SSeries):
        if kind in ("iat", "iloc"):
            if isinstance(i, slice):
                return take_slice(o, i)
            if isinstance(i, (SSeries, SArr, IndexMask)):
                return mask_select(it, o, i)
            p = P.norm_pos(i, o.index.length)
            return P.elem_val(o.buf.col.kind, o.buf.col.get(add(o.index.start, p)))
        if isinstance(i, (SSeries, SArr, IndexMask)):
            return mask_select(it, o, i)
        if isinstance(i, SIndex):
            return SSeries(i, Buf(P.reindexed(o.buf.col, o.index, i)), o.name) if inside(i, o.index) else (_ for _ in ()).throw(U("loc"))
        if isinstance(i, slice):
            return take_slice(o, label_slice(o, i))
        return loc_label(it, o, i)
    # frames
    if isinstance(i, tuple):
        r, c = i
    else:
        r, c = i, slice(None)
    if kind in ("iat", "iloc"):
        sub_ = cols_by_pos(it, o, c)
    else:
        sub_ = cols_by_label(o, c)
    if isinstance(sub_, SSeries):
        return idx_get(it, Indexer(sub_, kind), r)
    if kind == "iloc":
        if isinstance(r, slice):
            return take_slice(sub_, r)
        if P.is_intlike(r):
            p = P.norm_pos(r, o.index.length)
            return RowSeries([(l, P.elem_val(b.col.kind, b.col.get(add(o.index.start, p)))) for l, b in sub_.cols])
        return mask_select(it, sub_, r)
    if kind == "loc":
        if isinstance(r, slice):
            return take_slice(sub_, label_slice(o, r))
        if isinstance(r, SLabel):
            p = label_pos(o, r)
            return RowSeries([(l, P.elem_val(b.col.kind, b.col.get(p))) for l, b in sub_.cols])
        if isinstance(r, SIndex):
            if not inside(r, o.index):
                raise U("loc with labels outside")
            return SFrame(r, [[l, Buf(b.col)] for l, b in sub_.cols])
        return mask_select(it, sub_, r)
    raise U(kind)


def label_slice(o, s):
    if s.step is not None:
        raise U("label slice step")
    a = b = None
    if s.start is not None:
        if not isinstance(s.start, SLabel) or o.index.shuffled:
            raise U("label slice")
        a = P.mkint(sub(s.start.pos, o.index.start))
    if s.stop is not None:
        if not isinstance(s.stop, SLabel) or o.index.shuffled:
            raise U("label slice")
        b = P.mkint(add(sub(s.stop.pos, o.index.start), I(1)))
    return slice(a, b)


def inside(a, b):
    return a.base == b.base and P.dec(and_(le(b.start, a.start), le(P.idx_end(a), P.idx_end(b)))) is True


class RowSeries(Immutable):
    """one row of a frame, a series over the column labels"""

    def __init__(self, items):
        self.items = items
        self._concrete = [v for _, v in items]


def cols_by_pos(it, o, c):
    if isinstance(c, slice):
        if c == slice(None):
            return o
        if any(isinstance(x, Sym) for x in (c.start, c.stop, c.step)):
            raise U("symbolic column slice")
        check_order(it, o)
        return SFrame(o.index, o.cols[c], o.pristine)
    if conc(c):
        check_order(it, o)
        if not -len(o.cols) <= c < len(o.cols):
            raise RaiseEx(ExcVal(IndexError))
        l, b = o.cols[c]
        return SSeries(o.index, b, l)
    if isinstance(c, (list, tuple)) and all(conc(x) for x in c):
        check_order(it, o)
        return SFrame(o.index, [o.cols[k] for k in c])
    raise U("column position")


def cols_by_label(o, c):
    if isinstance(c, slice) and c == slice(None):
        return o
    if isinstance(c, str) or conc(c):
        return get_col(o, c)
    if isinstance(c, (list, tuple)):
        return SFrame(o.index, [[n, get_col(o, n).buf] for n in c])
    raise U("column label")


def label_pos(o, lab):
    ix = o.index
    if lab.base == ABSENT:
        raise RaiseEx(ExcVal(KeyError, (lab,)))
    if lab.base != ix.base or ix.shuffled:
        raise U("label of another index")
    P.require(and_(le(ix.start, lab.pos), lt(lab.pos, P.idx_end(ix))), KeyError)
    return lab.pos


def loc_label(it, o, lab):
    if not isinstance(lab, SLabel):
        raise U("label lookup")
    p = label_pos(o, lab)
    return P.elem_val(o.buf.col.kind, o.buf.col.get(p))


def set_column(o, name, v):
    """df[name] = v"""
    ix = o.index
    if isinstance(v, SSeries):
        c = P.reindexed(v.buf.col, v.index, ix)
    elif isinstance(v, SFrame):
        if len(v.cols) != 1:
            raise RaiseEx(ExcVal(ValueError))
        c = P.reindexed(v.cols[0][1].col, v.index, ix)
    elif P.is_scalar(v) or isinstance(v, (str, SStr)):
        c = P.const_of(v)
    else:
        acc = P.seq_access(v)
        if acc is None:
            raise U("column value %s" % type(v).__name__)
        ln, c = P.col_of_seq(v, ix.start)
        P.require(eq(ln, ix.length), ValueError)
    nb = Buf(c)
    for cell in o.cols:
        if cell[0] == name and type(cell[0]) is type(name):
            cell[1] = nb
            o.pristine = False
            return
    o.cols.append([name, nb])
    o.pristine = False


def masked_write(b, m, lo, hi, vc):
    """b[m] = vc on positions [lo,hi)"""
    old = b.col
    k = old.kind
    if vc.kind == "str" and k == "num":
        if old.get(var("#probe")).nan is not TRUE:
            raise U("string into numeric column")
        k = "str"
        old = Col(lambda i: I(-1), "str")
    if k == "num":
        vc = P.as_num_col(vc)
    if vc.kind != k:
        raise U("write of another kind")
    b.col = Col(lambda i: sel(k, m(i), vc.get(i), old.get(i)), k)


def setitem(it, o, i, v):
    P.CUR[0] = it
    if isinstance(o, dict):
        if isinstance(i, Sym):
            raise U("symbolic dictionary key")
        o[i] = v
        return
    if isinstance(o, list):
        if isinstance(i, slice):
            if any(isinstance(x, Sym) for x in (i.start, i.stop)):
                raise U("list slice")
            o[i] = it.concrete_iter(v)
            return
        if not conc(i):
            raise U("list store at symbolic index")
        try:
            o[i] = v
        except IndexError:
            raise RaiseEx(ExcVal(IndexError))
        return
    if isinstance(o, SFrame):
        if isinstance(i, str) or conc(i):
            set_column(o, i, v)
            return
        if isinstance(i, SFrame):
            if not P.is_scalar(v) or not i.index.same(o.index):
                raise U("masked frame assignment")
            e = P.num_of(v)
            for l, b in o.cols:
                m = i.find(l)
                if m:
                    mc = m[0].col
                    masked_write(b, mc.get, None, None, Col(lambda q: e))
            return
        if isinstance(i, list) and all(isinstance(x, str) for x in i):
            if isinstance(v, SFrame) and len(v.cols) == len(i):
                for n, (l, b) in zip(i, v.cols):
                    set_column(o, n, SSeries(v.index, b, l))
                return
            if P.is_scalar(v):
                for n in i:
                    set_column(o, n, v)
                return
        if isinstance(i, SSeries) and i.buf.col.kind == "bool":
            for l, b in o.cols:
                masked_write(b, mask_col(i, o.index)[0].get, None, None, P.const_of(v))
            return
        raise U("frame assignment")
    if isinstance(o, SSeries):
        if isinstance(i, (SSeries, SArr, IndexMask)):
            mc, _ = mask_col(i, o.index)
            masked_write(o.buf, mc.get, None, None, val_col(v, o.index))
            return
        if isinstance(i, SLabel):
            P.col_write(o.buf, label_pos(o, i), v)
            return
        raise U("series assignment")
    if isinstance(o, Indexer):
        return idx_set(it, o, i, v)
    if isinstance(o, SArr):
        return arr_set(it, o, i, v)
    if isinstance(o, SArr2):
        return arr2_set(it, o, i, v)
    if isinstance(o, LList):
        p = P.norm_pos(i, o.length)
        P.col_write(o.buf, p, v)
        o.note(v)
        return
    if isinstance(o, SRow):
        if conc(i):
            P.col_write(o.arr.bufs[i], add(o.arr.off, P.norm_pos(o.pos, o.arr.length)), v)
            return
    if isinstance(o, Opaque):
        return
    raise U("assignment to %s" % type(o).__name__)


def val_col(v, ix):
    if isinstance(v, (str, SStr)):
        return P.const_of(v)
    return other_col(v, ix)


def range_write(b, lo, n, v, ix=None):
    """write v on absolute positions [lo, lo+n)"""
    hi = add(lo, n)
    m = lambda i: and_(le(lo, i), lt(i, hi))
    if P.is_scalar(v) or isinstance(v, (str, SStr)):
        vc = P.const_of(v)
    elif isinstance(v, SSeries) and ix is not None:
        vc = P.reindexed(v.buf.col, v.index, SIndex(ix.base, lo, n, ix.shuffled)) if False else label_val(v, ix, lo, n)
    elif isinstance(v, SFrame) and len(v.cols) == 1 and ix is not None:
        vc = label_val(SSeries(v.index, v.cols[0][1]), ix, lo, n)
    else:
        acc = P.seq_access(v)
        if acc is None:
            raise U("slice value")
        ln, vc = P.col_of_seq(v, lo)
        P.require(or_(eq(ln, n), eq(ln, I(1))) if ln.op == "const" and ln.args[0] == 1 else eq(ln, n), ValueError)
    masked_write(b, m, lo, hi, vc)


def label_val(v, ix, lo, n):
    return P.reindexed(v.buf.col, v.index, SIndex(ix.base, lo, n, ix.shuffled))


def arr_set(it, o, i, v):
    if P.is_intlike(i):
        P.col_write(o.buf, add(o.off, P.norm_pos(i, o.length)), v)
        return
    if isinstance(i, slice):
        a, n = P.norm_slice(i, o.length)
        range_write(o.buf, add(o.off, a), n, v)
        return
    if isinstance(i, (SArr, IndexMask)):
        mc = i.buf.col if isinstance(i, SArr) else i.col
        mo = i.off if isinstance(i, SArr) else I(0)
        if mc.kind != "bool":
            raise U("fancy store")
        P.require(eq(i.length, o.length), IndexError)
        if not (P.is_scalar(v)):
            raise U("masked vector store")
        off = o.off
        lo, hi = off, add(off, o.length)
        g = lambda p: and_(le(lo, p), lt(p, hi), mc.get(add(mo, sub(p, off))))
        masked_write(o.buf, g, None, None, P.const_of(v))
        return
    raise U("array store")


def arr2_set(it, o, i, v):
    if isinstance(i, tuple) and len(i) == 2:
        r, c = i
        if isinstance(c, slice) and c == slice(None):
            if P.is_intlike(r):
                return set_row(it, o.bufs, add(o.off, P.norm_pos(r, o.length)), v)
            if P.is_scalar(v):
                for b in o.bufs:
                    arr_set(it, SArr(b, o.length, o.off), r, v)
                return
            raise U("2-D store")
        if conc(c):
            return arr_set(it, SArr(o.bufs[c], o.length, o.off), r, v)
        raise U("2-D store")
    if P.is_intlike(i):
        return set_row(it, o.bufs, add(o.off, P.norm_pos(i, o.length)), v)
    raise U("2-D store")


def set_row(it, bufs, pos, v):
    vals = it.concrete_iter(v)
    if vals is None and P.is_scalar(v):
        vals = [v] * len(bufs)
    if vals is None:
        raise U("row value")
    if len(vals) != len(bufs):
        raise RaiseEx(ExcVal(ValueError))
    for b, x in zip(bufs, vals):
        P.col_write(b, pos, x)


def idx_set(it, x, i, v):
    o, kind = x.obj, x.kind
    if isinstance(o, SSeries):
        if kind in ("iat", "iloc"):
            if isinstance(i, slice):
                a, n = P.norm_slice(i, o.index.length)
                range_write(o.buf, add(o.index.start, a), n, positional(v, o.index, a, n))
                return
            if P.is_intlike(i):
                P.col_write(o.buf, add(o.index.start, P.norm_pos(i, o.index.length)), v)
                return
        else:
            if isinstance(i, SLabel):
                P.col_write(o.buf, label_pos(o, i), v)
                return
            if isinstance(i, (SSeries, SArr, IndexMask)):
                mc, _ = mask_col(i, o.index)
                masked_write(o.buf, mc.get, None, None, val_col(v, o.index))
                return
            if isinstance(i, SIndex) and inside(i, o.index):
                range_write(o.buf, i.start, i.length, v, o.index)
                return
            if isinstance(i, slice):
                a, n = P.norm_slice(label_slice(o, i), o.index.length)
                range_write(o.buf, add(o.index.start, a), n, v, o.index)
                return
        raise U("series store")
    r, c = i if isinstance(i, tuple) else (i, slice(None))
    # columns
    if kind in ("iat", "iloc"):
        if isinstance(c, slice):
            if any(isinstance(q, Sym) for q in (c.start, c.stop)):
                raise U("column slice")
            cells = o.cols[c]
        elif conc(c):
            cells = [o.cols[c]]
        else:
            raise U("column position")
    else:
        names = o.labels() if isinstance(c, slice) and c == slice(None) else (list(c) if isinstance(c, (list, tuple)) else [c])
        cells = []
        for n in names:
            cell = [q for q in o.cols if q[0] == n]
            if not cell:
                nb = [n, Buf(Col(lambda q: NAN))]
                o.cols.append(nb)
                o.pristine = False
                cell = [nb]
            cells.append(cell[0])
    if len(cells) > 1 and not P.is_scalar(v) and not isinstance(v, str):
        if P.is_intlike(r) and kind == "iloc":
            return set_row(it, [q[1] for q in cells], add(o.index.start, P.norm_pos(r, o.index.length)), v)
        if isinstance(r, SLabel):
            return set_row(it, [q[1] for q in cells], label_pos(o, r), v)
        raise U("block store")
    if len(cells) == 1 and isinstance(c, list) and isinstance(v, (list, tuple)) and len(v) == 1:
        v = v[0]
    for q in cells:
        s = SSeries(o.index, q[1], q[0])
        if isinstance(r, slice) and r == slice(None):
            set_full(o, q, v, kind)
        else:
            idx_set(it, Indexer(s, kind), r, v)


def set_full(o, cell, v, kind):
    ix = o.index
    if isinstance(v, SSeries):
        c = P.reindexed(v.buf.col, v.index, ix)
    elif P.is_scalar(v) or isinstance(v, str):
        c = P.const_of(v)
    else:
        ln, c = P.col_of_seq(v, ix.start)
        P.require(eq(ln, ix.length), ValueError)
    cell[1].col = c


def positional(v, ix, a, n):
    """value for .iloc slice assignment: series values are aligned by label"""
    if isinstance(v, SFrame) and len(v.cols) == 1:
        v = SSeries(v.index, v.cols[0][1])
    if isinstance(v, SSeries):
        if isinstance(v.index, SIndex) and isinstance(ix, SIndex) and v.index.base == ix.base:
            tgt = SIndex(ix.base, add(ix.start, a), n, ix.shuffled)
            c = P.reindexed(v.buf.col, v.index, tgt)
            return SArr(Buf(c), n, tgt.start)
        raise U("positional store of unrelated series")
    return v


# --------------------------------------------------------------- library functions
def pd_DataFrame(it):
    def f(data=None, index=None, columns=None, dtype=None, copy=None):
        P.CUR[0] = it
        d = dtype_name(dtype)
        if columns is not None:
            columns = it.concrete_iter(columns) if not isinstance(columns, ColumnIndex) else columns.labels
        if isinstance(data, dict):
            cols = []
            for k, v in data.items():
                if index is None:
                    if isinstance(v, SSeries):
                        index = v.index
                    elif isinstance(v, (SArr,)):
                        index = RangeIdx(v.length)
                    else:
                        raise U("DataFrame from dict without index")
                fr = SFrame(index, [])
                set_column(fr, k, v)
                cols.append(fr.cols[0])
            r = SFrame(index, cols)
            if columns is not None:
                r = SFrame(index, [[c, r.find(c)[0] if r.find(c) else Buf(Col(lambda i: NAN))] for c in columns])
            return r
        if data is None or P.is_scalar(data):
            if index is None:
                raise U("DataFrame without index")
            if data is not None and columns is None:
                raise RaiseEx(ExcVal(ValueError))
            e = P.num_of(data)
            return SFrame(index, [[c, Buf(Col(lambda i: e))] for c in (columns or [])], pristine=True)
        if isinstance(data, SSeries):
            nm = data.name
            ix = index if index is not None else data.index
            c = P.reindexed(data.buf.col, data.index, ix)
            if columns is None:
                return SFrame(ix, [[nm if nm is not None else 0, Buf(c)]])
            if nm is None:
                if len(columns) != 1:
                    raise RaiseEx(ExcVal(ValueError))
                return SFrame(ix, [[columns[0], Buf(c)]])
            return SFrame(ix, [[n, Buf(c) if n == nm else Buf(Col(lambda i: NAN))] for n in columns])
        if isinstance(data, SFrame):
            ix = index if index is not None else data.index
            names = columns or data.labels()
            return SFrame(ix, [[n, Buf(P.reindexed(data.find(n)[0].col, data.index, ix)) if data.find(n) else Buf(Col(lambda i: NAN))] for n in names])
        if isinstance(data, SArr2):
            if index is None or columns is None or len(columns) != len(data.bufs):
                raise U("DataFrame from array")
            P.require(eq(data.length, index.length), ValueError)
            st = index.start
            mkc = lambda c: Col(lambda p: c.get(add(data.off, sub(p, st))), c.kind)
            return SFrame(index, [[n, Buf(mkc(b.col))] for n, b in zip(columns, data.bufs)])
        if isinstance(data, SList) and hasattr(data, "const_elem"):
            row = it.concrete_iter(data.const_elem)
            if row is not None and columns is not None:
                P.require(eq(data.length, index.length), ValueError)
                if len(row) != len(columns):
                    raise RaiseEx(ExcVal(ValueError))
                return SFrame(index, [[n, Buf(P.const_of(x))] for n, x in zip(columns, row)])
        if isinstance(data, (SArr, SList, LList)) and columns is not None and len(columns) == 1 and index is not None:
            fr = SFrame(index, [])
            set_column(fr, columns[0], data)
            return fr
        raise U("DataFrame(%s)" % type(data).__name__)
    return f


def pd_Series(it):
    def f(data=None, index=None, dtype=None, name=None, copy=False):
        P.CUR[0] = it
        if isinstance(index, (list, tuple)):
            labs = list(index)
            vals = it.concrete_iter(data)
            if len(labs) == 1 and isinstance(labs[0], SLabel) and vals is not None and len(vals) == 1:
                return series(SIndex(labs[0].base, labs[0].pos, I(1)), P.const_of(vals[0]), name)
            if labs and all(isinstance(q, str) for q in labs) and vals is not None and len(vals) == len(labs):
                return RowSeries(list(zip(labs, vals)))
            raise U("Series with label list")
        if isinstance(data, SSeries):
            ix = index if index is not None else data.index
            return series(ix, P.reindexed(data.buf.col, data.index, ix), name if name is not None else data.name)
        if data is None or P.is_scalar(data):
            if index is None:
                raise U("Series without index")
            return series(index, P.const_of(data), name)
        acc = P.seq_access(data)
        if acc is None:
            raise U("Series(%s)" % type(data).__name__)
        ix = index if index is not None else RangeIdx(acc[0])
        ln, c = P.col_of_seq(data, ix.start)
        P.require(eq(ln, ix.length), ValueError)
        return series(ix, c, name)
    return f


def pd_concat(it):
    def f(objs, axis=0, **k):
        P.CUR[0] = it
        if k and not (set(k) <= {"join"} and k["join"] == "outer"):
            raise U("concat options")
        xs = it.concrete_iter(objs)
        xs = [x for x in xs if x is not None]
        if axis in (1, "columns"):
            ix = xs[0].index
            for x in xs[1:]:
                ix = P.common_index(ix, x.index)
            cols = []
            unnamed = 0
            all_series = all(isinstance(x, SSeries) for x in xs)
            named = [x.name for x in xs if isinstance(x, SSeries) and x.name is not None]
            for x in xs:
                if isinstance(x, SSeries):
                    nm = x.name
                    if nm is None:
                        nm = unnamed
                        unnamed += 1
                    elif all_series and False:
                        pass
                    cols.append([nm, Buf(P.reindexed(x.buf.col, x.index, ix))])
                else:
                    for l, b in x.cols:
                        cols.append([l, Buf(P.reindexed(b.col, x.index, ix))])
            if all_series and not named:
                for q, c in enumerate(cols):
                    c[0] = q
            return SFrame(ix, cols)
        if len(xs) == 2 and all(isinstance(x, SSeries) for x in xs):
            a, b = xs
            if isinstance(a.index, SIndex) and isinstance(b.index, SIndex) and a.index.base == b.index.base:
                if P.idx_end(a.index) is b.index.start or P.dec(eq(P.idx_end(a.index), b.index.start)) is True:
                    ix = SIndex(a.index.base, a.index.start, add(a.index.length, b.index.length))
                    ca, cb, cut = a.buf.col, b.buf.col, b.index.start
                    if ca.kind != cb.kind:
                        raise U("concat kinds")
                    return series(ix, Col(lambda i: sel(ca.kind, lt(i, cut), ca.get(i), cb.get(i)), ca.kind), a.name if a.name == b.name else None)
        raise U("concat rows")
    return f


def np_where(it):
    def f(cond, *args):
        P.CUR[0] = it
        if not args:
            if isinstance(cond, SSeries):
                c, st = cond.buf.col, cond.index.start
                return (FiltIdx(Col(lambda k: c.get(add(st, k)), "bool"), cond.index.length),)
            if isinstance(cond, SArr):
                return (FiltIdx(Col(lambda k: cond.elem(k), "bool"), cond.length),)
            if isinstance(cond, IndexMask):
                return (FiltIdx(cond.col, cond.length),)
            raise U("numpy.where")
        a, b = args
        ln, c = P.col_of_seq(cond, I(0))
        def oc(v):
            if P.is_scalar(v) or isinstance(v, (str, SStr)):
                return P.const_of(v)
            l2, c2 = P.col_of_seq(v, I(0))
            P.require(eq(l2, ln), ValueError)
            return c2
        ca, cb = oc(a), oc(b)
        if ca.kind != cb.kind:
            ca, cb = P.as_num_col(ca), P.as_num_col(cb)
        return SArr(Buf(Col(lambda i: sel(ca.kind, c.get(i), ca.get(i), cb.get(i)), ca.kind)), ln)
    return f


def np_elem(it, f):
    def g(x, **k):
        P.CUR[0] = it
        if k:
            raise U("numpy options")
        if P.is_scalar(x):
            return SNum(f(P.num_of(x)), True)
        if isinstance(x, (SSeries, SFrame)):
            return apply_cols(x, lambda s: P.map1(P.as_num_col(s.buf.col), f))
        if isinstance(x, SArr):
            c = P.as_num_col(x.buf.col)
            return SArr(Buf(P.map1(c, f)), x.length, x.off)
        raise U("numpy elementwise")
    return g


def np_minmax(it, lo):
    def g(a, b):
        P.CUR[0] = it
        def h(x, y):
            c = n_lt(x, y) if not lo else n_lt(y, x)
            r = n_ite(c, y, x)
            return Num(or_(x.nan, y.nan), r.inf, r.val)
        if P.is_scalar(a) and P.is_scalar(b):
            return SNum(h(P.num_of(a), P.num_of(b)), True)
        return P.vec_bin(lambda x, y: Col(lambda i: h(P.as_num_col(x).get(i), P.as_num_col(y).get(i))), a, b)
    return g


def np_full(it, shape, e):
    sh = shape if isinstance(shape, (tuple, list)) else (shape,)
    if len(sh) == 1:
        return SArr(Buf(Col(lambda i: e)), P.int_of(sh[0]))
    if len(sh) == 2 and conc(sh[1]):
        return SArr2([Buf(Col(lambda i: e)) for _ in range(sh[1])], P.int_of(sh[0]))
    raise U("array shape")


def np_isnan(it):
    def f(x):
        if P.is_scalar(x):
            return P.mkbool(P.num_of(x).nan)
        if isinstance(x, SSeries):
            return getattr_(it, x, "isna").fn()
        if isinstance(x, SArr):
            c = x.buf.col
            return SArr(Buf(Col(lambda i: c.get(i).nan, "bool")), x.length, x.off)
        raise U("isnan")
    return f


def column_stack(it):
    def f(xs):
        P.CUR[0] = it
        xs = it.concrete_iter(xs)
        ln = None
        bufs = []
        for x in xs:
            l, c = P.col_of_seq(x, I(0))
            if ln is None:
                ln = l
            else:
                P.require(eq(l, ln), ValueError)
            bufs.append(Buf(c))
        return SArr2(bufs, ln)
    return f


class RollOLS(Immutable):
    def __init__(self, y, x, w):
        self.y, self.x, self.w = y, x, w


def rolling_ols(it):
    def f(endog=None, exog=None, window=None, **k):
        P.CUR[0] = it
        if k:
            raise U("RollingOLS options")
        ln, y = P.col_of_seq(endog, I(0))
        if not isinstance(exog, ConstX):
            raise U("RollingOLS exog")
        P.require(eq(ln, exog.length), ValueError)
        w = P.int_of(window)
        P.require(le(I(2), w), ValueError)
        P.require(le(w, ln), ValueError)
        return RollOLSModel(y, exog.col, w, ln)
    return f


class ConstX(Immutable):
    def __init__(self, col, length):
        self.col, self.length = col, length


class RollOLSModel(Immutable):
    def __init__(self, y, x, w, n):
        self.y, self.x, self.w, self.n = y, x, w, n

    def fit(self, params_only=False, **k):
        y, x, w = P.as_num_col(self.y), P.as_num_col(self.x), self.w
        v = fresh("j")
        if P.dec_body(v, I(0), self.n, P.ok_of(y.get(v))) is not True or P.dec_body(v, I(0), self.n, P.ok_of(x.get(v))) is not True:
            raise U("regression on missing values")
        wr = toreal(w)

        def sums(i):
            lo, hi = add(sub(i, w), I(1)), add(i, I(1))
            q = fresh("j")
            xv, yv = x.get(q).val, y.get(q).val
            S = lambda b: fold("sum", (), q, (b,), lo, hi)
            sx, sy, sxy, sxx = S(xv), S(yv), S(mul(xv, yv)), S(mul(xv, xv))
            slope = div(sub(mul(wr, sxy), mul(sx, sy)), sub(mul(wr, sxx), mul(sx, sx)))
            icpt = div(sub(sy, mul(slope, sx)), wr)
            return lt(i, sub(w, I(1))), icpt, slope
        # the regressor must vary inside every window; only position-like regressors supported
        t = x.get(v).val
        if not (t.op == "toreal" and t.args[0] is v) and not (P.lincoef_real(t, v)):
            raise U("regressor")
        c0 = Col(lambda i: Num(sums(i)[0], Z, sums(i)[1]))
        c1 = Col(lambda i: Num(sums(i)[0], Z, sums(i)[2]))
        return Params(SArr2([Buf(c0), Buf(c1)], self.n))


def lincoef_real(t, v):
    d = aspoly(t)
    for m, c in d.items():
        if m == ():
            continue
        if m == ((toreal(v), 1),) and c != 0:
            continue
        return False
    return ((toreal(v), 1),) in d


P.lincoef_real = lincoef_real


def dec_body_nonan(c, ix):
    v = fresh("j")
    return P.dec_body(v, ix.start, P.idx_end(ix), not_(c.get(v).nan))


P.dec_body_nonan = dec_body_nonan


def add_constant(it):
    def f(data, prepend=True, has_constant="skip"):
        P.CUR[0] = it
        if prepend is not True:
            raise U("add_constant options")
        ln, c = P.col_of_seq(data, I(0))
        return ConstX(c, ln)
    return f


def is_numeric_dtype(it):
    def f(x):
        if isinstance(x, SSeries):
            nn = getattr(x.buf, "nonnumeric", None)
            if nn is not None:
                return not nn
            return x.buf.col.kind in ("num", "bool")
        if isinstance(x, DType):
            return x.numeric and x.kind in ("num", "bool")
        raise U("is_numeric_dtype")
    return f


TYPES = {}


def type_of(v):
    if isinstance(v, bool) or isinstance(v, SBool):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, (float, Fraction)):
        return "float"
    if isinstance(v, SNum):
        return "numpy.float64" if v.np else "float"
    if isinstance(v, (str, SStr, OpaqueStr)):
        return "str"
    if isinstance(v, (list, SList, LList)):
        return "list"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, dict):
        return "dict"
    if isinstance(v, set):
        return "set"
    if v is None:
        return "NoneType"
    if isinstance(v, SFrame):
        return "pandas.DataFrame"
    if isinstance(v, SSeries):
        return "pandas.Series"
    if isinstance(v, SIndex):
        return getattr(v, "other", None) or "pandas.DatetimeIndex"
    if isinstance(v, RangeIdx):
        return "pandas.RangeIndex"
    if isinstance(v, (SArr, SArr2, IndexMask)):
        return "numpy.ndarray"
    if isinstance(v, Opaque) and v.name.startswith("<"):
        return v.name
    return None


SUPERS = {"bool": ["bool", "int"], "numpy.float64": ["numpy.float64", "float", "numpy.floating", "numpy.number"],
          "pandas.DatetimeIndex": ["pandas.DatetimeIndex", "pandas.Index"], "pandas.RangeIndex": ["pandas.RangeIndex", "pandas.Index"]}


def isinstance_(it):
    def f(v, cls):
        if isinstance(cls, tuple):
            acc = False
            for c in cls:
                if f(v, c):
                    return True
            return False
        if isinstance(v, AnyVal):
            return v.isinstance(it, cls)
        if isinstance(cls, ClassVal):
            return isinstance(v, Instance) and v.cls.subclass_of(cls)
        if isinstance(cls, type):
            if isinstance(v, ExcVal):
                return issubclass(v.cls, cls)
            if isinstance(v, Instance):
                return v.cls.subclass_of(cls)
            return False
        if isinstance(cls, TypeVal):
            t = type_of(v)
            if t is None:
                if isinstance(v, (Instance, Closure, Bound, ClassVal, ExcVal, Builtin)):
                    return cls.name == "object"
                raise U("isinstance of %s" % type(v).__name__)
            if cls.name == "object":
                return True
            return cls.name in SUPERS.get(t, [t]) or cls.name in NUMBERS and t in NUMBERS[cls.name]
        raise U("isinstance")
    return f


NUMBERS = {"numbers.Number": {"int", "float", "bool", "numpy.float64"}, "numbers.Real": {"int", "float", "bool", "numpy.float64"}, "numbers.Integral": {"int", "bool"}}


class AnyVal(Sym):
    """value of a declared foreign type, used for argument validation"""

    def __init__(self, tname):
        self.tname = tname

    def isinstance(self, it, cls):
        if isinstance(cls, TypeVal):
            return cls.name == self.tname
        return False


def ext_modules(it):
    T_ = lambda n: TypeVal(n)
    pdm = ExtModule("pandas", {
        "DataFrame": T_("pandas.DataFrame"), "Series": T_("pandas.Series"), "DatetimeIndex": T_("pandas.DatetimeIndex"), "Index": T_("pandas.Index"), "RangeIndex": T_("pandas.RangeIndex"),
        "concat": B("pd.concat", pd_concat(it)), "to_datetime": B("pd.to_datetime", lambda x, **k: to_datetime(it, x)),
        "isna": B("pd.isna", np_isnan(it)), "isnull": B("pd.isnull", np_isnan(it)),
        "notna": B("pd.notna", lambda x: unary_not(it, np_isnan(it)(x))),
        "Timestamp": B("pd.Timestamp", lambda x: to_datetime(it, x)), "NA": None})
    pdm.table["DataFrame"].fn = pd_DataFrame(it)
    pdm.table["Series"].fn = pd_Series(it)
    types = ExtModule("pandas.api.types", {"is_numeric_dtype": B("is_numeric_dtype", is_numeric_dtype(it))})
    pdm.table["api"] = ExtModule("pandas.api", {"types": types})
    np_ = ExtModule("numpy", {
        "nan": float("nan"), "inf": float("inf"), "float64": T_("numpy.float64"), "int64": T_("numpy.int64"), "ndarray": T_("numpy.ndarray"),
        "floating": T_("numpy.floating"), "number": T_("numpy.number"),
        "zeros": B("np.zeros", lambda shape=None, dtype=None: np_full(it, shape, fin(R(0)))),
        "ones": B("np.ones", lambda shape=None, dtype=None: np_full(it, shape, fin(R(1)))),
        "empty": B("np.empty", lambda shape=None, dtype=None: np_full(it, shape, NAN)),
        "full": B("np.full", lambda shape=None, fill_value=None, dtype=None: np_full(it, shape, P.num_of(fill_value))),
        "where": B("np.where", np_where(it)),
        "abs": B("np.abs", np_elem(it, n_abs)), "absolute": B("np.absolute", np_elem(it, n_abs)), "fabs": B("np.fabs", np_elem(it, n_abs)), "sqrt": B("np.sqrt", np_elem(it, n_sqrt)),
        "square": B("np.square", np_elem(it, lambda x: n_mul(x, x))),
        "maximum": B("np.maximum", np_minmax(it, False)), "minimum": B("np.minimum", np_minmax(it, True)),
        "isnan": B("np.isnan", np_isnan(it)), "column_stack": B("np.column_stack", column_stack(it)),
        "array": B("np.array", lambda x, dtype=None: np_array(it, x)), "asarray": B("np.asarray", lambda x, dtype=None: np_array(it, x)),
        "arange": B("np.arange", lambda *a: np_array(it, mk_range(*a))),
        "count_nonzero": B("np.count_nonzero", lambda x: count_nonzero(it, x)),
        "round": B("np.round", lambda x, d=0: np_round(it, x, d)), "around": B("np.around", lambda x, d=0: np_round(it, x, d)),
        "logical_and": B("np.logical_and", lambda a, b: P.binop(it, "BitAnd", a, b)), "logical_or": B("np.logical_or", lambda a, b: P.binop(it, "BitOr", a, b)),
    })
    for nm in ("max", "min", "sum", "mean", "std"):
        np_.table[nm] = B("np." + nm, (lambda h: lambda x, axis=None: np_reduce2(it, x, h, axis))(nm))
    def np_float(x=0.0):
        if P.is_pynum(x) or P.is_scalar(x):
            return SNum(P.num_of(x), True)
        raise U("np.float64()")
    np_.table["float64"].fn = np_float
    np_.table["amax"], np_.table["amin"] = np_.table["max"], np_.table["min"]
    roll = ExtModule("statsmodels.regression.rolling", {"RollingOLS": B("RollingOLS", rolling_ols(it))})
    sm = ExtModule("statsmodels.api", {"add_constant": B("sm.add_constant", add_constant(it))})
    abc_ = ExtModule("abc", {"ABC": TypeVal("object"), "abstractmethod": B("abstractmethod", lambda f: f)})
    plt = Opaque("plt")
    return {"pandas": pdm, "pandas.api.types": types, "pandas.api": pdm.table["api"], "numpy": np_, "statsmodels.regression.rolling": roll,
            "statsmodels.api": sm, "statsmodels": ExtModule("statsmodels", {"api": sm}), "abc": abc_,
            "matplotlib.pyplot": plt, "matplotlib": Opaque("matplotlib"), "matplotlib.dates": Opaque("mdates"), "matplotlib.ticker": Opaque("mticker"),
            "math": ExtModule("math", {"sqrt": B("math.sqrt", lambda x: py_sqrt(it, x)), "floor": B("math.floor", lambda x: py_floor(it, x)),
                                       "isnan": B("math.isnan", np_isnan(it)), "fabs": B("math.fabs", lambda x: SNum(n_abs(P.num_of(x)), False)), "inf": float("inf"), "nan": float("nan")}),
            "numbers": ExtModule("numbers", {"Number": T_("numbers.Number"), "Real": T_("numbers.Real"), "Integral": T_("numbers.Integral")}),
            "typing": ExtModule("typing", {k: TypeVal("typing." + k) for k in ("Optional", "List", "Union", "Any", "Dict", "Tuple")}),
            "warnings": Opaque("warnings"), "copy": ExtModule("copy", {"copy": B("copy.copy", lambda x: copy_(it, x)), "deepcopy": B("copy.deepcopy", lambda x: copy_(it, x))})}


def copy_(it, x):
    if isinstance(x, (SFrame, SSeries)):
        return getattr_(it, x, "copy").fn()
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict):
        return dict(x)
    raise U("copy")


def unary_not(it, v):
    if isinstance(v, bool):
        return not v
    return P.unary_invert(it, v)


def to_datetime(it, x):
    if isinstance(x, SLabel):
        return x
    if isinstance(x, DateArg):
        if isinstance(x.means, type):
            raise RaiseEx(ExcVal(x.means, ()))
        return x.means
    raise U("to_datetime")


ABSENT = "#absent"      # base of a date that is not in the data


class DateArg(OpaqueStr):
    """a user supplied date string; means: the label it parses to, or the
    exception parsing raises"""

    def __init__(self, means, empty=False):
        self.means, self.empty = means, empty


def np_array(it, x):
    if isinstance(x, (SArr, SArr2)):
        return x
    ln, c = P.col_of_seq(x, I(0))
    return SArr(Buf(c), ln)


def np_round(it, x, d):
    if P.is_scalar(x):
        return SNum(n_round(d, P.num_of(x)), True)
    if isinstance(x, (SSeries, SFrame)):
        return apply_cols(x, lambda s: round_col(s.buf.col, d))
    return SArr(Buf(round_col(x.buf.col, d)), x.length, x.off)


def np_reduce2(it, x, how, axis):
    P.CUR[0] = it
    if isinstance(x, SFrame) and axis == 1:
        return row_reduce(x, how)
    if isinstance(x, (list, tuple)):
        r = P.num_of(x[0])
        for y in x[1:]:
            z = P.num_of(y)
            if how in ("max", "min"):
                c = n_lt(r, z) if how == "max" else n_lt(z, r)
                q = n_ite(c, z, r)
                r = Num(or_(r.nan, z.nan), q.inf, q.val)
            elif how == "sum":
                r = n_add(r, z)
            else:
                raise U("np." + how)
        return SNum(r, True)
    if isinstance(x, SList):
        x = np_array(it, x)
    return np_reduce(it, x, how, axis)


def count_nonzero(it, x):
    P.CUR[0] = it
    v = fresh("j")
    if isinstance(x, Filt):
        c = x.cols[0][1]
        m = x.mask.get(v)
        lo, hi = x.length
    elif isinstance(x, SSeries):
        c, m, lo, hi = x.buf.col, TRUE, x.index.start, P.idx_end(x.index)
    elif isinstance(x, SArr):
        c, m, lo, hi = x.buf.col, TRUE, x.off, add(x.off, x.length)
    elif isinstance(x, IndexMask):
        c, m, lo, hi = x.col, TRUE, I(0), x.length
    else:
        raise U("count_nonzero")
    if c.kind == "bool":
        t = and_(m, c.get(v))
    else:
        e = P.as_num_col(c).get(v)
        t = and_(m, or_(e.nan, not_(eq(e.inf, Z)), not_(eq0(e.val))))
    return P.mkint(fold("isum", (), v, (ite(t, I(1), I(0)),), lo, hi))


def py_sqrt(it, x):
    P.CUR[0] = it
    n = P.num_of(x)
    P.require(not_(lt0(n.val)), ValueError)
    return SNum(n_sqrt(n), False)


def py_floor(it, x):
    if P.is_pynum(x):
        return math.floor(x)
    raise U("floor")


def mk_range(*a):
    ts = [P.int_of(x) for x in a]
    if all(t.op == "const" for t in ts):
        return range(*[int(t.args[0]) for t in ts])
    step = 1
    if len(ts) == 1:
        lo, hi = I(0), ts[0]
    else:
        lo, hi = ts[0], ts[1]
        if len(ts) == 3:
            if ts[2].op != "const":
                raise U("range step")
            step = int(ts[2].args[0])
    if step not in (1, -1):
        raise U("range step")
    return SRange(lo, hi, step)


def builtins(it):
    def b_len(x):
        P.CUR[0] = it
        if isinstance(x, (SFrame, SSeries)):
            return P.mkint(x.index.length)
        if isinstance(x, (SIndex, RangeIdx, SArr, SArr2, SList, LList, IndexMask)):
            return P.mkint(x.length)
        if isinstance(x, (list, tuple, dict, str, set, range)):
            return len(x)
        if isinstance(x, ColumnIndex):
            return len(x.labels)
        if isinstance(x, FiltLabels):
            return P.mkint(mask_count(x.f))
        if isinstance(x, Filt):
            return P.mkint(mask_count(x))
        if isinstance(x, FiltIdx):
            return P.mkint(mask_count(Filt([], x.mask, (I(0), x.length))))
        if isinstance(x, SRange):
            return P.mkint(P.max0_(P.range_len(x)))
        if isinstance(x, RowSeries):
            return len(x.items)
        if x is None or P.is_scalar(x):
            raise RaiseEx(ExcVal(TypeError))
        raise U("len of %s" % type(x).__name__)

    def b_list(x=()):
        if isinstance(x, ColumnIndex):
            it.order_sensitive = True
            return list(x.labels)
        if isinstance(x, (SRange, SArr, SSeries)):
            s = it.concrete_iter(x)
            if s is not None:
                return s
            ln, g = P.seq_access(x)
            return SList(ln, g)
        if isinstance(x, SList):
            return x
        if isinstance(x, LList):
            r = LList(x.length, Buf(x.buf.col))
            r.meta.kinds |= x.meta.kinds
            return r
        if isinstance(x, SIndex):
            return SList(x.length, lambda k: SLabel(x.base, add(x.start, k)))
        s = it.concrete_iter(x)
        if s is None:
            raise U("list of %s" % type(x).__name__)
        return list(s)

    def minmax(name):
        def f(*a, **k):
            P.CUR[0] = it
            if set(k) - {"default"}:
                raise U(name + " options")
            xs = list(a)
            if len(xs) == 1:
                parts = getattr(xs[0], "parts", None)
                s = it.concrete_iter(xs[0])
                if s is None:
                    return sym_minmax(name, parts or [xs[0]])
                xs = s
                if not xs:
                    if "default" in k:
                        return k["default"]
                    raise RaiseEx(ExcVal(ValueError))
            if all(P.is_intlike(x) for x in xs):
                r = P.int_of(xs[0])
                for x in xs[1:]:
                    r = (P.simp_max if name == "max" else P.simp_min)(r, P.int_of(x))
                return P.mkint(r)
            if not any(isinstance(x, Sym) for x in xs):
                xs = [P.cnv(x) if isinstance(x, float) else x for x in xs]
                return max(xs) if name == "max" else min(xs)
            r = xs[0]
            for x in xs[1:]:
                p, q = P.num_of(r), P.num_of(x)
                c = n_gt(q, p) if name == "max" else n_lt(q, p)
                r = SNum(n_ite(c, q, p), P.is_np(r) or P.is_np(x))
            return r
        return f

    def sym_minmax(name, parts):
        r = None
        for p in parts:
            s = it.concrete_iter(p)
            if s is not None:
                for x in s:
                    n = P.num_of(x)
                    if P.dec(n.nan) is not False:
                        raise U("max of possibly missing values")
                    n = Num(FALSE, n.inf, n.val)
                    r = n if r is None else n_ite(n_gt(n, r) if name == "max" else n_lt(n, r), n, r)
                continue
            ln, g = P.seq_access(p)
            v = fresh("j")
            n = P.num_of(g(v))
            if P.dec_body(v, I(0), ln, P.ok_of(n)) is not True:
                raise U("max of possibly missing values")
            fo = fold(name, (), v, (n.val,), I(0), ln)
            nonempty = lt(I(0), ln)
            n = fin(fo)
            if r is None:
                P.require(nonempty, ValueError)
                r = n
            else:
                c = n_gt(n, r) if name == "max" else n_lt(n, r)
                r = n_ite(and_(nonempty, c), n, r)
        return SNum(r, True)

    def b_sum(x, start=0):
        P.CUR[0] = it
        s = it.concrete_iter(x)
        if s is not None:
            r = start
            for y in s:
                r = it.pd.binop(it, "Add", r, y)
            return r
        if isinstance(x, ColReduce):
            raise U("sum")
        ln, g = P.seq_access(x)
        v = fresh("j")
        e = g(v)
        if P.is_intlike(e):
            return P.mkint(add(P.int_of(start), fold("isum", (), v, (P.int_of(e),), I(0), ln)))
        if isinstance(e, SBool):
            return P.mkint(add(P.int_of(start), fold("isum", (), v, (ite(e.t, I(1), I(0)),), I(0), ln)))
        n = P.num_of(e)
        if n.inf is not Z and P.dec_body(v, I(0), ln, eq(n.inf, Z)) is not True:
            raise U("sum of infinite values")
        nan = n.nan
        if nan is not FALSE:
            nan = FALSE if P.dec_body(v, I(0), ln, not_(n.nan)) is True else fold("any", (), v, (n.nan,), I(0), ln)
        return SNum(n_add(P.num_of(start), Num(nan, Z, fold("sum", (), v, (n.val,), I(0), ln))), P.is_np(e))

    def b_abs(x):
        P.CUR[0] = it
        if P.is_pynum(x):
            return abs(P.cnv(x))
        if isinstance(x, SInt):
            return P.mkint(abs_(x.t))
        if isinstance(x, SNum):
            return SNum(n_abs(x.n), x.np)
        if isinstance(x, (SSeries, SFrame)):
            return apply_cols(x, lambda s: P.map1(P.as_num_col(s.buf.col), n_abs))
        if isinstance(x, SArr):
            return SArr(Buf(P.map1(P.as_num_col(x.buf.col), n_abs)), x.length, x.off)
        raise U("abs")

    def b_round(x, d=None):
        P.CUR[0] = it
        if isinstance(x, (SSeries, SFrame)):
            return apply_cols(x, lambda s: round_col(s.buf.col, d or 0))
        if isinstance(x, SNum):
            if d is None:
                raise U("round to integer")
            return SNum(n_round(d, x.n), x.np)
        if isinstance(x, SInt) or isinstance(x, int):
            return x
        if P.is_pynum(x):
            return round(P.cnv(x), d) if d is not None else round(P.cnv(x))
        raise U("round")

    def b_int(x=0):
        if isinstance(x, (bool, int)):
            return int(x)
        if P.is_pynum(x):
            return int(P.cnv(x))
        if isinstance(x, SInt):
            return x
        if isinstance(x, SNum):
            P.CUR[0] = it
            P.require(P.ok_of(x.n), ValueError)
            return P.mkint(itrunc(x.n.val))
        if isinstance(x, SBool):
            return P.mkint(ite(x.t, I(1), I(0)))
        raise U("int()")

    def b_float(x=0.0):
        if isinstance(x, str):
            return float(x)
        if P.is_pynum(x):
            return Fraction(P.cnv(x)) if not (isinstance(x, float) and not math.isfinite(x)) else x
        if P.is_scalar(x):
            return SNum(P.num_of(x), False)
        raise U("float()")

    def b_str(x=""):
        if isinstance(x, str):
            return x
        if isinstance(x, bool) or isinstance(x, int) or x is None:
            return str(x)
        if isinstance(x, (Fraction, float)):
            return str(float(x))
        if isinstance(x, (ExcVal,)):
            return str(x.args[0]) if len(x.args) == 1 and isinstance(x.args[0], str) else OpaqueStr()
        return OpaqueStr()

    def b_range(*a):
        P.CUR[0] = it
        return mk_range(*a)

    def b_zip(*a):
        ss = [it.concrete_iter(x) for x in a]
        if all(s is not None for s in ss):
            return list(zip(*ss))
        acc = [P.seq_access(x) for x in a]
        if any(x is None for x in acc):
            raise U("zip")
        ln = acc[0][0]
        for l, _ in acc[1:]:
            ln = P.simp_min(ln, l)
        return SList(ln, lambda k: tuple(g(k) for _, g in acc))

    def b_enumerate(x, start=0):
        s = it.concrete_iter(x)
        if s is not None:
            return list(enumerate(s, start))
        acc = P.seq_access(x)
        if acc is None:
            if isinstance(x, SIndex):
                acc = (x.length, lambda k: SLabel(x.base, add(x.start, k)))
            else:
                raise U("enumerate")
        return SList(acc[0], lambda k: (P.mkint(add(k, P.int_of(start))), acc[1](k)))

    def b_all(x, any_=False):
        s = it.concrete_iter(x)
        if s is not None:
            for y in s:
                t = it.truth(y)
                if t is any_:
                    return any_
            return not any_
        ln, g = P.seq_access(x)
        v = fresh("j")
        b = P.val_elem("bool", g(v))
        return P.mkbool(fold("any" if any_ else "all", (), v, (b,), I(0), ln))

    def b_sorted(x, **k):
        s = it.concrete_iter(x)
        if s is None or k:
            raise U("sorted")
        s = list(s)
        if deep_symbolic(s):
            P.CUR[0] = it
            sort_network(it, s)
            return s
        return sorted(s)

    def b_getattr(o, n, *d):
        try:
            return it.getattr(o, n)
        except RaiseEx as e:
            if d and isinstance(e.exc, ExcVal) and e.exc.cls is AttributeError:
                return d[0]
            raise

    def b_hasattr(o, n):
        try:
            it.getattr(o, n)
            return True
        except RaiseEx:
            return False

    def b_type(x):
        if isinstance(x, Instance):
            return x.cls
        if isinstance(x, ExcVal):
            return x.cls
        if isinstance(x, AnyVal):
            return TypeVal(x.tname)
        n = type_of(x)
        if n is None:
            raise U("type of %s" % type(x).__name__)
        return TypeVal(n)

    def b_tuple(x=()):
        s = it.concrete_iter(x)
        if s is None:
            raise U("tuple")
        return tuple(s)

    def b_set(x=()):
        s = it.concrete_iter(x)
        if s is None or deep_symbolic(s):
            raise U("set")
        return set(s)

    def b_dict(*a, **k):
        d = {}
        if a:
            d.update(a[0] if isinstance(a[0], dict) else it.concrete_iter(a[0]))
        d.update(k)
        return d

    def b_reversed(x):
        s = it.concrete_iter(x)
        if s is not None:
            return list(reversed(s))
        ln, g = P.seq_access(x)
        return SList(ln, lambda k: g(sub(sub(ln, I(1)), k)))

    def b_pow(a, b):
        return P.binop(it, "Pow", a, b)

    def b_print(*a, **k):
        return None

    def b_filter(f, x):
        s = it.concrete_iter(x)
        if s is None:
            raise U("filter")
        return [y for y in s if it.truth(it.call(f, [y], {}) if f is not None else y)]

    def b_map(f, *xs):
        ss = [it.concrete_iter(x) for x in xs]
        if any(s is None for s in ss):
            raise U("map")
        return [it.call(f, list(t), {}) for t in zip(*ss)]

    fns = {"len": b_len, "list": b_list, "max": minmax("max"), "min": minmax("min"), "sum": b_sum, "abs": b_abs, "round": b_round,
           "int": b_int, "float": b_float, "str": b_str, "range": b_range, "zip": b_zip, "enumerate": b_enumerate,
           "all": lambda x: b_all(x), "any": lambda x: b_all(x, True), "sorted": b_sorted, "isinstance": isinstance_(it),
           "getattr": b_getattr, "hasattr": b_hasattr, "type": b_type, "tuple": b_tuple, "set": b_set, "dict": b_dict,
           "reversed": b_reversed, "pow": b_pow, "print": b_print, "filter": b_filter, "map": b_map,
           "bool": lambda x=False: it.truth(x), "repr": lambda x: OpaqueStr(), "iter": lambda x: x, "callable": lambda x: isinstance(x, (Closure, Bound, Builtin, ClassVal)),
           "setattr": lambda o, n, v: it.setattr(o, n, v), "issubclass": lambda a, b: a.subclass_of(b) if isinstance(a, ClassVal) else (_ for _ in ()).throw(U("issubclass"))}
    out = {k: B(k, v) for k, v in fns.items()}
    # types that are also callable
    for n in ("int", "float", "str", "list", "tuple", "dict", "set", "bool"):
        tv = TypeVal(n)
        tv.fn = fns[n]
        out[n] = tv
    out["object"] = TypeVal("object")
    for e in (Exception, BaseException, ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, AttributeError, NotImplementedError,
              RuntimeError, ArithmeticError, LookupError, AssertionError, NameError, StopIteration, OverflowError):
        out[e.__name__] = e
    out["NotImplemented"] = None
    out["__name__"] = "tti"
    return out
