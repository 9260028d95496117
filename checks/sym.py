"""Symbolic set-up shared by the checks."""
from specs.lib import *
import specs.indicators  # noqa: F401  (fills SPECS)
from engine.driver import *
from engine.values import *
from engine import smt

ACTION = {"hold": 0, "buy": -1, "sell": 1}
M = param("m", "I")


def fresh_world(strict=False):
    """forget declarations and cached facts of an earlier run"""
    declare_positive()
    declare_bars(strict)
    declare_lb(N, 1)


def sym_params(sp):
    """(keyword values, preconditions) for documented parameter values"""
    ps, pre = {}, []
    for q in sp.params:
        t = q.term()
        if q.kind == "int":
            ps[q.name] = SInt(t)
            pre.append(le(I(q.lo), t))
            declare_lb(t, q.lo)
            if q.allowed:
                pre.append(or_(*[eq(t, I(a)) for a in q.allowed]))
        else:
            ps[q.name] = SNum(fin(t), False)
            if q.lo is not None:
                pre.append((le if q.closed else lt)(R(q.lo), t))
            if q.hi is not None:
                pre.append((le if q.closed else lt)(t, R(q.hi)))
    pre += sp.pre(sp.penv()) if sp.pre else []
    return {**ps, **sp.fixed}, pre


def spec_action(rules):
    t = I(0)
    for c, r in reversed(rules):
        t = ite(c, I(ACTION[r]), t)
    return t


def cut_frame(fr, m):
    ix = fr.index
    return SFrame(SIndex(ix.base, ix.start if hasattr(ix, "start") else I(0), m), [[l, b] for l, b in fr.cols])


def ti_shape(sp):
    """indicator cells a signal may see: any value; missing exactly where the
    value contract (V properties) says so when that depends on row numbers
    only, otherwise possibly missing; infinite likewise"""
    from engine.prover import int_only
    out = {}
    for l, s in sp.values(sp.penv()).items():
        v = fresh("j")
        c = s(v)
        nan = c.nan if int_only(c.nan) else None
        inf = c.inf if c.inf is Z else None

        def f(i, l=l, nan=nan, inf=inf, v=v):
            return Num(rdn("ti_" + l, i) if nan is None else subst(nan, {v: i}),
                       rdi("ti_" + l, i) if inf is None else inf, rd("ti_" + l, i))
        out[l] = f
    return out


def free_cell(name, i, inf=True):
    return Num(rdn(name, i), rdi(name, i) if inf else Z, rd(name, i))


def signal_paths(it, sp, ps, pre, free=False):
    """paths of getTiSignal on the first m rows of any indicator data; free 1:
    input and indicator cells may also be missing or infinite anywhere, free
    2: missing anywhere"""
    mod = discover(it)[sp.cls]
    env = sp.penv()

    def fn():
        o = it.call(it.load(mod).ns[sp.cls], [input_arg()], dict(ps))
        labels = o.attrs["_ti_data"].labels()
        L = o.attrs["_ti_data"].index.length
        mt = M if L is N else min_(M, L)
        shape = {l: (lambda i, l=l: free_cell("ti_" + l, i, free == 1)) for l in labels} if free else ti_shape(sp)
        o.attrs["_ti_data"] = SFrame(SIndex("D", I(0), mt), [[l, Buf(Col(shape.get(l) or (lambda i, l=l: ti_cell(l, i))))] for l in labels])
        o.attrs["_input_data"] = cut_frame(o.attrs["_input_data"], M)
        if free:
            f = o.attrs["_input_data"]
            o.attrs["_input_data"] = SFrame(f.index, [[l, Buf(Col(lambda i, l=l: free_cell("in_" + l, i, free == 1)))] for l, b in f.cols])
        o.ti_len = mt
        try:
            r = it.call(it.getattr(o, "getTiSignal"), [], {})
        except RaiseEx as e:
            return (Raised(e), o)
        return (r, o)
    return it.explore(fn, [le(I(1), N), le(I(1), M), le(M, N)] + list(pre))


class Raised:
    """getTiSignal itself raised (construction had succeeded)"""

    def __init__(self, e):
        self.exc = e.exc if hasattr(e, "exc") else e

    def __repr__(self):
        return "raises %s" % getattr(getattr(self.exc, "cls", None), "name", getattr(self.exc, "cls", self.exc))


def signal_ctx(sp, mt):
    hid = {l: h(sp.penv()) for l, h in sp.hidden}

    def inp(c, i):
        return hid[c](i) if c in hid else in_cell(c, i)
    shape = ti_shape(sp)
    return SigCtx(mt, lambda l, i: shape[l](i), inp)
