"""Symbolic construction of indicators."""
import ast
import os
from .terms import *
from .num import *
from .values import *
from .interp import Interp
from . import smt, pdmodel as P
from . import values as V

N = param("n", "I")
VALIDATE = "tti.utils.data_validation.validateInputData"

INDICATORS = {}


def discover(it):
    """class name -> (module name, ClassVal), from the package's public names"""
    out = {}
    d = os.path.join(it.repo, "tti", "indicators")
    for f in sorted(os.listdir(d)):
        if f.startswith("_") and f.endswith(".py") and not f.startswith("__") and f != "_technical_indicator.py":
            m = "tti.indicators." + f[:-3]
            tree = ast.parse(open(os.path.join(d, f)).read())
            for st in tree.body:
                if isinstance(st, ast.ClassDef) and any("TechnicalIndicator" in ast.unparse(b) for b in st.bases):
                    out[st.name] = m
    return out


def in_cell(name, i):
    """input cell: finite"""
    return fin(rd("in_" + name, i))


def in_frame(cols, n=N, base="D"):
    return SFrame(SIndex(base, I(0), n), [[c, Buf(Col((lambda c: lambda i: in_cell(c, i))(c)))] for c in cols])


def validate_contract(order=None, nan=False, n=N):
    def f(it, args, kw):
        names = ["input_data", "required_columns", "indicator_name", "fill_missing_values"]
        a = dict(zip(names, args))
        a.update(kw)
        req = a["required_columns"]
        req = list(req)
        src = a["input_data"]
        if isinstance(src, SFrame):
            # already validated, complete data handed on by the library itself
            byl = dict((l, b) for l, b in src.cols)
            for c in req:
                if c not in byl:
                    raise RaiseEx(ExcVal(ValueError, ()))
            fr = SFrame(src.index, [[c, Buf(byl[c].col)] for c in req])
            fr.is_input = True
            it.validated = getattr(it, "validated", []) + [a]
            return fr
        if order is not None:
            req = [req[k] for k in order if k < len(req)]
        fr = in_frame(req, n)
        fr.is_input = True
        fr.validated_from = a["input_data"]
        it.validated = getattr(it, "validated", []) + [a]
        return fr
    return f


def new_interp(repo=None, order=None, n=N, contracts=None):
    it = Interp(repo)
    V.CUR[0] = it
    it.contracts[VALIDATE] = validate_contract(order, n=n)
    if contracts:
        it.contracts.update(contracts)
    return it


def input_arg():
    """the user's frame before validation (opaque to the indicator code)"""
    return Opaque("user_frame")


def construct(it, cls, params, pre=()):
    """paths of constructing cls(input, **params)"""
    mod = discover(it)[cls]

    def fn():
        m = it.load(mod)
        return it.call(m.ns[cls], [input_arg()], dict(params))
    return it.explore(fn, [le(I(1), N)] + list(pre))


def declare_positive():
    smt.reset_decls()
    from . import terms
    terms._order.clear()
    for c in ("open", "high", "low", "close"):
        declare_positive_array("in_" + c)
    smt._nonneg_arrays.add("in_volume")


def declare_bars(strict=False):
    """low <= open, close <= high"""
    for c in ("open", "close"):
        declare_order("in_high", "in_" + c)
        declare_order("in_" + c, "in_low")
    declare_order("in_high", "in_low", strict)


def ti_cell(name, i):
    return Num(rdn("ti_" + str(name), i), rdi("ti_" + str(name), i), rd("ti_" + str(name), i))


def havoc_frame(labels, n=N, base="D"):
    return SFrame(SIndex(base, I(0), n), [[c, Buf(Col((lambda c: lambda i: ti_cell(c, i))(c)))] for c in labels])
