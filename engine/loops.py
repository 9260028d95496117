"""Loops with a symbolic number of iterations.

One symbolic iteration is executed (on a copy of the state, all paths); what it
changes becomes a system of recurrences over the iteration number, which is the
exact inductive summary of the loop (no bound on the number of iterations).
"""
import ast
import copy
import itertools
from .interp import BreakEx, ContinueEx, ReturnEx
from .terms import *
from .num import *
from .values import *
from . import smt

_ctr = itertools.count(1)


# ------------------------------------------------------------------ merging
def none_of(v):
    if v is None:
        return TRUE
    return getattr(v, "none", FALSE) if isinstance(v, SNum) else FALSE


def _isnum(v):
    return isinstance(v, (int, float, Fraction, SInt, SNum)) and not isinstance(v, bool)


def merge_values(c, x, y):
    """value that is x when c holds and y otherwise; Poison if not expressible"""
    from . import pdmodel as P
    if c is TRUE or x is y:
        return x
    if c is FALSE:
        return y
    if type(x) is type(y) and isinstance(x, (int, str, bool)) and x == y:
        return x
    if isinstance(x, Poison) or isinstance(y, Poison):
        return Poison("merge")
    if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
        return P.mkbool(ite(c, P.val_elem("bool", x), P.val_elem("bool", y)))
    if P.is_intlike(x) and P.is_intlike(y):
        return P.mkint(ite(c, P.int_of(x), P.int_of(y)))
    if (_isnum(x) or x is None) and (_isnum(y) or y is None):
        np_ = P.is_np(x) if x is not None else True
        np2 = P.is_np(y) if y is not None else True
        r = SNum(n_ite(c, P.num_of(x), P.num_of(y)), np_ and np2)
        nn = ite(c, none_of(x), none_of(y))
        if nn is not FALSE:
            r.none = nn
        return r
    if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
        return SStr(ite(c, P.val_elem("str", x), P.val_elem("str", y)))
    if isinstance(x, SLabel) and isinstance(y, SLabel) and x.base == y.base:
        return SLabel(x.base, ite(c, x.pos, y.pos))
    if type(x) is type(y) and isinstance(x, (tuple, list)) and len(x) == len(y):
        r = [merge_values(c, a, b) for a, b in zip(x, y)]
        if any(isinstance(a, Poison) for a in r):
            return Poison("merge")
        return type(x)(r)
    if isinstance(x, SSeries) and isinstance(y, SSeries) and x.index.same(y.index) and x.buf.kind == y.buf.kind:
        a, b, k = x.buf.col, y.buf.col, x.buf.kind
        return SSeries(x.index, Buf(Col(lambda i: sel(k, c, a.get(i), b.get(i)), k)), x.name)
    return Poison("merge of %s and %s" % (type(x).__name__, type(y).__name__))


def merge_paths(paths, npre, getval):
    """decision tree over the path conditions"""
    if len(paths) == 1:
        return getval(paths[0])

    def rec_(ps, d):
        if len(ps) == 1:
            return getval(ps[0])
        c = None
        for p in ps:
            if len(p.pc) > d:
                c = p.pc[d]
                break
        if c is None:
            raise Unsupported("path merge")
        a = [p for p in ps if len(p.pc) > d and p.pc[d] is c]
        b = [p for p in ps if not (len(p.pc) > d and p.pc[d] is c)]
        if not b:
            return rec_(a, d + 1)
        return merge_values(c, rec_(a, d + 1), rec_(b, d + 1))
    return rec_(paths, npre)


def cond_of(paths, npre):
    return or_(*[and_(*p.pc[npre:]) for p in paths])


def same_exc(paths):
    e0 = paths[0].value
    for p in paths[1:]:
        e = p.value
        if type(e) is not type(e0) or e.cls is not e0.cls:
            raise Unsupported("several exceptions in one loop")
    return e0


def split_raise(it, paths, npre, v, lo, hi):
    """fork on 'some iteration raises'; returns the non-raising paths"""
    bad = [p for p in paths if p.kind == "raise"]
    good = [p for p in paths if p.kind != "raise"]
    if not bad:
        return good
    r = cond_of(bad, npre)
    exc = same_exc(bad)
    f = fold("any", (), v, (r,), lo, hi)
    f = and_(lt(lo, hi), f)
    if it.fork(f):
        raise RaiseEx(exc)
    if not good:
        return []
    return good


# --------------------------------------------------------------- comprehension
def skolem_eval(it, lo, hi, thunk):
    """thunk(i) for an arbitrary lo <= i < hi -> (merged value, i)"""
    v = fresh("i")
    pre = list(it.pc) + [le(lo, v), lt(v, hi)]
    paths = it.explore(lambda: thunk(v), pre)
    good = split_raise(it, paths, len(pre), v, lo, hi)
    if not good:
        return None, v
    val = merge_paths(good, len(pre), lambda p: p.value)
    if isinstance(val, Poison):
        raise Unsupported("comprehension value: " + val.why)
    return val, v


def subst_value(val, v, t):
    m = {v: t}
    if isinstance(val, SNum):
        r = SNum(val.n.map(lambda x: subst(x, m)), val.np)
        if getattr(val, "none", FALSE) is not FALSE:
            r.none = subst(val.none, m)
        return r
    if isinstance(val, SInt):
        s = subst(val.t, m)
        return int(s.args[0]) if s.op == "const" else SInt(s)
    if isinstance(val, SBool):
        s = subst(val.t, m)
        return True if s is TRUE else False if s is FALSE else SBool(s)
    if isinstance(val, SStr):
        return SStr(subst(val.t, m))
    if isinstance(val, SLabel):
        return SLabel(val.base, subst(val.pos, m))
    if isinstance(val, (tuple, list)):
        return type(val)([subst_value(x, v, t) for x in val])
    if isinstance(val, Sym) and not isinstance(val, (OpaqueStr, Opaque)):
        raise Unsupported("comprehension element %s" % type(val).__name__)
    if isinstance(val, SRow):
        raise Unsupported("row element")
    if isinstance(val, (SSeries, SFrame, SArr)):
        raise Unsupported("series element")
    return val


def sym_comp(it, e, g, iterable, env2, mod):
    from . import pdmodel as P
    acc = P.seq_access(iterable)
    if acc is None:
        raise Unsupported("comprehension over %s" % type(iterable).__name__)
    n, get = acc
    if isinstance(iterable, SRange) and iterable.step == 1:
        lo, hi = iterable.lo, iterable.hi
        at = lambda i: P.mkint(i)
    else:
        lo, hi, at = I(0), n, get

    def one(i):
        env3 = Env(env2)
        it.assign(g.target, at(i), env3, mod)
        if g.ifs:
            cs = TRUE
            for c in g.ifs:
                b = it.ev(c, env3, mod)
                bt = it.as_bool_term(b)
                if bt is None:
                    bt = TRUE if it.truth(b) else FALSE
                cs = and_(cs, bt)
            if cs is not TRUE and cs is not FALSE:
                it.pc.append(cs) if False else None
            return (P.mkbool(cs), it.ev(e.elt, env3, mod))
        return it.ev(e.elt, env3, mod)
    val, v = skolem_eval(it, lo, hi, one)
    if val is None:
        return []
    ln = sub(hi, lo)
    d = it.decide(le(I(0), ln))
    if d is None:
        ln = ite(le(ln, I(0)), I(0), ln)
    elif d is False:
        return []
    if g.ifs:
        cnd, x = val
        if cnd is True:
            val = x
        else:
            m = SFList(ln, (lambda k: P.val_elem("bool", subst_value(cnd, v, add(lo, k)))),
                       (lambda k: subst_value(x, v, add(lo, k))))
            return m
    subst_value(val, v, v)
    return SList(ln, lambda k: subst_value(val, v, add(lo, k)))


class SFList(Immutable):
    """filtered comprehension: only usable by aggregate builtins"""

    def __init__(self, length, cond, get):
        self.length, self.cond, self.get = length, cond, get


def merge_call(it, fn, col, index):
    """elementwise call of fn on a column"""
    from . import pdmodel as P
    val, v = skolem_eval(it, index.start, add(index.start, index.length),
                         lambda i: fn(P.elem_val(col.kind, col.get(i))))
    if val is None:
        return Col(lambda i: NAN)
    k = P.kind_of_value(val)
    return Col(lambda i: P.val_elem(k, subst_value(val, v, i)), k)


# ------------------------------------------------------------------------ loops
class Cell:
    """a mutable location holding a scalar, changed by the loop body"""

    def __init__(self, kind, obj, key):
        self.kind, self.obj, self.key = kind, obj, key

    @property
    def id(self):
        return (self.kind, id(self.obj), self.key)

    def read(self, obj=None):
        o = obj if obj is not None else self.obj
        try:
            if self.kind == "env":
                return o.vars[self.key]
            if self.kind == "attr":
                return o.attrs[self.key]
            return o[self.key]
        except (KeyError, IndexError):
            return Poison("unbound " + str(self.key))

    def write(self, v, obj=None):
        o = obj if obj is not None else self.obj
        if self.kind == "env":
            o.vars[self.key] = v
        elif self.kind == "attr":
            o.attrs[self.key] = v
        else:
            o[self.key] = v


def assigned_names(body):
    out = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return out


def sorts_of(kind):
    return {"num": ("B", "I", "R"), "int": ("I",), "bool": ("B",), "str": ("I",)}[kind]


def vkind(v):
    from . import pdmodel as P
    if isinstance(v, (bool, SBool)):
        return "bool"
    if P.is_intlike(v):
        return "int"
    if isinstance(v, (float, Fraction, SNum)):
        return "num"
    if v is None:
        return "num"
    if isinstance(v, (str, SStr)):
        return "str"
    return None


def comps_of(kind, v):
    from . import pdmodel as P
    if kind == "num":
        return P.num_of(v).comps()
    if kind == "int":
        return (P.int_of(v),)
    return (P.val_elem(kind, v),)


def val_of(kind, cs, np=True):
    from . import pdmodel as P
    if kind == "num":
        return SNum(Num(*cs), np)
    if kind == "int":
        return P.mkint(cs[0])
    if kind == "bool":
        return P.mkbool(cs[0])
    return SStr(cs[0])


# candidate invariants on a carried integer s before iteration v
INT_INVS = [
    lambda ls, s, v: le(I(0), s),
    lambda ls, s, v: le(ls.lo, s),
    lambda ls, s, v: le(s, v),
    lambda ls, s, v: or_(le(s, sub(v, I(1))), eq(v, ls.lo)),
    lambda ls, s, v: le(s, sub(v, I(1))),
    lambda ls, s, v: lt(s, ls.hi),
]


DEBUG = False


class Restart(Exception):
    pass


class LoopSummary:
    """common machinery of for and while loops: iteration counter v in [lo,hi)"""

    def __init__(self, it, env, mod, body, bind, v, lo, hi):
        self.it, self.env, self.mod, self.body, self.bind = it, env, mod, body, bind
        self.v, self.lo, self.hi = v, lo, hi
        self.cells = {}       # id -> dict(cell, kind, mode)
        self.bufs = {}        # id(buf) -> dict(buf, d, nanmode)
        self.tag = "#L%d" % next(_ctr)
        self.extra = []       # extra conditions on v (while loops)

    # ------------------------------------------------------------ placeholders
    def ph(self, name, idx, sort):
        return uf(self.tag + name, (idx,), sort)

    def cell_head(self, k, c, at):
        """value of a carried cell before iteration `at`"""
        if c["mode"] == "poison":
            return Poison("carried object %s" % c["cell"].key)
        if c["mode"] == "counter":
            t = add(comps_of("int", c["init"])[0], scale(c["step"], sub(at, self.lo)))
            return val_of("int", (t,))
        kind = c["kind"]
        prev = sub(at, I(1))
        if kind == "num":
            nan = self.ph("%s.nan" % k, prev, "B") if c["nan"] else FALSE
            inf = self.ph("%s.inf" % k, prev, "I") if c["inf"] else Z
            r = SNum(Num(nan, inf, self.ph("%s.val" % k, prev, "R")), c.get("np", True))
            return r
        return val_of(kind, (self.ph("%s.%s" % (k, kind), prev, sorts_of(kind)[0]),))

    def buf_head(self, k, b):
        it, lo, v, d = self.it, self.lo, self.v, b["d"]
        init = b["init"]
        kind = b["kind"]
        if d is None:
            return init

        def f(q):
            if kind == "num":
                first = le(q, sub(add(lo, d), I(1)))
                ini = init.get(q)
                nan = self.ph("%s.nan" % k, q, "B") if b["nan"] else and_(first, ini.nan)
                if nan is not FALSE and not b["nan"] and it.decide(nan) is False:
                    nan = FALSE
                inf = self.ph("%s.inf" % k, q, "I") if b["inf"] else (Z if ini.inf is Z else ite(first, ini.inf, Z))
                w = Num(nan, inf, self.ph("%s.val" % k, q, "R"))
            else:
                w = self.ph("%s.%s" % (k, kind), q, sorts_of(kind)[0])
            cur = lt(q, add(v, d))
            dd = it.decide(cur)
            if dd is True:
                return w
            if dd is False:
                return init.get(q)
            return sel(kind, cur, w, init.get(q))
        return Col(f, kind)

    # ------------------------------------------------------------------- running
    def run(self):
        it = self.it
        heads = {}
        names = assigned_names(self.body)
        if not self.cells:
            for n in names:
                e = self.env
                if n in e.nonlocals:
                    e = e.parent
                    while n not in e.vars:
                        e = e.parent
                self.add_cell(Cell("env", e, n))
        pre = list(it.pc) + [le(self.lo, self.v), lt(self.v, self.hi)] + self.extra
        for k, c in self.cells.items():
            if c["mode"] == "carry" and c["kind"] == "int":
                if "inv" not in c:
                    c["inv"] = [q for q in range(len(INT_INVS)) if
                                smt.entails(list(it.pc) + [lt(self.lo, self.hi)], INT_INVS[q](self, comps_of("int", c["init"])[0], self.lo))]
                s = self.cell_head(c["n"], c, self.v).t
                pre += [INT_INVS[q](self, s, self.v) for q in c["inv"]]
        self.npre = len(pre)

        def one():
            memo = {}
            env2 = copy.deepcopy(self.env, memo)
            for k, c in self.cells.items():
                o = memo.get(id(c["cell"].obj), c["cell"].obj)
                if c["mode"] == "local":
                    if not isinstance(c["cell"].read(), Poison):
                        c["cell"].write(Poison("loop local %s" % c["cell"].key), o)
                    continue
                c["cell"].write(self.cell_head(c["n"], c, self.v), o)
            for k, b in self.bufs.items():
                nb = memo[k]
                nb.col = self.buf_head("b%d" % b["n"], b)
            start = {}
            for o in memo.get(id(memo), []):
                cp = memo.get(id(o))
                if isinstance(cp, Buf):
                    start[id(o)] = cp.col
                elif isinstance(cp, Instance):
                    start[id(o)] = dict(cp.attrs)
                elif isinstance(cp, (list,)):
                    start[id(o)] = list(cp)
                elif isinstance(cp, dict):
                    start[id(o)] = dict(cp)
                elif isinstance(cp, SFrame):
                    start[id(o)] = (cp.index, [tuple(c) for c in cp.cols])
                elif isinstance(cp, LList):
                    start[id(o)] = (cp.length, cp.buf)
                elif isinstance(cp, Env):
                    start[id(o)] = dict(cp.vars)
            nrec = len(it.record)
            kind, rv = "next", None
            try:
                self.bind(env2)
                it.block(self.body, env2, self.mod)
            except ContinueEx:
                pass
            except BreakEx:
                kind = "break"
            except ReturnEx as r:
                kind, rv = "return", r.value
            if len(it.record) != nrec:
                raise Unsupported("opaque effects inside a symbolic loop")
            return kind, rv, env2, memo, start
        return it.explore(one, pre)

    def add_cell(self, cell):
        if cell.id in self.cells:
            return False
        init = cell.read()
        k = vkind(init)
        c = {"cell": cell, "init": init, "kind": k, "n": len(self.cells), "nan": False, "inf": False, "np": True}
        if isinstance(init, Poison):
            c["mode"] = "local"
        elif k is None:
            c["mode"] = "poison"
        else:
            c["mode"] = "carry"
            if k == "num":
                n = comps_of("num", init)
                c["nan"] = n[0] is not FALSE
                c["inf"] = n[1] is not Z
                c["np"] = isinstance(init, SNum) and init.np
        self.cells[cell.id] = c
        return True

    def effects(self, paths):
        """check that everything changed is a known cell or buffer; extend and
        restart otherwise"""
        again = False
        for p in paths:
            if p.kind != "ok":
                continue
            kind, rv, env2, memo, start = p.value
            objs = list(memo.get(id(memo), []))
            skip = set(id(o.vars) for o in objs if isinstance(o, Env)) | set(id(o.attrs) for o in objs if isinstance(o, Instance))
            for o in objs:
                cp = memo.get(id(o))
                s = start.get(id(o))
                if id(o) in skip:
                    continue
                if isinstance(cp, Buf):
                    if cp.col is not s:
                        again |= self.buf_effect(o, cp, s)
                elif isinstance(cp, (Instance, dict, Env)):
                    cur = cp.attrs if isinstance(cp, Instance) else cp.vars if isinstance(cp, Env) else cp
                    ck = {"Instance": "attr", "Env": "env"}.get(type(cp).__name__, "item")
                    for key in set(cur) | set(s):
                        if key not in cur:
                            if ck == "env":
                                continue
                            raise Unsupported("deletion in loop")
                        if key not in s or cur[key] is not s[key]:
                            again |= self.add_cell(Cell(ck, o, key))
                elif isinstance(cp, list):
                    if len(cp) != len(s):
                        if len(cp) == len(s) + 1 and all(a is b for a, b in zip(cp, s)):
                            self.listify(o)
                            raise Restart()
                        raise Unsupported("list changes size in loop")
                    for q, (a, b) in enumerate(zip(cp, s)):
                        if a is not b:
                            again |= self.add_cell(Cell("item", o, q))
                elif isinstance(cp, SFrame):
                    if cp.index is not s[0] or len(cp.cols) != len(s[1]) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(cp.cols, s[1])):
                        raise Unsupported("frame structure changes in loop")
                elif isinstance(cp, LList):
                    if cp.length is not s[0]:
                        again |= self.add_cell(LenCell(o))
        return again

    def listify(self, lst):
        """replace a python list that grows in the loop by a symbolic list"""
        from . import pdmodel as P
        ln, col = P.col_of_seq(lst, I(0)) if lst else (I(0), Col(lambda i: NAN))
        new = LList(ln, Buf(col))
        for x in lst:
            new.note(x)
        memo = {}
        copy.deepcopy(self.env, memo)
        hit = 0
        e = self.env
        objs = [o for o in memo.get(id(memo), [])]
        e = self.env
        while e is not None and not e.is_module:
            for k, v in e.vars.items():
                if v is lst:
                    e.vars[k] = new
                    hit += 1
            e = e.parent
        for o in objs:
            if isinstance(o, Instance):
                for k, v in o.attrs.items():
                    if v is lst:
                        o.attrs[k] = new
                        hit += 1
            elif isinstance(o, list):
                for k, v in enumerate(o):
                    if v is lst:
                        o[k] = new
                        hit += 1
            elif isinstance(o, dict):
                for k, v in o.items():
                    if v is lst:
                        o[k] = new
                        hit += 1
        if not hit:
            raise Unsupported("growing list")
        self.cells = {k: c for k, c in self.cells.items() if c["init"] is not lst}

    def written(self, cp, s):
        """[(pos, elem)] writes from column s to the current one, newest first"""
        out = []
        c = cp.col
        while c is not s:
            w = getattr(c, "wlog", None)
            if w is None:
                return None
            out.append((w[0], w[1]))
            c = w[2]
        return out

    def buf_effect(self, o, cp, s):
        again = False
        b = self.bufs.get(id(o))
        if b is None:
            b = {"buf": o, "d": None, "init": o.col, "n": len(self.bufs), "nan": False, "inf": False, "kind": o.col.kind}
            self.bufs[id(o)] = b
            again = True
        ws = self.written(cp, s)
        if ws is None:
            raise Unsupported("bulk write in loop")
        if cp.col.kind != b["kind"]:
            again = True
        if cp.col.kind != b["kind"] and (b["kind"], cp.col.kind) in (("num", "str"), ("bool", "num")) and not b.get("promoted"):
            b["kind"] = cp.col.kind
            b["promoted"] = True
            o0, k0 = b["init"], b["init"].kind
            if k0 == "num" and b["kind"] == "str":
                b["init"] = Col(lambda i: I(-1), "str")
            elif k0 == "bool" and b["kind"] == "num":
                b["init"] = Col(lambda i: fin(ite(o0.get(i), R(1), R(0))))
            again = True
        for pos, e in ws:
            d = sub(pos, self.v)
            if self.foreign(d):
                self.deferred = True
                again = True
                continue
            if self.v in d.fv:
                self.deferred = True
                again = True
                continue
            if b["d"] is None:
                b["d"] = d
                again = True
            elif b["d"] is not d:
                raise Unsupported("loop writes at several positions")
        return again

    def foreign(self, t):
        return any(x.op == "uf" and str(x.args[0]).startswith(self.tag) for x in subterms(t).values())

    # ------------------------------------------------------------------ summary
    def summarise(self):
        it = self.it
        for rounds in range(14):
            try:
                paths = self.run()
                self.deferred = False
                known = (len(self.cells), len(self.bufs))
                eff = self.effects(paths)
                if DEBUG:
                    print("round", rounds, eff, self.deferred, [(c["cell"].kind, c["cell"].key, c["mode"], c.get("step")) for c in self.cells.values()], [(b["d"], b["kind"]) for b in self.bufs.values()], [p.kind for p in paths])
                if eff:
                    if known != (len(self.cells), len(self.bufs)):
                        continue
                    if self.deferred and not self.refine(paths):
                        raise Unsupported("loop writes at a position that is not iteration + constant")
                    continue
                if not self.refine(paths):
                    return paths
            except Restart:
                continue
        raise Unsupported("loop summary does not stabilise")

    def newval(self, c, p):
        kind, rv, env2, memo, start = p.value
        o = memo.get(id(c["cell"].obj), c["cell"].obj)
        return c["cell"].read(o)

    def refine(self, paths):
        """adapt kinds, counters, nan hypotheses; True if another round is due"""
        it = self.it
        again = False
        nxt = [p for p in paths if p.kind == "ok" and p.value[0] == "next"]
        for k, c in self.cells.items():
            if c["mode"] != "carry":
                continue
            vals = [self.newval(c, p) for p in nxt]
            for v in vals:
                kk = vkind(v)
                if kk != c["kind"]:
                    if kk in ("num", "int") and c["kind"] in ("num", "int"):
                        if c["kind"] == "int":
                            c["kind"] = "num"
                            again = True
                    elif kk == "bool" and c["kind"] == "num" or isinstance(v, Poison):
                        c["mode"] = "poison"
                        again = True
                    else:
                        c["mode"] = "poison"
                        again = True
                        break
            if again:
                continue
            if c["kind"] == "int" and not c.get("nocounter") and vals:
                ph = self.cell_head(c["n"], c, self.v)
                steps = [sub(comps_of("int", v)[0], ph.t) for v in vals]
                if all(s.op == "const" and s is steps[0] for s in steps):
                    c["mode"], c["step"] = "counter", int(steps[0].args[0])
                    again = True
                    continue
            if c["kind"] == "int":
                for q in list(c.get("inv", [])):
                    for p, v in zip(nxt, vals):
                        if not smt.entails(p.pc, INT_INVS[q](self, comps_of("int", v)[0], add(self.v, I(1)))):
                            c["inv"].remove(q)
                            again = True
                            break
            if c["kind"] == "num":
                for p, v in zip(nxt, vals):
                    n = comps_of("num", v)
                    if c["np"] and not (isinstance(v, SNum) and v.np):
                        pass
                    if not (isinstance(v, SNum) and v.np) and c["np"]:
                        c["np"] = False
                    if not c["nan"] and n[0] is not FALSE and not smt.entails(p.pc, not_(n[0])):
                        c["nan"] = again = True
                    if not c["inf"] and n[1] is not Z and not smt.entails(p.pc, or_(n[0], eq(n[1], Z))):
                        c["inf"] = again = True
        for k, b in self.bufs.items():
            if b["kind"] != "num" or b["d"] is None:
                continue
            for p in nxt:
                e = self.buf_elem(k, b, p)
                if not b["nan"] and e.nan is not FALSE and not smt.entails(p.pc, not_(e.nan)):
                    b["nan"] = again = True
                if not b["inf"] and e.inf is not Z and not smt.entails(p.pc, or_(e.nan, eq(e.inf, Z))):
                    b["inf"] = again = True
        return again

    def buf_elem(self, k, b, p):
        """element at position v+d after the iteration, on path p"""
        kind, rv, env2, memo, start = p.value
        cp = memo[k]
        self.it.pc, sv = list(p.pc), self.it.pc
        try:
            return cp.col.get(add(self.v, b["d"]))
        finally:
            self.it.pc = sv

    # ------------------------------------------------------------- final state
    def close(self, nxt):
        """closed component functions:  name -> (idx -> term)"""
        it, v, lo = self.it, self.v, self.lo
        bodies = {}           # placeholder name -> body in terms of index v
        simp = {}
        for k, c in self.cells.items():
            if c["mode"] not in ("carry",):
                continue
            m = merge_paths(nxt, self.npre, lambda p: self.newval(c, p))
            if isinstance(m, Poison):
                c["mode"] = "poison"
                c["final_poison"] = True
                continue
            kind = c["kind"]
            new = comps_of(kind, m)
            ini = comps_of(kind, c["init"])
            first = lt(v, lo)
            if kind == "num":
                nm = ["%s.nan" % c["n"], "%s.inf" % c["n"], "%s.val" % c["n"]]
                if c["nan"]:
                    bodies[nm[0]] = ite(first, ini[0], new[0])
                if c["inf"]:
                    bodies[nm[1]] = ite(first, ini[1], new[1])
                bodies[nm[2]] = ite(first, ini[2], new[2])
            else:
                bodies["%s.%s" % (c["n"], kind)] = ite(first, ini[0], new[0])
        for k, b in self.bufs.items():
            if b["d"] is None:
                continue
            m = merge_paths(nxt, self.npre, lambda p: ElemBox(b["kind"], self.buf_elem(k, b, p)))
            e = m.e
            at = {v: sub(v, b["d"])}
            first = lt(v, add(lo, b["d"]))
            ini = b["init"].get(v)
            if b["kind"] == "num":
                nm = ["%s.nan" % ("b%d" % b["n"]), "%s.inf" % ("b%d" % b["n"]), "%s.val" % ("b%d" % b["n"])]
                if b["nan"]:
                    bodies[nm[0]] = ite(first, ini.nan, subst(e.nan, at))
                if b["inf"]:
                    bodies[nm[1]] = ite(first, ini.inf, subst(e.inf, at))
                bodies[nm[2]] = ite(first, ini.val, subst(e.val, at))
            else:
                bodies["b%d.%s" % (b["n"], b["kind"])] = ite(first, ini, subst(e, at))
        return close_system(self.tag, v, bodies, lo)

    def buf_head_name(self, b):
        return "b%d" % b["n"]


class ElemBox:
    def __init__(self, kind, e):
        self.kind, self.e = kind, e


_mv = merge_values


def merge_values(c, x, y):  # noqa: F811
    if isinstance(x, ElemBox):
        return x if x is y else ElemBox(x.kind, sel(x.kind, c, x.e, y.e))
    return _mv(c, x, y)


class LenCell(Cell):
    """length of a symbolic list"""

    def __init__(self, obj):
        Cell.__init__(self, "len", obj, "length")

    def read(self, obj=None):
        from . import pdmodel as P
        return P.mkint((obj if obj is not None else self.obj).length)

    def write(self, v, obj=None):
        from . import pdmodel as P
        (obj if obj is not None else self.obj).length = P.int_of(v)


def close_system(tag, v, bodies, lo):
    """turn placeholder bodies into closed functions idx -> term"""
    names = list(bodies)

    def deps(t):
        out = set()
        for x in subterms(t).values():
            if x.op == "uf" and str(x.args[0]).startswith(tag):
                out.add(str(x.args[0])[len(tag):])
            if x.op == "sys":
                for y in x.args:
                    if any(z.op == "uf" and str(z.args[0]).startswith(tag) for z in subterms(y).values()):
                        raise Unsupported("nested recurrence")
        return out
    dep = {n: deps(bodies[n]) for n in names}
    for n in names:
        for m in dep[n]:
            if m not in bodies:
                raise Unsupported("recurrence on unknown component")
    # strongly connected components (tiny graphs)
    reach = {n: set(dep[n]) for n in names}
    ch = True
    while ch:
        ch = False
        for n in names:
            for m in list(reach[n]):
                new = reach[m] - reach[n]
                if new:
                    reach[n] |= new
                    ch = True
    done = {}
    left = set(names)

    def replace_ph(t, group, idxmap):
        memo = {}

        def go(x):
            r = memo.get(x.id)
            if r is not None:
                return r
            if x.op == "uf" and str(x.args[0]).startswith(tag):
                n = str(x.args[0])[len(tag):]
                i = go(x.args[1])
                if n in done:
                    r = done[n](i)
                else:
                    r = self_(group.index(n), i, x.sort)
            elif x.op in ("sys",) or not any(True for _ in children(x)):
                r = x
            else:
                r = rebuild(x, go)
            memo[x.id] = r
            return r
        return go(t)
    while left:
        for n in names:
            if n in left:
                grp = sorted([m for m in left if m == n or (m in reach[n] and n in reach[m])])
                outside = set().union(*[dep[m] for m in grp]) - set(grp)
                if outside & left:
                    continue
                if len(grp) == 1 and n not in dep[n]:
                    body = replace_ph(bodies[n], [], None)
                    done[n] = (lambda body: lambda i: subst(body, {v: i}))(body)
                else:
                    bs = tuple(replace_ph(bodies[m], grp, None) for m in grp)
                    s = recognise(v, bs, lo) if len(grp) == 1 else None
                    if s is not None:
                        done[n] = s
                    else:
                        sy = mk_sys(v, bs)
                        for q, m in enumerate(grp):
                            done[m] = (lambda sy, q: lambda i: rec(sy, q, i))(sy, q)
                left -= set(grp)
                break
        else:
            raise Unsupported("recurrence order")
    return done


def recognise(v, bs, lo):
    """R(k) = R(k-1) + f(k) (and max/min/or/and) as a closed fold"""
    b = bs[0]
    if b.op != "ite":
        return None
    first, ini, step = b.args
    k0 = None
    # first: v < k0 with k0 free of v
    if first.op == "ile0":
        p = first.args[0]
        c = lincoef(p, v)
        if c == 1:
            k0 = add(neg(sub(p, v)), I(1))
        elif c == -1:
            # not first: v >= k0
            ini, step = step, ini
            k0 = add(p, v)
    if k0 is None or v in k0.fv or v in ini.fv or has_self(ini):
        return None
    me = self_(0, sub(v, I(1)), b.sort)
    if b.sort in ("R", "I"):
        f = sub(step, me)
        if not has_self(f):
            kind = "sum" if b.sort == "R" else "isum"

            def g(i):
                u = fresh("j")
                return add(ini, ite(lt(i, k0), I(0) if b.sort == "I" else R(0),
                                    fold(kind, (), u, (subst(f, {v: u}),), k0, add(i, I(1)))))
            return g
    if step.op == "ite" and b.sort != "B":
        # value of the last row with a condition
        def other(t):
            if t is me:
                return FALSE
            if t.op == "ite":
                return ite(t.args[0], other(t.args[1]), other(t.args[2]))
            return TRUE
        c, e = other(step), put_self(step, me, I(0) if b.sort == "I" else R(0))
        ls = {}
        _leaves(step, me, ls)
        if len(ls) == 1:
            e, = ls.values()
        if c is not TRUE and not has_self(c) and _only_leaf(step, me):
            def last(i):
                u = fresh("j")
                cu = subst(c, {v: u})
                hi = add(i, I(1))
                return ite(and_(le(k0, i), fold("any", (), u, (cu,), k0, hi)), subst(e, {v: fold("last", (), u, (cu,), k0, hi)}), ini)
            return last
    if b.sort == "B":
        t, f = put_self(step, me, TRUE), put_self(step, me, FALSE)
        if not has_self(t) and not has_self(f):
            if t is TRUE:
                return lambda i: or_(ini, and_(le(k0, i), quant("any", f, v, k0, i)))
            if f is FALSE:
                return lambda i: and_(ini, or_(lt(i, k0), quant("all", t, v, k0, i)))
    return None


def _only_leaf(t, me):
    """is me only a leaf of the case distinction t?"""
    if t is me:
        return True
    if t.op == "ite":
        return not has_self(t.args[0]) and _only_leaf(t.args[1], me) and _only_leaf(t.args[2], me)
    return not has_self(t)


def _leaves(t, me, out):
    """the values of the case distinction t other than me"""
    if t.op == "ite":
        _leaves(t.args[1], me, out)
        _leaves(t.args[2], me, out)
    elif t is not me:
        out[t.id] = t


def quant(kind, t, v, k0, i):
    u = fresh("j")
    return fold(kind, (), u, (subst(t, {v: u}),), k0, add(i, I(1)))


def put_self(t, me, x):
    memo = {}

    def go(q):
        r = memo.get(q.id)
        if r is None:
            r = x if q is me else q if not any(True for _ in children(q)) else rebuild(q, go)
            memo[q.id] = r
        return r
    return go(t)


# -------------------------------------------------------------------- statements
def sym_for(it, st, iterable, env, mod):
    from . import pdmodel as P
    P.CUR[0] = it
    acc = P.seq_access(iterable)
    enum = None
    if acc is None and isinstance(iterable, Enum):
        acc = P.seq_access(iterable.seq)
        enum = iterable
    if acc is None:
        raise Unsupported("loop over %s" % type(iterable).__name__)
    n, get = acc
    if isinstance(iterable, SRange) and iterable.step == 1:
        lo, hi = iterable.lo, iterable.hi
        at = P.mkint
    else:
        lo, hi, at = I(0), n, get
    if enum is not None:
        g0 = at
        at = lambda i: (P.mkint(add(i, enum.start)), g0(i))
    if it.for_hook is not None and it.for_hook(it, st, lo, hi, at, env, mod):
        return
    v = fresh("i")
    ls = LoopSummary(it, env, mod, st.body, lambda e: it.assign(st.target, at(v), e, mod), v, lo, hi)
    # the target is never carried
    finish(it, ls, st, env, mod, lambda e, k: it.assign(st.target, at(k), e, mod), target=st.target)


class Enum(Immutable):
    def __init__(self, seq, start):
        self.seq, self.start = seq, start


def finish(it, ls, st, env, mod, bind_at, target=None):
    nonempty = it.decide(lt(ls.lo, ls.hi))
    if nonempty is False:
        it.block(st.orelse, env, mod)
        return
    tnames = set(x.id for x in ast.walk(target) if isinstance(x, ast.Name)) if target is not None else set()
    paths = ls.summarise()
    it.loop_count = getattr(it, "loop_count", 0) + 1
    brk = [p for p in paths if p.kind == "ok" and p.value[0] in ("break", "return")]
    nxt = [p for p in paths if p.kind == "ok" and p.value[0] == "next"]
    bad = [p for p in paths if p.kind == "raise"]
    if brk or bad:
        comps = ls.close(nxt) if nxt else {}
        stop = and_(cond_of(brk + bad, ls.npre))
        stop = fill(ls.tag, stop, comps)
        anyc = and_(lt(ls.lo, ls.hi), fold("any", (), ls.v, (stop,), ls.lo, ls.hi))
        if it.fork(anyc):
            if bad and not brk:
                raise RaiseEx(same_exc(bad))
            k = fold("first", (), ls.v, (stop,), ls.lo, ls.hi)
            it.assume(le(ls.lo, k))
            it.assume(lt(k, ls.hi))
            it.assume(subst(stop, {ls.v: k}))
            apply_state(it, ls, comps, k, env)
            bind_at(env, k)
            try:
                it.block(st.body, env, mod)
            except BreakEx:
                return
            except ContinueEx:
                pass
            raise Unsupported("search loop did not stop where expected")
        if not nxt:
            # every iteration stops, none happened: empty loop
            it.assume(le(ls.hi, ls.lo))
            it.block(st.orelse, env, mod)
            return
    comps = ls.close(nxt)
    # values of loop locals after the loop
    locs = {}
    for k, c in ls.cells.items():
        if c["mode"] == "local" or c["mode"] == "poison":
            try:
                m = merge_paths(nxt, ls.npre, lambda p: ls.newval(c, p))
            except Unsupported:
                m = Poison("merge")
            locs[k] = m
    apply_state(it, ls, comps, ls.hi, env)
    ne = it.decide(lt(ls.lo, ls.hi))
    for k, c in ls.cells.items():
        if k in locs:
            m = locs[k]
            if ne is True and not isinstance(m, Poison):
                try:
                    m = subst_value(fill_value(ls.tag, m, comps), ls.v, sub(ls.hi, I(1)))
                except Unsupported:
                    m = Poison("loop local")
                c["cell"].write(m)
            else:
                c["cell"].write(Poison("loop local %s" % (c["cell"].key,)))
    it.block(st.orelse, env, mod)


def fill(tag, t, comps):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "uf" and str(x.args[0]).startswith(tag):
            n = str(x.args[0])[len(tag):]
            if n not in comps:
                raise Unsupported("component %s not summarised" % n)
            r = comps[n](go(x.args[1]))
        elif x.op == "sys" or not any(True for _ in children(x)):
            r = x
        else:
            r = rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


def fill_value(tag, v, comps):
    if isinstance(v, SNum):
        r = SNum(v.n.map(lambda t: fill(tag, t, comps)), v.np)
        if getattr(v, "none", FALSE) is not FALSE:
            r.none = fill(tag, v.none, comps)
        return r
    if isinstance(v, SInt):
        return SInt(fill(tag, v.t, comps))
    if isinstance(v, SBool):
        return SBool(fill(tag, v.t, comps))
    if isinstance(v, SStr):
        return SStr(fill(tag, v.t, comps))
    if isinstance(v, (tuple, list)):
        return type(v)(fill_value(tag, x, comps) for x in v)
    if isinstance(v, Sym):
        raise Unsupported("loop local")
    if v is None or isinstance(v, (int, float, str, Fraction)):
        return v
    raise Unsupported("loop local object")


def apply_state(it, ls, comps, at, env):
    """write the state before iteration `at` (lo <= at <= hi) into the program"""
    prev = sub(at, I(1))
    empty = it.decide(le(at, ls.lo))
    for k, c in ls.cells.items():
        if c["mode"] == "counter":
            t = comps_of("int", c["init"])[0]
            steps = sub(at, ls.lo)
            d = it.decide(le(I(0), steps))
            if d is not True:
                steps = ite(le(steps, I(0)), I(0), steps)
            c["cell"].write(val_of("int", (add(t, scale(c["step"], steps)),)))
        elif c["mode"] == "carry":
            kind = c["kind"]
            if kind == "num":
                nm = "%s" % c["n"]
                nan = comps[nm + ".nan"](prev) if nm + ".nan" in comps else FALSE
                inf = comps[nm + ".inf"](prev) if nm + ".inf" in comps else Z
                c["cell"].write(SNum(Num(nan, inf, comps[nm + ".val"](prev)), c["np"]))
            else:
                c["cell"].write(val_of(kind, (comps["%s.%s" % (c["n"], kind)](prev),)))
    for k, b in ls.bufs.items():
        if b["d"] is None:
            continue
        lo2, hi2, init, kind = add(ls.lo, b["d"]), add(at, b["d"]), b["init"], b["kind"]
        nm = "b%d" % b["n"]

        def f(q, lo2=lo2, hi2=hi2, init=init, kind=kind, nm=nm):
            inn = and_(le(lo2, q), lt(q, hi2))
            d = it.decide(inn)
            if d is False:
                return init.get(q)
            if kind == "num":
                nan = comps[nm + ".nan"](q) if nm + ".nan" in comps else FALSE
                inf = comps[nm + ".inf"](q) if nm + ".inf" in comps else Z
                w = Num(nan, inf, comps[nm + ".val"](q))
            else:
                w = comps[nm + "." + kind](q)
            if d is True:
                return w
            return sel(kind, inn, w, init.get(q))
        b["buf"].col = Col(f, kind)


def sym_while(it, st, env, mod):
    from . import pdmodel as P
    P.CUR[0] = it
    # concrete unrolling while the condition is decided
    for _ in range(2000):
        n = len(it.pc)
        try:
            it.nofork += 1
            try:
                c = it.truth(it.ev(st.test, env, mod))
            finally:
                it.nofork -= 1
        except ForkNeeded:
            break
        if not c:
            it.block(st.orelse, env, mod)
            return
        if isinstance(st.test, ast.Constant):
            raise Unsupported("while True")
        try:
            it.block(st.body, env, mod)
        except BreakEx:
            return
        except ContinueEx:
            continue
    else:
        raise Unsupported("long while loop")
    v = fresh("t")
    big = fresh("T")
    ls = LoopSummary(it, env, mod, st.body, lambda e: None, v, I(0), big)
    # discover counters with an unconstrained number of iterations
    box = {}

    def bind(e):
        b = it.as_bool_term(it.ev(st.test, e, mod))
        if b is None:
            raise Unsupported("while condition")
        box["cond"] = b
        it.assume(b)
    ls.bind = bind
    ls.summarise()
    cond = box["cond"]
    if ls.foreign(cond):
        raise Unsupported("while condition depends on carried state")
    T_ = None
    if cond.op == "ile0":
        p = cond.args[0]
        if lincoef(p, v) == 1:
            T_ = add(neg(sub(p, v)), I(1))
    if T_ is None or v in T_.fv:
        raise Unsupported("while condition")
    if it.decide(le(I(0), T_)) is not True:
        T_ = ite(le(T_, I(0)), I(0), T_)
    ls2 = LoopSummary(it, env, mod, st.body, lambda e: None, v, I(0), T_)
    finish(it, ls2, st, env, mod, lambda e, k: None)
