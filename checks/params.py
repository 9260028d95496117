"""P01: constructor parameters are accepted exactly in their documented range."""
import random
import time
from checks.common import Task, SEED, REPO
from checks.sym import *
from checks.inputs import Acc, path_image
from checks.concrete import Real, mined
from checks.shape import exc_name
from checks.values import prove, module_file
from engine import cases
from engine.pdops import AnyVal
from engine.interp import Unsupported
from engine.values import str_code
from fractions import Fraction as F

WRONG = {"int": ["str", "list", "dict", "tuple", "NoneType", "set", "complex"],
         "real": ["str", "list", "dict", "tuple", "NoneType", "set", "complex"],
         "enum": ["list", "dict", "tuple", "NoneType", "set"]}
ENUM_DEFAULT = {"ma_type": "simple", "d_method": "simple", "mode": "LONG"}


class Cls:
    """documented parameters of one class, merged over its variants"""

    def __init__(self, cls):
        self.cls = cls
        self.specs = [s for s in SPECS if s.cls == cls]
        self.names = []
        self.kind, self.default, self.ints = {}, {}, {}
        for s in self.specs:
            for k in s.fixed:
                if k not in self.names:
                    self.names.append(k)
                    self.kind[k] = "enum"
                    self.default[k] = ENUM_DEFAULT[k]
            for q in s.params:
                if q.name not in self.names:
                    self.names.append(q.name)
                    self.kind[q.name] = q.kind
                    self.default[q.name] = q.default
                    self.ints[q.name] = getattr(q, "ints", True)

    def in_range(self, s, q, v):
        """term: value v (of a right kind) is documented for parameter q"""
        if q.kind == "int":
            t = v.t if isinstance(v, SInt) else I(v)
            c = le(I(q.lo), t)
            if q.hi is not None:
                c = and_(c, le(t, I(q.hi)))
            if q.allowed:
                c = and_(c, or_(*[eq(t, I(a)) for a in q.allowed]))
            return c
        n = v.n if isinstance(v, SNum) else fin(toreal(v.t)) if isinstance(v, SInt) else fin(R(F(v)))
        c = TRUE
        if q.lo is not None:
            c = and_(c, (n_le if q.closed else n_lt)(fin(R(q.lo)), n))
        if q.hi is not None:
            c = and_(c, (n_le if q.closed else n_lt)(n, fin(R(q.hi))))
        return c

    def valid(self, a, skip=()):
        """term: the assignment is documented (parameters in skip ignored)"""
        out = []
        for s in self.specs:
            cs = []
            for k, w in s.fixed.items():
                if k not in skip:
                    cs.append(code_eq(a[k], w))
            for q in s.params:
                if q.name not in skip:
                    cs.append(self.in_range(s, q, a[q.name]))
            if s.pre and not skip:
                env = {q.name: a[q.name].t if isinstance(a[q.name], SInt) else I(a[q.name]) for q in s.params}
                cs += s.pre(env)
            out.append(and_(*cs))
        return or_(*out)

    def any_value(self, k):
        """right kinds of value for parameter k"""
        if self.kind[k] == "int":
            return [SInt(param("p_" + k, "I"))]
        if self.kind[k] == "real":
            x = SNum(Num(rdn("p_" + k, I(0)), rdi("p_" + k, I(0)), rd("p_" + k, I(0))), False)
            return [x] + ([SInt(param("p_" + k, "I"))] if self.ints[k] else [])
        # every documented name, and any other string
        return [s.fixed[k] for s in self.specs if k in s.fixed] + [SStr(param("p_" + k, "I"))]

    def wrong_values(self, k):
        out = [AnyVal(t) for t in WRONG[self.kind[k]]]
        if self.kind[k] == "int":
            out.append(SNum(Num(rdn("p_" + k, I(0)), rdi("p_" + k, I(0)), rd("p_" + k, I(0))), False))
        if self.kind[k] == "enum":
            out += [SInt(param("p_" + k, "I")), SNum(fin(rd("p_" + k, I(0))), False)]
        if self.kind[k] == "real" and not self.ints[k]:
            out.append(SInt(param("p_" + k, "I")))
        return out


def code_eq(v, w):
    return eq(v.t, I(str_code(w))) if isinstance(v, SStr) else TRUE if v == w else FALSE


def domain(c, a):
    """what the symbols stand for"""
    out = []
    for k, v in a.items():
        if isinstance(v, SNum):
            if v.n.inf.op != "const":
                out += [le(I(-1), v.n.inf), le(v.n.inf, I(1))]
        if isinstance(v, SStr):
            out.append(le(I(0), v.t))
            out += [not_(eq(v.t, I(str_code(s.fixed[k])))) for s in c.specs if k in s.fixed]
    return out


def product(lists):
    if not lists:
        yield []
        return
    for x in lists[0]:
        for r in product(lists[1:]):
            yield [x] + r


def explore(it, c, kw, pre):
    def fn():
        m = it.load(discover(it)[c.cls])
        return it.call(m.ns[c.cls], [input_arg()], dict(kw))
    return it.explore(fn, [le(I(1), N)] + pre)


def shown(v):
    return v.tname if isinstance(v, AnyVal) else "an integer" if isinstance(v, SInt) else "a float" if isinstance(v, SNum) else "a string" if isinstance(v, SStr) else repr(v)


def task(r, name, tier):
    c = Cls(name)
    rng = random.Random("P01/%s/%s/%d" % (name, tier, SEED))
    acc = Acc(r)
    strict = c.specs[0].skip == "strict"
    it0 = None

    def new():
        nonlocal it0
        fresh_world(strict)
        it0 = new_interp(REPO)
        return it0

    def run(tag, kw, wrong, pre=()):
        it = new()
        a = {k: v for k, v in kw.items() if k in c.names}
        right = [k for k in c.names if k not in wrong]
        try:
            paths = explore(it, c, kw, domain(c, a) + list(pre))
        except Exception as e:
            acc.add("%s.%s" % (name, tag), "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
            return
        for p in paths:
            nm = "accepted" if p.kind == "ok" else exc_name(p)
            it.pc = list(p.pc)
            pc = list(p.pc)
            det = "%s with %s" % (nm, {k: shown(v) for k, v in kw.items()})
            try:
                if nm in ("accepted", "NotEnoughInputData"):
                    if wrong:
                        s, d, fl = prove(pc, lambda pv: pv.valid(pc, FALSE), 20)
                    else:
                        ok = c.valid(a)
                        s, d, fl = prove(pc, lambda pv: pv.valid(pc, ok), 20)
                    acc.add("%s.%s.only_documented" % (name, tag), s, (det + "; " + d) if s != "proved" else "")
                elif nm == "WrongValueForInputParameter":
                    if wrong:
                        # another parameter is out of its own range
                        bad = or_(*[not_(c.in_range_any(k, a)) for k in right]) if right else FALSE
                    else:
                        bad = not_(c.valid(a))
                    s, d, fl = prove(pc, lambda pv: pv.valid(pc, bad), 20)
                    acc.add("%s.%s.refused_values" % (name, tag), s, (det + "; " + d) if s != "proved" else "")
                elif nm == "WrongTypeForInputParameter" and wrong:
                    acc.add("%s.%s.refused_types" % (name, tag), "proved")
                else:
                    s, d, fl = prove(pc, lambda pv: pv.valid(pc, FALSE), 20)
                    acc.add("%s.%s.exception" % (name, tag), s, (det + "; " + d) if s != "proved" else "")
            except Unsupported as e:
                acc.add("%s.%s" % (name, tag), "bounded", str(e)[:200])
        it.pc = []
        # some documented assignment is accepted at all
        if not wrong and not any(isinstance(v, SStr) for v in a.values()):
            ok = any(p.kind == "ok" and smt.check(list(p.pc)) == "sat" for p in paths)
            acc.add("%s.%s.reachable" % (name, tag), "proved" if ok else "bounded")
    for vals in product([c.any_value(k) for k in c.names]):
        run("values", dict(zip(c.names, vals)), ())
    for k in c.names:
        for w in c.wrong_values(k):
            kw = {q: c.any_value(q)[0] for q in c.names}
            kw[k] = w
            run("types", kw, (k,))
    base = {k: c.default[k] if not isinstance(c.default[k], float) else F(str(c.default[k])) for k in c.names}
    for w in [AnyVal(t) for t in ("str", "list", "dict", "tuple", "NoneType", "set", "float")] + [SInt(param("p_fill", "I"))]:
        run("fill_switch", {**base, "fill_missing_values": w}, ("fill_missing_values",))
    for w in (True, False):
        run("fill_switch", {**base, "fill_missing_values": w}, ())
    # omitted parameters: the documented default
    for k in c.names:
        try:
            fresh_world(strict)
            it = new_interp(REPO)
            m = it.load(discover(it)[c.cls])
            images = []
            for kw in (base, {q: v for q, v in base.items() if q != k}):
                images.append(sorted(map(repr, path_image(it, explore(it, c, kw, []), "data"))))
            ok = images[0] == images[1]
            acc.add("%s.default_%s" % (name, k), "proved" if ok else "failed", "" if ok else "%s omitted: not the documented default %s" % (k, c.default[k]))
        except Exception as e:
            acc.add("%s.default_%s" % (name, k), "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
    hard = acc.flush()
    if it0 is not None:
        r.used(it0)
        it0.pc = []
    search(r, c, rng, hard, tier)


def in_range_any(self, k, a):
    """value in range for some variant"""
    out = []
    for s in self.specs:
        if k in s.fixed:
            out.append(code_eq(a[k], s.fixed[k]))
        for q in s.params:
            if q.name == k:
                # out of range for the variants the other parameters select
                sel = and_(*[code_eq(a[f], w) for f, w in s.fixed.items() if f in a and isinstance(a[f], (SStr, str))])
                out.append(and_(sel, self.in_range(s, q, a[k])))
    return or_(*out)


Cls.in_range_any = in_range_any


# ------------------------------------------------------------------- concrete
def py(v):
    """argument as [kind, text]"""
    if v is None:
        return ["none", None]
    if isinstance(v, bool):
        return ["bool", v]
    if isinstance(v, int):
        return ["int", v]
    if isinstance(v, float):
        return ["float", repr(v)]
    if isinstance(v, str):
        return ["str", v]
    return v


def right(c, k, v):
    if c.kind[k] == "int":
        return isinstance(v, int)
    if c.kind[k] == "enum":
        return isinstance(v, str)
    return isinstance(v, float) or isinstance(v, int) and c.ints[k]


def ok_value(c, vals):
    from engine.ceval import Ev
    for s in c.specs:
        good = all(vals[k] == w for k, w in s.fixed.items())
        for q in s.params:
            v = vals[q.name]
            if v != v:
                good = False
                continue
            if q.lo is not None and not (v >= q.lo if q.kind == "int" or q.closed else v > q.lo):
                good = False
            if q.hi is not None and not (v <= q.hi if q.kind == "int" or q.closed else v < q.hi):
                good = False
            if getattr(q, "allowed", None) and v not in q.allowed:
                good = False
        if good and s.pre and not all(Ev({**{q.name: vals[q.name] for q in s.params}, "n": 1}, {}).ev(x) for x in s.pre(s.penv())):
            good = False
        if good:
            return True
    return False


def expect(c, vals, fill):
    """acceptable outcomes"""
    out = set()
    wrong = [k for k in c.names if not right(c, k, vals[k])]
    if wrong or not isinstance(fill, bool):
        out.add("WrongTypeForInputParameter")
        rest = {k: (vals[k] if k not in wrong else None) for k in c.names}
        if not all(any_ok(c, k, vals) for k in c.names if k not in wrong) or not wrong and not ok_value(c, vals):
            out.add("WrongValueForInputParameter")
        return out
    return {"accepted"} if ok_value(c, vals) else {"WrongValueForInputParameter"}


def any_ok(c, k, vals):
    v = vals[k]
    for s in c.specs:
        if k in s.fixed:
            if s.fixed[k] == v:
                return True
            continue
        if any(isinstance(vals[f], str) and vals[f] != w for f, w in s.fixed.items()):
            continue
        for q in s.params:
            if q.name == k and v == v:
                lo = q.lo is None or (v >= q.lo if q.kind == "int" or q.closed else v > q.lo)
                hi = q.hi is None or (v <= q.hi if q.kind == "int" or q.closed else v < q.hi)
                if lo and hi and (not getattr(q, "allowed", None) or v in q.allowed):
                    return True
    return False


def pool(c, k, consts):
    ints = [-7, -2, -1, 0, 1, 2, 3, 4, 5, 7, 10, 13, 26, 37] + [int(x) + d for x in consts if 1 <= x <= 60 and x == int(x) for d in (-1, 0, 1)]
    bad = [None, ["list", [3]], ["dict", {}], ["tuple", [3]], ["complex", "2"], ["object", 0]]
    if c.kind[k] == "int":
        return ints * 2 + [2.0, 3.5, float("nan"), float("inf"), "3", ""] + bad
    if c.kind[k] == "real":
        fl = [0.0, -0.0, 1.0, 0.5, 0.1, 0.999999, 1.000001, 1e-9, -1e-9, -0.05, 2.0, 2.5, -3.0, 5e-324, float("nan"), float("inf"), float("-inf")]
        return fl * 2 + [-2, -1, 0, 1, 2, 3] + ["0.5", ""] + bad
    names = [s.fixed[k] for s in c.specs if k in s.fixed]
    near = [x for w in names for x in (w.upper(), w.lower(), w.title(), w + " ", " " + w, w[:-1], w + "s", w[:3])]
    return names * 4 + near + ["", "none", "sma", "ema", "weighted"] + [3, 1.5] + bad


def search(r, c, rng, hard, tier):
    R_ = Real(REPO)
    it = new_interp(REPO)
    consts = mined(REPO, discover(it)[c.cls].replace(".", "/") + ".py")
    t_end = min(time.time() + (40 if hard else 5) * (1 if tier == "quick" else 5), getattr(r, "deadline", None) or 1e18)
    n = 420
    cols = c.specs[0].columns
    d = cases.data(rng, n, cols, c.specs[0].skip == "strict")
    data = {k: [float(x) for x in v] for k, v in d.items()}
    done = 0
    pools = {k: pool(c, k, consts) for k in c.names}
    todo = []
    for k in c.names:
        for v in pools[k]:
            todo.append({**c.default, k: v})
    for k in c.names:
        # around each other's value
        for k2 in c.names:
            if k2 != k and c.kind[k] == c.kind[k2] == "int":
                for x in (1, 2, 3, 5, 8):
                    for dd in (-1, 0, 1):
                        todo.append({**c.default, k: x, k2: x + dd})
    for _ in range(200 if tier == "quick" else 2000):
        if len(c.names) > 1:
            todo.append({k: rng.choice(pools[k]) for k in c.names})
    rng.shuffle(todo)
    fills = ["default", True, False] * 6 + [None, 0, 1, "True", "", 1.0, ["list", []]]
    todo = [{**c.default, "#fill": f} for f in fills[-9:]] + [{}] + todo
    try:
        for vals in todo:
            if time.time() > t_end:
                break
            vals = dict(vals)
            fill = vals.pop("#fill", "default")
            omit = not vals
            if omit:
                vals = dict(c.default)
            if any(v is None and c.default[k] is None for k, v in vals.items()):
                pass
            want = expect(c, vals, True if fill == "default" else fill)
            q = {"op": "params", "cls": c.cls, "data": data, "args": {} if omit else {k: py(v) for k, v in vals.items()}, "fill": None if fill == "default" else py(fill)}
            a = R_.ask(q)
            if "worker_error" in a:
                continue
            done += 1
            got = a.get("raised", "accepted")
            if got == "NotEnoughInputData" and "accepted" in want:
                continue
            if got not in want:
                r.violate("%s.%s" % (c.cls, sorted(want)[0]), "%s(%s%s): expected %s, got %s" % (
                    c.cls, vals, "" if fill == "default" else ", fill_missing_values=%r" % (fill,), " or ".join(sorted(want)), got),
                    {"kind": "params", "request": q, "expected": sorted(want), "got": a})
                return
            if omit and c.names:
                b = R_.ask({**q, "args": {k: py(v) for k, v in vals.items()}})
                if a.get("data") != b.get("data"):
                    r.violate("%s.defaults" % c.cls, "%s without parameters differs from the documented defaults %s" % (c.cls, vals),
                              {"kind": "params", "request": q, "expected": "the values of %s" % vals, "got": "other values"})
                    return
    finally:
        r.count("cases", done)
        R_.close()


def tasks(tier):
    names = []
    for s in SPECS:
        if s.cls not in names:
            names.append(s.cls)
    names.sort(key=lambda n: -len(Cls(n).names))
    return [Task(n, task, n, tier, limit=400 if tier == "quick" else 1500) for n in names]
