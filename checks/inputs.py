"""D01-D04: the contract of the input validation, on the real source of
validateInputData / fillMissingValues, and what the indicators do with the
caller's frame."""
import ast
import itertools
import os
import random
import re
import time
from checks.common import Task, SEED, REPO
from checks.sym import *
from checks import concrete
from checks.concrete import Real, differ
from checks.shape import exc_name
from checks.values import prove, module_file
from engine import select, cases
from engine.pdops import AnyVal
from engine.interp import Unsupported

K = param("k", "I")
MOD = "tti.utils.data_validation"
PRE = "tti.utils.data_preprocessing"
LISTS = [["close"], ["volume"], ["close", "volume"], ["high", "low"], ["open", "close"], ["high", "low", "volume"],
         ["high", "low", "close"], ["open", "high", "low", "close"], ["high", "low", "close", "volume"], ["close", "volume", "high", "low"]]
STYLES = [str.lower, str.upper, str.title, lambda c: "".join(x.upper() if i % 2 else x for i, x in enumerate(c))]
# (position, label, kind) of columns nobody asked for
EXTRAS = [[], [(0, "x", "num")], [(9, "Name", "obj")], [(1, "adj close", "num"), (0, "closed", "obj")],
          [(0, 0, "num")], [(9, "dividends", "num"), (0, "lowest", "num"), (1, "Volume.1", "obj")], [(9, "hig", "obj"), (0, "", "num")]]
NEEDED = ("open", "high", "low", "close", "volume")


def mined_names(files=("tti/utils/data_validation.py", "tti/utils/data_preprocessing.py")):
    """short string constants of the source: names an additional column could collide with"""
    out = set()
    for f in files:
        try:
            tree = ast.parse(open(os.path.join(REPO, f)).read())
        except (OSError, SyntaxError):
            continue
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and re.fullmatch(r"[A-Za-z_][\w .-]{0,20}", x.value) \
                    and x.value.lower() not in NEEDED:
                out.add(x.value)
    return sorted(out)


def extras():
    """the sets of additional columns; the last ones hold every name the source mentions"""
    names, seen = [], set()
    for n in mined_names():
        if n.lower() not in seen:
            seen.add(n.lower())
            names.append(n)
    out = list(EXTRAS)
    for k in range(0, min(len(names), 40), 8):
        out.append([(0, n, "num" if i % 2 else "obj") for i, n in enumerate(names[k:k + 8])])
        out.append([(9, n, "obj" if i % 2 else "num") for i, n in enumerate(names[k:k + 8])])
    return out


FOREIGN = ["int", "str", "list", "dict", "tuple", "NoneType", "pandas.Series", "numpy.ndarray", "set", "float"]


def ucell(c, i):
    return Num(rdn("u_" + c, i), rdi("u_" + c, i), rd("u_" + c, i))


def perm(i):
    return uf("perm_U", (i,), "I")


def user_frame(cols, kinds=None, n=N, index="date"):
    """a caller's frame: any rows in any order; cells named by the lower case label"""
    out = []
    for j, c in enumerate(cols):
        if (kinds or {}).get(c, "num") == "obj":
            col = Col((lambda j: lambda i: uf("obj_%d" % j, (i,), "I"))(j), "obj")
        else:
            nm = c.lower() if isinstance(c, str) else "#%r" % (c,)
            col = Col((lambda nm: lambda i: ucell(nm, i))(nm))
        out.append([c, Buf(col)])
    if index == "range":
        ix = RangeIdx(n)
    else:
        ix = SIndex("U", I(0), n, True)
        if index != "date":
            ix.other = index
    return SFrame(ix, out)


def sorted_cell(c, i):
    return ucell(c, perm(i))


def filled_cell(c, i, n=N):
    """latest earlier known value, else earliest later one"""
    s = lambda j: sorted_cell(c, j)
    v = fresh("j")
    known = not_(s(v).nan)
    prev, nxt = fold("any", (), v, (known,), I(0), i), fold("any", (), v, (known,), i, n)
    a, b = s(fold("last", (), v, (known,), I(0), i)), s(fold("first", (), v, (known,), i, n))
    here = s(i)
    return n_ite(here.nan, n_ite(prev, a, n_ite(nxt, b, NAN)), here)


def snapshot(fr):
    return (fr.index, [(l, b, b.col) for l, b in fr.cols])


def unchanged(fr, snap):
    return fr.index is snap[0] and len(fr.cols) == len(snap[1]) and all(
        l == l2 and type(l) is type(l2) and b is b2 and b.col is c2 for (l, b), (l2, b2, c2) in zip(fr.cols, snap[1]))


class Acc:
    """obligations collected per name, the worst state wins"""

    def __init__(self, r):
        self.r, self.d = r, {}

    def add(self, name, state, det=""):
        self.d.setdefault(name, []).append((state, det))

    def flush(self):
        hard = False
        for n, v in self.d.items():
            st = [x[0] for x in v]
            s = "failed" if "failed" in st else "bounded" if "bounded" in st else "proved"
            hard |= s != "proved"
            det = [x[1] for x in v if x[1]]
            self.r.ob(n, s, "%d cases; %s" % (len(v), " | ".join(det[:3])) if det else "%d cases" % len(v))
        return hard


def sorted_fact():
    return uf("sorted_U", (I(0),), "B")


_memo = {}


def cell_same(pc, a, b):
    key = (tuple(c.id for c in pc), tuple(t.id for t in a.comps()), tuple(t.id for t in b.comps()))
    if key not in _memo:
        if n_same(a, b) is TRUE:
            _memo[key] = ("proved", "")
        else:
            try:
                _memo[key] = select.same_cell(pc, a, b, perms=["U"])
            except Unsupported as e:
                _memo[key] = ("bounded", str(e)[:200])
    return _memo[key]


def entails(pc, t):
    return smt.entails(list(pc), t)


def run_validate(it, make, req, fill, pre):
    """paths of validateInputData(frame, req, name, fill)"""
    box = {}

    def fn():
        m = it.load(MOD)
        fr = make()
        snap = snapshot(fr) if isinstance(fr, SFrame) else None
        try:
            out = it.call(m.ns["validateInputData"], [fr, list(req), "Indicator"], {"fill_missing_values": fill})
            kind = "ok"
        except RaiseEx as e:
            out, kind = e.exc, "raise"
        return kind, out, fr, snap
    return it.explore(fn, pre)


def same_name(e, *names):
    nm = getattr(getattr(e, "cls", None), "__name__", None) or getattr(getattr(e, "cls", None), "name", None)
    return nm in names, nm


def judge_layout(acc, it, tag, make, req, fill, expect, props):
    """expect: 'ok' or the tuple of acceptable exception names for n >= 1"""
    try:
        paths = run_validate(it, make, req, fill, [le(I(0), N)])
    except Unsupported as e:
        acc.add(tag + ".paths", "bounded", "outside the verified subset: %s" % str(e)[:200])
        return
    for p in paths:
        kind, out, fr, snap = p.value
        if "D03" in props and snap is not None:
            ok = unchanged(fr, snap)
            if kind == "ok" and isinstance(out, SFrame):
                bufs = {id(b) for l, b, c in snap[1]}
                ok = ok and out is not fr and not any(id(b) in bufs for l, b in out.cols)
            acc.add("%s.caller_frame_kept" % tag, "proved" if ok else "failed", "" if ok else "the caller's frame is written or shared with the result")
        if kind == "raise":
            good, nm = same_name(out, *(expect if expect != "ok" else ()))
            if "D01" in props:
                # an empty frame is refused with a value error whatever else is wrong
                empty_ok = same_name(out, "ValueError")[0] or good
                if not (good or entails(p.pc, le(N, I(0))) and empty_ok):
                    acc.add("%s.refused" % tag, "failed", "%s raised for %s" % (nm, make.__doc__ or tag))
                else:
                    acc.add("%s.refused" % tag, "proved")
            continue
        if "D01" in props:
            if expect != "ok":
                acc.add("%s.refused" % tag, "failed", "accepted: %s" % (make.__doc__ or tag))
                continue
            acc.add("%s.nonempty" % tag, "proved" if entails(p.pc, le(I(1), N)) else "failed", "" if entails(p.pc, le(I(1), N)) else "accepts a frame without rows")
        if expect != "ok" or not isinstance(out, SFrame):
            if expect == "ok":
                acc.add("%s.result" % tag, "bounded", "result %r" % type(out).__name__)
            continue
        ix = out.index
        if "D01" in props:
            lab = sorted(map(str, out.labels())) == sorted(req)
            acc.add("%s.columns" % tag, "proved" if lab else "failed", "" if lab else "columns %s for %s" % (out.labels(), req))
            srt = isinstance(ix, SIndex) and ix.base == "U" and (not ix.shuffled or entails(p.pc, sorted_fact()))
            acc.add("%s.sorted" % tag, "proved" if srt else "failed", "" if srt else "result index %r%s" % (ix, " unsorted" if getattr(ix, "shuffled", False) else ""))
            full = isinstance(ix, SIndex) and entails(p.pc, eq(ix.length, N)) and entails(p.pc, eq(ix.start, I(0)))
            acc.add("%s.every_row" % tag, "proved" if full else "failed", "" if full else "result index %r" % ix)
        if not isinstance(ix, SIndex):
            continue
        pc = list(p.pc) + [le(I(0), K), lt(K, N)]
        it.pc = pc
        for l, b in out.cols:
            if l not in req or b.col.kind not in ("num", "bool"):
                continue
            try:
                c = b.col.get(K)
                if not fill:
                    s, d = cell_same(pc, c, sorted_cell(l, K))
                    if "D01" in props:
                        acc.add("%s.rows_keep_values" % tag, s, d)
                    if "D02" in props:
                        acc.add("%s.unfilled" % tag, s, d)
                elif "D02" in props:
                    s, d = cell_same(pc, c, filled_cell(l, K))
                    acc.add("%s.filled" % tag, s, d)
            except Unsupported as e:
                acc.add("%s.cells" % tag, "bounded", str(e)[:200])
        it.pc = []


def layout(cols, extras):
    out = list(cols)
    kinds = {}
    for pos, l, k in extras:
        out.insert(pos, l)
        kinds[l] = k
    return out, kinds


def contract_task(r, prop, req, tier):
    """every layout of the columns of one requirement"""
    smt.reset_decls()
    exs = extras()
    rng = random.Random("%s/%s/%d" % (prop, ",".join(req), SEED))
    it = Interp(REPO)
    V.CUR[0] = it
    acc = Acc(r)
    props = {prop} if prop != "D04" else {"D01", "D02"}
    name = "[" + ",".join(req) + "]"

    def go(sub, cols, kinds, fill, expect, index="date"):
        def make():
            return user_frame(cols, kinds, index=index)
        make.__doc__ = "columns %s%s" % (cols, "" if index == "date" else ", index " + index)
        judge_layout(acc, it, name + sub, make, req, fill, expect, props)
    try:
        for fill in (True, False):
            for pm in itertools.permutations(req):
                for st in STYLES:
                    for ex in exs:
                        cols, kinds = layout([st(c) for c in pm], ex)
                        go("accept", cols, kinds, fill, "ok")
            for k in range(1, len(req) + 1) if prop != "D04" else ():
                for miss in itertools.combinations(req, k):
                    for st in STYLES[:2]:
                        for ex in exs:
                            left = [st(c) for c in req if c not in miss]
                            cols, kinds = layout(left, ex)
                            go("missing", cols, kinds, fill, ("ValueError",))
                            cols, kinds = layout([st(c) for c in req], ex)
                            go("nonnumeric", cols, {**kinds, **{st(c): "obj" for c in miss}}, fill, ("ValueError",))
            for index in () if prop == "D04" else ("pandas.Index", "range", "pandas.PeriodIndex", "pandas.MultiIndex"):
                for ex in EXTRAS[:3]:
                    cols, kinds = layout(req, ex)
                    go("index", cols, kinds, fill, ("TypeError",), index)
            for t in FOREIGN if prop != "D04" else ():
                def make(t=t):
                    return AnyVal(t)
                make.__doc__ = t
                judge_layout(acc, it, name + "foreign", make, req, fill, ("WrongTypeForInputParameter",), props)
    except Unsupported as e:
        acc.add(name + "paths", "bounded", "outside the verified subset: %s" % str(e)[:200])
    except (KeyError, AttributeError, NotImplementedError) as e:
        acc.add(name + "paths", "bounded", "outside the verified subset: %s" % repr(e)[:200])
    hard = acc.flush()
    r.used(it)
    it.pc = []
    if prop == "D04":
        if hard:
            for sp in SPECS:
                if sorted(sp.columns) == sorted(req) and not sp.hidden and not r.violations:
                    variant_search(r, sp, rng, 12 * (1 if tier == "quick" else 4), 400)
        return
    search_inputs(r, prop, [req], rng, (30 if hard else 4) * (1 if tier == "quick" else 5), 4000 if hard else 150)


def fill_task(r, prop, tier):
    """the public fillMissingValues itself, and the switch of every constructor"""
    smt.reset_decls()
    rng = random.Random("D02/fill/%d" % SEED)
    it = Interp(REPO)
    V.CUR[0] = it
    acc = Acc(r)
    for cols in (["close"], ["high", "low"], ["a", "b", "c", "d", "e"]):
        def fn():
            fr = user_frame(cols)
            snap = snapshot(fr)
            out = it.call(it.load(PRE).ns["fillMissingValues"], [fr], {})
            return "ok", out, fr, snap
        try:
            for p in it.explore(fn, [le(I(0), N)]):
                if p.kind != "ok":
                    acc.add("fillMissingValues.total", "failed", "raises %s" % exc_name(p))
                    continue
                _, out, fr, snap = p.value
                good = isinstance(out, SFrame) and isinstance(out.index, SIndex) and out.labels() == cols and entails(p.pc, eq(out.index.length, N))
                acc.add("fillMissingValues.shape", "proved" if good else "failed", "" if good else "labels %s" % out.labels())
                ok = unchanged(fr, snap) and not any(b is b2 for l, b in out.cols for l2, b2, c in snap[1])
                acc.add("fillMissingValues.argument_kept", "proved" if ok else "failed")
                srt = not out.index.shuffled or entails(p.pc, sorted_fact())
                acc.add("fillMissingValues.sorted", "proved" if srt else "failed")
                pc = list(p.pc) + [le(I(0), K), lt(K, N)]
                it.pc = pc
                for l, b in out.cols:
                    acc.add("fillMissingValues.filled", *cell_same(pc, b.col.get(K), filled_cell(l, K)))
        except Unsupported as e:
            acc.add("fillMissingValues.paths", "bounded", str(e)[:200])
        it.pc = []
    for t in FOREIGN:
        def fn():
            return it.call(it.load(PRE).ns["fillMissingValues"], [AnyVal(t)], {})
        try:
            for p in it.explore(fn, []):
                ok = p.kind == "raise" and same_name(p.value, "TypeError")[0]
                acc.add("fillMissingValues.foreign", "proved" if ok else "failed", "" if ok else "%s: %s" % (t, exc_name(p) if p.kind == "raise" else "accepted"))
        except Unsupported as e:
            acc.add("fillMissingValues.foreign", "bounded", str(e)[:200])
    acc.flush()
    r.used(it)


def caller_task(r, prop, sp, tier):
    """every constructor hands the caller's frame, untouched, to the validation
    with the documented columns and the caller's switch"""
    rng = random.Random("%s/%s/%d" % (prop, sp.name, SEED))
    acc = Acc(r)
    fresh_world(sp.skip == "strict")
    hard = False
    for fill in (True, False, None):
        it = new_interp(REPO)
        ps, pre = sym_params(sp)
        kw = {**ps, **sp.fixed}
        if fill is not None:
            kw["fill_missing_values"] = fill

        def fn():
            it.validated, it.record[:] = [], []
            m = it.load(discover(it)[sp.cls])
            u = input_arg()
            try:
                o = it.call(m.ns[sp.cls], [u], dict(kw))
                kind = "ok"
            except RaiseEx as e:
                o, kind = e.exc, "raise"
            return kind, o, u, list(it.validated), list(it.record)
        try:
            paths = it.explore(fn, [le(I(1), N)] + list(pre))
        except Exception as e:
            acc.add("%s.paths" % sp.name, "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
            continue
        for p in paths:
            kind, o, u, val, rec = p.value
            mine = [a for a in val if a.get("input_data") is u]
            if prop == "D03":
                use = [x for x in rec if str(x[0]).startswith("user_frame") or any(y is u for y in x[1])]
                acc.add("%s.only_validated" % sp.name, "bounded" if use else "proved", "caller's frame used by %s" % [x[0] for x in use] if use else "")
                if kind == "ok":
                    held = [k for k, v in o.attrs.items() if v is u]
                    acc.add("%s.not_kept" % sp.name, "bounded" if held else "proved", "held in %s" % held if held else "")
                continue
            if prop == "D01":
                ok = len(mine) == 1 and sorted(mine[0]["required_columns"]) == sorted(sp.columns)
                acc.add("%s.required_columns" % sp.name, "proved" if ok else "failed",
                        "" if ok else "asks for %s, documented %s" % ([a.get("required_columns") for a in mine], sp.columns))
                if kind == "ok":
                    same = isinstance(o.attrs.get("_input_data"), SFrame) and sorted(map(str, o.attrs["_input_data"].labels())) == sorted(sp.columns)
                    acc.add("%s.input_kept" % sp.name, "proved" if same or sp.hidden else "failed")
            if prop == "D02":
                want = True if fill is None else fill
                ok = len(mine) == 1 and mine[0].get("fill_missing_values", True) is want
                acc.add("%s.switch" % sp.name, "proved" if ok else "failed", "" if ok else "fill_missing_values=%r is passed on as %r" % (fill, [a.get("fill_missing_values") for a in mine]))
        r.used(it)
        it.pc = []
    hard = acc.flush()
    if prop == "D03":
        kept_search(r, sp, rng, (25 if hard else 3) * (1 if tier == "quick" else 5), 200 if hard else 4)
    elif hard:
        search_inputs(r, prop, [sp.columns], rng, 20, 2000, only=sp)


# ------------------------------------------------------------------- concrete
def fill_exact(xs):
    """xs in date order, None missing"""
    out = []
    last = None
    for x in xs:
        if x is not None:
            last = x
        out.append(last)
    nxt = None
    for i in range(len(xs) - 1, -1, -1):
        if xs[i] is not None:
            nxt = xs[i]
        if out[i] is None:
            out[i] = nxt
    return out


DTYPES = ["float64", "float64", "int64", "float32", "int32"]
BADTYPES = ["object", "str", "datetime", "category"]


def gen_input(rng, req, min_n=1, max_n=40):
    n = rng.choice([1, 2, 3, 4, 5, 8, 12, 13, 20, max_n, max_n])
    n = max(min_n, n)
    base = cases.data(rng, n, ["open", "high", "low", "close", "volume"])
    cols = []
    req = list(req)
    rng.shuffle(req)
    bad = None
    z = rng.random()
    if z < 0.12:
        bad = ("missing", rng.choice(req))
    elif z < 0.24:
        bad = ("dtype", rng.choice(req))
    gaps = rng.choice([0, 0, 0.1, 0.3, 0.7, 0.95, "head", "tail", "run", "all"])
    for c in req:
        if bad == ("missing", c):
            continue
        xs = [float(x) for x in base[c]]
        dt = rng.choice(DTYPES)
        if bad == ("dtype", c):
            dt = rng.choice(BADTYPES)
        elif gaps and dt.startswith("float"):
            if gaps == "all":
                if rng.random() < 0.5:
                    xs = [None] * n
            elif gaps in ("head", "tail", "run"):
                k = rng.randint(1, n)
                a = 0 if gaps == "head" else n - k if gaps == "tail" else rng.randint(0, n - k)
                xs = [None if a <= i < a + k else x for i, x in enumerate(xs)]
            else:
                xs = [None if rng.random() < gaps else x for x in xs]
        if dt.startswith("int"):
            xs = [float(round(x)) + (1.0 if c == "high" else 0.0) for x in xs]
        lab = rng.choice(STYLES)(c)
        cols.append({"label": lab, "name": c, "values": xs, "dtype": dt})
    for e in rng.choice(extras()):
        if isinstance(e[1], str) and e[1].lower() in [c["label"].lower() for c in cols]:
            continue
        cols.insert(e[0], {"label": e[1], "name": None, "values": [float(i) for i in range(n)], "dtype": "object" if e[2] == "obj" else "float64"})
    days = sorted(rng.sample(range(4 * n + 4), n))
    order = list(range(n))
    m = rng.random()
    if m < 0.45:
        rng.shuffle(order)
    elif m < 0.6:
        order.reverse()
    elif m < 0.75 and n > 2:
        # first and last in place, something inside out of order
        i = rng.randint(0, n - 2)
        order[i], order[i + 1] = order[i + 1], order[i]
    index = "date" if rng.random() < 0.92 else rng.choice(["range", "text", "period"])
    if rng.random() < 0.03:
        order = []
    return {"columns": cols, "days": days, "order": order, "index": index}, bad


def expected_input(case, req):
    """('raise', names) or ('ok', {col: values in date order}, days)"""
    if case["index"] != "date":
        return ("raise", ("TypeError",) if case["order"] and case["columns"] else ("TypeError", "ValueError"))
    if not case["order"] or not case["columns"]:
        return ("raise", ("ValueError",))
    by = {c["name"]: c for c in case["columns"] if c["name"]}
    for c in req:
        if c not in by or by[c]["dtype"] in BADTYPES:
            return ("raise", ("ValueError",))
    pos = sorted(case["order"])
    return ("ok", {c: [by[c]["values"][i] for i in pos] for c in req}, [case["days"][i] for i in pos])


def compare_input(case, req, fill, ans, prop):
    """None or (key, what, expected, got)"""
    e = expected_input(case, req)
    if e[0] == "raise":
        if prop == "D01" and ans.get("raised") not in e[1]:
            return ("refused", "input that must be refused", "one of %s" % (e[1],), ans.get("raised", "accepted"))
        return None
    if "raised" in ans:
        return ("accepted", "a valid frame", "accepted", ans)
    want = e[1]
    if prop == "D01":
        if sorted(ans["cols"]) != sorted(req):
            return ("columns", "columns of the accepted data", sorted(req), ans["cols"])
        if ans["days"] != e[2]:
            return ("dates", "dates of the accepted data", e[2], ans["days"])
        if fill:
            # known values stay with their date
            pass
    for c in req:
        got = ans["data"][ans["cols"].index(c)]
        w = want[c] if not fill else fill_exact(want[c])
        for i, (x, y) in enumerate(zip(w, got)):
            if prop == "D01" and fill and want[c][i] is None:
                continue
            if (x is None) != (y is None) or x is not None and x != y:
                return ("values" if prop == "D01" else "fill", "column %s at row %d (fill_missing_values=%s)" % (c, i, fill), x, y)
    return None


def search_inputs(r, prop, lists, rng, seconds, ncases, only=None):
    if prop not in ("D01", "D02"):
        return
    R_ = Real(REPO)
    t_end = min(time.time() + seconds, getattr(r, "deadline", None) or 1e18)
    done = 0
    sps = [sp for sp in SPECS if not sp.hidden]
    try:
        for rep in range(ncases):
            if time.time() > t_end:
                break
            req = rng.choice(lists)
            cls, params, sp = None, {}, None
            if only is not None or rng.random() < 0.4:
                c = [only] if only else [s for s in sps if sorted(s.columns) == sorted(req)]
                if c:
                    sp = rng.choice(c)
                    cls = sp.cls
            fill = rng.random() < 0.6
            case, bad = gen_input(rng, req, 30 if cls else 1, 60 if cls else 40)
            how = "default" if cls and fill and rng.random() < 0.5 else fill
            q = {"op": "validate", "case": case, "required": req, "fill": how, "cls": cls, "params": {**sp.fixed, **min_params(sp)} if sp else {}}
            a = R_.ask(q)
            if a.get("absent"):
                continue
            if a.get("raised") == "NotEnoughInputData":
                continue
            done += 1
            v = compare_input(case, req, fill, a, prop)
            if v:
                r.violate(v[0] + ("." + sp.name if only else ""), "%s: %s: expected %s, got %s" % (cls or "validateInputData", v[1], str(v[2])[:120], str(v[3])[:160]),
                          {"kind": "input", "request": q, "expected": v[2], "got": v[3]})
                return
    finally:
        r.count("cases", done)
        R_.close()


def min_params(sp):
    """small admissible integer parameters"""
    out = {}
    for q in sp.params:
        if q.kind == "int" and q.default:
            out[q.name] = min(q.default, 12) if not q.allowed else q.default
        if q.kind == "real" and q.default is None:
            # the class default lies outside this variant's range
            out[q.name] = -0.05 if q.hi is not None else 0.05
    return out


def kept_search(r, sp, rng, seconds, ncases):
    """the caller's frame before and after every use of the indicator"""
    R_ = Real(REPO)
    t_end = min(time.time() + seconds, getattr(r, "deadline", None) or 1e18)
    done = 0
    try:
        for rep in range(ncases):
            if time.time() > t_end:
                break
            c = concrete.gen_case(rng, sp)
            if c is None or c[1] > 120:
                continue
            ps, n, d = c
            case = {"columns": [], "days": list(range(n)), "order": list(range(n)), "index": "date"}
            names = list(sp.columns) + [x for x in ["close"] if x not in sp.columns]
            rng.shuffle(names)
            st = rng.choice(STYLES)
            for nm in names:
                xs = [float(x) for x in (d[nm] if nm in d else cases.data(rng, n, ["close"])["close"])]
                if rng.random() < 0.4 and n > 3:
                    xs = [None if rng.random() < 0.15 else x for x in xs]
                    if all(x is None for x in xs):
                        xs[0] = 5.0
                case["columns"].append({"label": st(nm), "name": nm, "values": xs, "dtype": "float64"})
            if rng.random() < 0.5:
                case["columns"].append({"label": "Name", "name": None, "values": [1.0] * n, "dtype": "object"})
            if rng.random() < 0.6:
                rng.shuffle(case["order"])
            q = {"op": "kept", "case": case, "cls": sp.cls, "params": {**{k: cases.pval(v) for k, v in ps.items()}, **sp.fixed},
                 "fill": rng.choice([True, True, False]), "graph": rep % 3 == 0}
            a = R_.ask(q)
            if "construct" in a and "kept" not in a:
                continue
            done += 1
            for stage, ok in a["kept"]:
                if not ok:
                    r.violate("%s.%s" % (sp.name, stage.split(" ")[0]), "%s: the caller's frame is changed by %s" % (sp.name, stage),
                              {"kind": "kept", "request": q, "expected": "frame unchanged", "got": a})
                    return
    finally:
        r.count("cases", done)
        R_.close()


def path_image(it, paths, what):
    """paths as comparable terms"""
    out = []
    for p in paths:
        pcs = tuple(c.id for c in p.pc)
        if p.kind != "ok":
            out.append((pcs, "raise", exc_name(p)))
        elif what == "data":
            it.pc = list(p.pc) + [le(I(0), K), lt(K, N)]
            td = p.value.attrs["_ti_data"]
            out.append((pcs, "ok", (td.index.base, td.index.start.id, td.index.length.id), tuple((l,) + tuple(t.id for t in b.col.get(K).comps()) for l, b in td.cols)))
            it.pc = []
        else:
            v = p.value[0]
            out.append((pcs, "ok", repr(v)))
    return out


def order_task(r, prop, sp, tier):
    """every order of the required columns gives the same terms"""
    rng = random.Random("D04/%s/%s/%d" % (sp.name, tier, SEED))
    acc = Acc(r)
    base = {}
    keep = {}
    lim = time.time() + (150 if tier == "quick" else 600)
    for pm in itertools.permutations(range(len(sp.columns))):
        fresh_world(sp.skip == "strict")
        it = new_interp(REPO, order=list(pm))
        ps, pre = sym_params(sp)
        for what in ("data", "signal"):
            nm = "%s.%s_any_column_order" % (sp.name, what)
            if time.time() > lim:
                acc.add(nm, "bounded", "out of time")
                continue
            try:
                paths = construct(it, sp.cls, {**ps, **sp.fixed}, pre) if what == "data" else signal_paths(it, sp, {**ps, **sp.fixed}, pre)
                im = path_image(it, paths, what)
            except Exception as e:
                acc.add(nm, "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
                continue
            if what not in base:
                base[what], keep[what] = im, paths
                acc.add(nm, "proved")
            elif sorted(map(repr, im)) == sorted(map(repr, base[what])):
                acc.add(nm, "proved")
            else:
                acc.add(nm, *same_paths(it, keep[what], paths, what, [sp.columns[k] for k in pm]))
            it.pc = []
    hard = acc.flush()
    r.used(it)
    if len(sp.columns) == 1 and not hard:
        pass
    if not sp.hidden:
        variant_search(r, sp, rng, (30 if hard else 3) * (1 if tier == "quick" else 5), 400 if hard else 12)


def same_paths(it, pa, pb, what, order):
    """the two path sets agree wherever their conditions overlap"""
    worst = ("proved", "")
    for p in pa:
        for q in pb:
            pc = list(p.pc) + [c for c in q.pc if c not in p.pc]
            if smt.check(pc) == "unsat":
                continue
            if p.kind != q.kind or what == "signal" and p.kind == "ok" and repr(p.value[0]) != repr(q.value[0]) or p.kind != "ok" and exc_name(p) != exc_name(q):
                s, d, fl = prove(pc, lambda pv: pv.valid(pc, FALSE), 20)
            elif p.kind == "ok" and what == "data":
                ta, tb = p.value.attrs["_ti_data"], q.value.attrs["_ti_data"]
                if ta.labels() != tb.labels() or not ta.index.same(tb.index):
                    return "failed", "columns %s with the input columns ordered %s" % (tb.labels(), order)
                it.pc = pc + [le(I(0), K), lt(K, N)]
                s, d = "proved", ""
                for (l, b), (_, b2) in zip(ta.cols, tb.cols):
                    x, y = b.col.get(K), b2.col.get(K)
                    if n_same(x, y) is not TRUE:
                        s, d, fl = prove(it.pc, lambda pv: pv.cell(it.pc, x, y), 30)
                        if s != "proved":
                            break
            else:
                continue
            if s != "proved":
                worst = (s, "input columns ordered %s: %s" % (order, d))
                if s == "failed":
                    return worst
    return worst


def variant_search(r, sp, rng, seconds, ncases):
    """the same data written down in two ways"""
    R_ = Real(REPO)
    t_end = min(time.time() + seconds, getattr(r, "deadline", None) or 1e18)
    done = 0
    try:
        for rep in range(ncases):
            if time.time() > t_end:
                break
            c = concrete.gen_case(rng, sp)
            if c is None or c[1] > 400:
                continue
            ps, n, d = c
            gaps = rng.random() < 0.4
            cols = []
            for nm in sp.columns:
                xs = [float(x) for x in d[nm]]
                if gaps and n > 4:
                    xs = [None if rng.random() < 0.2 else x for x in xs]
                    if all(x is None for x in xs):
                        xs[1] = 7.0
                cols.append({"label": nm, "name": nm, "values": xs, "dtype": "float64"})
            days = sorted(rng.sample(range(3 * n + 3), n))
            a_case = {"columns": cols, "days": days, "order": list(range(n)), "index": "date"}
            b_cols = [dict(c) for c in cols]
            rng.shuffle(b_cols)
            if rng.random() < 0.7:
                st = rng.choice(STYLES)
                for c in b_cols:
                    c["label"] = st(c["label"])
            for e in rng.choice(extras()):
                ys = [None if rng.random() < 0.2 else float(rng.randint(0, 9)) for i in range(n)]
                b_cols.insert(e[0], {"label": e[1], "name": None, "values": ys, "dtype": "object" if e[2] == "obj" else "float64"})
            if rng.random() < 0.3:
                other = [x for x in ("open", "high", "low", "close", "volume") if x not in sp.columns]
                if other:
                    b_cols.insert(rng.randint(0, len(b_cols)), {"label": rng.choice(STYLES)(rng.choice(other)), "name": None, "values": [float(rng.randint(1, 9)) for i in range(n)], "dtype": "float64"})
            order = list(range(n))
            m = rng.random()
            if m < 0.4:
                rng.shuffle(order)
            elif m < 0.5:
                order.reverse()
            elif m < 0.85 and n > 2:
                i = rng.randint(1, max(1, n - 3))
                j = min(n - 1, i + 1) if n > 3 else i
                if j < n - 1 or n <= 3:
                    order[i], order[j] = order[j], order[i]
            q = {"op": "variants", "cls": sp.cls, "params": {**{k: cases.pval(v) for k, v in ps.items()}, **sp.fixed},
                 "fill": rng.choice([True, True, False]), "cases": [a_case, {**a_case, "columns": b_cols, "order": order}]}
            a = R_.ask(q)
            if "worker_error" in a:
                continue
            done += 1
            x, y = a["results"]
            if x != y:
                what = next((k for k in ("raised", "data", "signal", "value") if x.get(k) != y.get(k)), "result")
                r.violate("%s.%s" % (sp.name, what), "%s with %s: %s differs when the same data is given with columns %s, rows %s" % (
                    sp.name, q["params"], what, [c["label"] for c in b_cols], "in another order" if order != list(range(n)) else "in date order"),
                    {"kind": "variants", "request": q, "expected": str(x.get(what))[:1500], "got": str(y.get(what))[:1500]})
                return
    finally:
        r.count("cases", done)
        R_.close()


def tasks(prop, tier):
    ts = []
    if prop == "D04":
        lim = 400 if tier == "quick" else 1500
        return ([Task("[%s]" % ",".join(q), contract_task, prop, q, tier, limit=lim) for q in LISTS]
                + [Task(sp.name, order_task, prop, sp, tier, limit=lim) for sp in sorted(SPECS, key=lambda s: -len(s.columns))])
    lim = 300 if tier == "quick" else 1200
    if prop in ("D01", "D02", "D03"):
        ts += [Task("[%s]" % ",".join(q), contract_task, prop, q, tier, limit=lim) for q in LISTS]
        extra = [list(x) for x in {tuple(sp.columns) for sp in SPECS} if list(x) not in LISTS]
        ts += [Task("[%s]" % ",".join(q), contract_task, prop, q, tier, limit=lim) for q in extra]
        ts += [Task(sp.name, caller_task, prop, sp, tier, limit=lim) for sp in SPECS]
    if prop == "D02":
        ts.append(Task("fillMissingValues", fill_task, prop, tier, limit=lim))
    if prop == "D03":
        from checks import simulation
        ts += simulation.kept_tasks(tier)
    return ts
