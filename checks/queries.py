"""Q01 value queries, U01 purity of the queries, H01 graphs: the contracts of
getTiData / getTiValue / getTiSignal / getTiGraph on any object state."""
import copy
import random
import time
from checks.common import Task, SEED, REPO
from checks.sym import *
from checks.inputs import Acc, cell_same
from checks import concrete
from checks.concrete import Real
from checks.values import prove, module_file
from engine.interp import Unsupported
from engine.pdops import DateArg, ABSENT

PRE0 = [le(I(1), N), le(I(1), M), le(M, N)]


class NotBuilt(Exception):
    pass


def any_state(it, sp, ps, inf=True):
    """an object of the class holding arbitrary indicator and input cells on
    the first m dates"""
    o = it.call(it.load(discover(it)[sp.cls]).ns[sp.cls], [input_arg()], dict(ps))
    for a, pre in (("_ti_data", "ti_"), ("_input_data", "in_")):
        f = o.attrs[a]
        if not isinstance(f, SFrame):
            raise Unsupported("%s is not a frame" % a)
        L = f.index.length
        m = M if L is N else min_(M, L)
        o.attrs[a] = SFrame(SIndex("D", I(0), m), [[l, Buf(Col(lambda i, l=l, pre=pre: free_cell(pre + str(l), i, inf)))] for l, b in f.cols])
    return o


def built(it, sp, ps, pre, then):
    """paths of then(object); construction refused: skipped"""
    def fn():
        try:
            o = any_state(it, sp, ps)
        except RaiseEx:
            return None
        it.record = []
        return then(o)
    return [p for p in it.explore(fn, PRE0 + list(pre)) if not (p.kind == "ok" and p.value is None)]


def attempt(it, o, name, args=(), kw=None):
    try:
        return "ok", it.call(it.getattr(o, name), list(args), dict(kw or {}))
    except RaiseEx as e:
        return "raise", Raised2(e)


class Raised2:
    def __init__(self, e):
        self.exc = getattr(e, "exc", e)

    def __repr__(self):
        return "raises %s" % getattr(getattr(self.exc, "cls", None), "__name__", getattr(getattr(self.exc, "cls", None), "name", self.exc))


def infeasible(pc, det):
    s, d, fl = prove(pc, lambda pv: pv.valid(pc, FALSE), 20)
    return s, (det + "; " + d) if s != "proved" else ""


def reach(acc, name, paths):
    ok = any(p.kind == "ok" and smt.check(list(p.pc)) == "sat" for p in paths)
    acc.add(name, "proved" if ok else "bounded", "" if ok else "no satisfiable path found")


P_ = param("p_date", "I")


def date_modes():
    """(name, argument, preconditions)"""
    return [("none", None), ("present", DateArg(SLabel("D", P_))), ("absent", DateArg(SLabel(ABSENT, I(0)))),
            ("empty", DateArg(SLabel(ABSENT, I(1)), empty=True)),
            ("unreadable", DateArg(ValueError)), ("overflow", DateArg(OverflowError)), ("typeerror", DateArg(TypeError))]


def items_of(v):
    if isinstance(v, (list, tuple)):
        return list(v)
    return getattr(v, "_concrete", None)


def as_num(x):
    if isinstance(x, SNum):
        return x.n
    if x is None:
        return NAN
    raise Unsupported("entry %r" % (x,))


# ------------------------------------------------------------------------ Q01
def value_query_task(r, sp, tier):
    rng = random.Random("Q01/%s/%s/%d" % (sp.name, tier, SEED))
    acc = Acc(r)
    it = None
    for name, arg in date_modes():
        for kw in ((), ("date",)) if name == "present" else ((),):
            fresh_world(sp.skip == "strict")
            it = new_interp(REPO)
            ps, pre = sym_params(sp)
            ob = "%s.value.%s" % (sp.name, name)
            L = M

            def then(o):
                f = o.attrs["_ti_data"]
                it.assume(le(I(1), f.index.length))
                if name == "present":
                    it.assume(and_(le(I(0), P_), lt(P_, f.index.length)))
                want = [(l, b.col) for l, b in f.cols]
                a = [] if arg is None or kw else [arg]
                k, v = attempt(it, o, "getTiValue", a, {"date": arg} if kw else {})
                return k, v, want, f.index.length
            try:
                paths = built(it, sp, ps, pre, then)
            except Exception as e:
                acc.add(ob, "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
                continue
            for p in paths:
                pc = list(p.pc)
                it.pc = pc
                if p.kind != "ok":
                    acc.add(ob, *infeasible(pc, "raises"))
                    continue
                k, v, want, ln = p.value
                if k == "raise":
                    acc.add(ob, *infeasible(pc, repr(v)))
                    continue
                if name in ("none", "present"):
                    got = items_of(v)
                    if got is None or len(got) != len(want):
                        if v is None or got is not None:
                            acc.add(ob, *infeasible(pc, "returns %r" % (v if got is None else got,)))
                        else:
                            acc.add(ob, "bounded", "result %r" % (v,))
                        continue
                    i = P_ if name == "present" else sub(ln, I(1))
                    for (l, c), x in zip(want, got):
                        try:
                            s, d = cell_same(pc, as_num(x), c.get(i))
                        except Unsupported as e:
                            s, d = "bounded", str(e)
                        if s == "failed" and smt.check(pc) == "unsat":
                            s, d = "proved", ""
                        acc.add(ob, s, ("column %s: %s" % (l, d)) if s != "proved" else "")
                elif v is None:
                    acc.add(ob, "proved")
                else:
                    acc.add(ob, *infeasible(pc, "returns %r" % (v,)))
            it.pc = []
            reach(acc, ob + ".reachable", paths)
    hard = acc.flush()
    r.used(it)
    value_query_search(r, sp, rng, hard, tier)


def day(d, style=0):
    import datetime as dt
    x = dt.date(2000, 1, 1) + dt.timedelta(days=d)
    return [x.isoformat(), x.strftime("%Y/%m/%d"), x.isoformat() + " 00:00:00", x.strftime("%m/%d/%Y"), x.strftime("%d %B %Y"), x.strftime("%Y%m%d")][style]


GARBAGE = ["", " ", "nonsense", "2000-13-45", "NaT", "nan", "0", "-1", "close", "99999-01-01", "2000-02-30", "None"]


def value_queries(rng, days):
    qs = []
    for d in rng.sample(days, min(len(days), 6)) + [days[0], days[-1]]:
        qs.append((day(d, rng.choice([0, 0, 0, 1, 2, 3, 4, 5])), d))
    for _ in range(10):
        d = rng.randint(days[0] - 3, days[-1] + 3)
        qs.append((day(max(d, 0), 0), max(d, 0)))
    for d in (rng.choice(days), days[-1]):
        t = rng.choice(["12:00:00", "23:59:59", "00:00:01"])
        qs.append((day(d) + " " + t, None))
    qs += [("%d-%02d" % (2000 + rng.randint(0, 1), rng.randint(1, 12)), "month"), ("1999", "year"), ("2000", "year"), ("2100-01-01", None), ("1900-01-01", None)]
    for g in rng.sample(GARBAGE, 4):
        qs.append((g, None))
    return qs


def value_query_search(r, sp, rng, hard, tier):
    R_ = Real(REPO)
    t_end = min(time.time() + (40 if hard else 4) * (1 if tier == "quick" else 6), getattr(r, "deadline", None) or 1e18)
    consts = concrete.mined(REPO, discover(new_interp(REPO))[sp.cls].replace(".", "/") + ".py")
    done = 0
    try:
        for rep in range(400 if hard else 12):
            if time.time() > t_end:
                break
            c = concrete.gen_case(rng, sp, consts, [], False)
            if c is None:
                continue
            ps, n, d = c
            req = concrete.request(sp, ps, d, [])
            gap = rng.choice([1, 1, 2, 7])
            days = sorted(rng.sample(range(3, 3 + gap * n + 1), n))
            qs = value_queries(rng, days)
            req.update(op="values", days=days, dates=[q for q, _ in qs])
            a = R_.ask(req)
            if "data" not in a:
                continue
            done += 1
            f = a["data"]
            if f["data"] is None:
                continue
            rows = {x: [col[i] for col in f["data"]] for i, x in enumerate(f["index"])}
            if not f["index"]:
                continue
            last = [col[-1] for col in f["data"]]
            todo = [("no date", a["last"], last)]
            for (q, d0), got in zip(qs, a["values"]):
                if isinstance(d0, int):
                    want = rows.get(day(d0))
                elif d0 in ("month", "year"):
                    want = rows.get(q + ("-01" if d0 == "month" else "-01-01"))
                else:
                    want = None
                todo.append((q, got, want))
            for q, got, want in todo:
                r.count("value_queries")
                if got != want:
                    r.violate("%s.value" % sp.cls, "%s.getTiValue(%s): should be %s, the code gives %s" % (sp.name, q, want, got),
                              {"kind": "value", "request": req, "expected": {"date": q, "value": want}, "got": got})
                    return
    finally:
        r.count("cases", done)
        R_.close()


# ------------------------------------------------------------------------ U01
def frozen(x, seen=None):
    """structural picture of a value in which frames and columns are kept by
    content (the very column functions), to notice any change"""
    if isinstance(x, SFrame):
        return ("frame", x.index, tuple((l, b.col) for l, b in x.cols))
    if isinstance(x, SSeries):
        return ("series", x.index, x.buf.col)
    if isinstance(x, dict):
        return ("dict", tuple((k, frozen(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(frozen(v) for v in x))
    if isinstance(x, Instance):
        return ("obj", id(x), tuple((k, frozen(v)) for k, v in sorted(x.attrs.items())) if seen is None else ())
    if isinstance(x, (str, int, float, bool, type(None))) or x is None:
        return x
    return ("ref", id(x))


def diff(pc, a, b):
    """(state, detail) that two pictures are the same"""
    if type(a) is not type(b):
        return "failed", "%r became %r" % (short(a), short(b))
    if isinstance(a, tuple) and a and a[0] in ("frame", "series") and b[:1] == a[:1]:
        ia, ib = a[1], b[1]
        if ia is not ib and not (isinstance(ia, SIndex) and isinstance(ib, SIndex) and ia.base == ib.base and ia.start is ib.start and ia.length is ib.length and ia.shuffled == ib.shuffled):
            e = smt.entails(pc, and_(eq(ia.start, ib.start), eq(ia.length, ib.length))) if isinstance(ib, SIndex) and ia.base == ib.base and ia.shuffled == ib.shuffled else False
            if not e:
                return "failed", "rows changed: %r to %r" % (ia, ib)
        ca, cb = (a[2], b[2]) if a[0] == "frame" else (((None, a[2]),), ((None, b[2]),))
        if [l for l, _ in ca] != [l for l, _ in cb]:
            return "failed", "columns %s became %s" % ([l for l, _ in ca], [l for l, _ in cb])
        k = param("k", "I")
        for (l, x), (_, y) in zip(ca, cb):
            if x is y:
                continue
            try:
                s, d = cell_same(pc + [le(ia.start, k), lt(k, add(ia.start, ia.length))], x.get(k), y.get(k))
            except Unsupported as e:
                s, d = "bounded", str(e)
            if s != "proved":
                return s, "column %s changed: %s" % (l, d)
        return "proved", ""
    if isinstance(a, tuple):
        if len(a) != len(b):
            return "failed", "%s became %s" % (short(a), short(b))
        for x, y in zip(a, b):
            s, d = diff(pc, x, y)
            if s != "proved":
                return s, d
        return "proved", ""
    if isinstance(a, (T, Num)):
        return ("proved", "") if a is b else ("bounded", "term changed")
    return ("proved", "") if a is b or a == b else ("failed", "%r became %r" % (a, b))


def short(x):
    return repr(x)[:80]


def module_state(it):
    """pictures of every module's data (properties tables and the like)"""
    out = {}
    for mn, m in it.modules.items():
        for k, v in m.ns.items():
            if isinstance(v, (dict, list, SFrame, SSeries)):
                out[mn + "." + k] = frozen(v)
    return out


def class_state(it):
    out = {}
    for mn, m in it.modules.items():
        for k, v in m.ns.items():
            if isinstance(v, ClassVal):
                for a, x in v.ns.items():
                    if isinstance(x, (dict, list, SFrame, SSeries, int, float, str, bool)):
                        out["%s.%s.%s" % (mn, k, a)] = frozen(x)
    return out


def queries():
    return [("data", "getTiData", []), ("value", "getTiValue", []), ("value_of_date", "getTiValue", [DateArg(SLabel("D", P_))]),
            ("value_absent", "getTiValue", [DateArg(SLabel(ABSENT, I(0)))]), ("value_unreadable", "getTiValue", [DateArg(ValueError)]),
            ("signal", "getTiSignal", []), ("graph", "getTiGraph", [])]


def pure_task(r, sp, tier):
    rng = random.Random("U01/%s/%s/%d" % (sp.name, tier, SEED))
    acc = Acc(r)
    it = None
    for name, meth, args in queries():
        fresh_world(sp.skip == "strict")
        it = new_interp(REPO)
        ps, pre = sym_params(sp)
        ob = "%s.pure.%s" % (sp.name, name)

        def then(o):
            if name == "value_of_date":
                it.assume(and_(le(I(0), P_), lt(P_, o.attrs["_ti_data"].index.length)))
            before = {k: frozen(v) for k, v in o.attrs.items()}
            g0 = {**module_state(it), **class_state(it)}
            k, v = attempt(it, o, meth, args)
            # what the query changed of the caller's view of the state
            after = {k2: frozen(v2) for k2, v2 in o.attrs.items()}
            g1 = {**module_state(it), **class_state(it)}
            return k, v, before, after, g0, g1
        try:
            paths = built(it, sp, ps, pre, then)
        except Exception as e:
            acc.add(ob, "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
            continue
        for p in paths:
            pc = list(p.pc)
            it.pc = pc
            if p.kind != "ok":
                acc.add(ob, *infeasible(pc, "raises"))
                continue
            k, v, before, after, g0, g1 = p.value
            for a in sorted(set(before) | set(after)):
                if a not in before or a not in after:
                    acc.add(ob, "bounded", "attribute %s %s" % (a, "added" if a in after else "removed"))
                    continue
                s, d = diff(pc, before[a], after[a])
                if s == "failed" and smt.check(pc) == "unsat":
                    s = "proved"
                if s == "failed" and a not in ("_ti_data", "_input_data"):
                    s = "bounded"       # a cache, perhaps: decided by the answers
                acc.add(ob, s, ("attribute %s: %s" % (a, d)) if s != "proved" else "")
            for a in g0:
                s, d = diff(pc, g0[a], g1.get(a))
                acc.add(ob + ".shared", "bounded" if s == "failed" else s, ("%s: %s" % (a, d)) if s != "proved" else "")
        it.pc = []
        reach(acc, ob + ".reachable", paths)
    hard = acc.flush()
    r.used(it)
    pure_search(r, sp, rng, hard, tier)


def pure_search(r, sp, rng, hard, tier):
    R_ = Real(REPO)
    t_end = min(time.time() + (60 if hard else 6) * (1 if tier == "quick" else 6), getattr(r, "deadline", None) or 1e18)
    consts = concrete.mined(REPO, discover(new_interp(REPO))[sp.cls].replace(".", "/") + ".py")
    done = 0
    try:
        for rep in range(300 if hard else 8):
            if time.time() > t_end:
                break
            c = concrete.gen_case(rng, sp, consts, [], False)
            if c is None:
                continue
            ps, n, d = c
            req = concrete.request(sp, ps, d, [])
            if rng.random() < 0.3:
                req["params"]["fill_missing_values"] = rng.random() < 0.3
                for c in req["data"]:
                    q = rng.choice([0, 0.05, 0.3])
                    req["data"][c] = [None if rng.random() < q else x for x in req["data"][c]]
            calls = [rng.choice(["data", "value", "signal", "signal", "value:" + day(rng.randint(0, n + 1)), "value:junk"] + (["graph"] if rep % 3 == 0 else []))
                     for _ in range(rng.randint(4, 9))]
            if rep % 3 == 0:
                calls.insert(rng.randint(0, len(calls)), "graph")
            req.update(op="queries", calls=calls)
            a = R_.ask(req)
            if "results" not in a:
                continue
            done += 1
            for c, x, y in zip(calls, a["results"], a["fresh"]):
                if x != y:
                    r.violate("%s.pure" % sp.cls, "%s: after %s the answer of %s is %s, a fresh indicator answers %s" % (sp.name, calls, c, str(x)[:120], str(y)[:120]),
                              {"kind": "queries", "request": req, "expected": y, "got": x})
                    return
            if not a["kept"]:
                r.violate("%s.pure" % sp.cls, "%s: the queries %s changed the indicator's data" % (sp.name, calls),
                          {"kind": "queries", "request": req, "expected": "unchanged data", "got": a.get("what")})
                return
    finally:
        r.count("cases", done)
        R_.close()


# ------------------------------------------------------------------------ H01
ONE_PANEL = {"BollingerBands", "DoubleExponentialMovingAverage", "EaseOfMovement", "Envelopes", "FibonacciRetracement", "IchimokuCloud",
             "LinearRegressionIndicator", "MedianPrice", "MovingAverage", "ParabolicSAR", "PriceChannel", "ProjectionBands",
             "TimeSeriesForecast", "TripleExponentialMovingAverage", "TypicalPrice", "VolatilityChaikins", "WeightedClose", "WildersSmoothing"}
GRAPH_COLUMNS = {"EaseOfMovement": [], "VolatilityChaikins": [], "MarketFacilitationIndex": ["volume"], "VolumeOscillator": ["volume"],
                 "VolumeRateOfChange": ["volume"], "MassIndex": ["close", "9_ema"], "MedianPrice": ["close_ema"], "RelativeVolatilityIndex": ["high", "low"]}


def graph_contract(sp):
    """(panels, input columns)"""
    return 1 if sp.cls in ONE_PANEL else 2, GRAPH_COLUMNS.get(sp.cls, ["close"])


def graph_task(r, sp, tier):
    rng = random.Random("H01/%s/%s/%d" % (sp.name, tier, SEED))
    acc = Acc(r)
    fresh_world(sp.skip == "strict")
    it = new_interp(REPO)
    ps, pre = sym_params(sp)
    panels, incols = graph_contract(sp)
    ob = "%s.graph" % sp.name

    def then(o):
        ti, inp = o.attrs["_ti_data"], o.attrs["_input_data"]
        want_in = [(l, dict(map(tuple, inp.cols))[l].col if l in inp.labels() else None, inp.index) for l in incols]
        want_ti = [(l, b.col, ti.index) for l, b in ti.cols]
        k, v = attempt(it, o, "getTiGraph")
        return k, v, want_in, want_ti, list(it.record)
    paths = []
    try:
        paths = built(it, sp, ps, pre, then)
    except Exception as e:
        acc.add(ob, "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
    for p in paths:
        pc = list(p.pc)
        it.pc = pc
        if p.kind != "ok" or p.value[0] == "raise":
            acc.add(ob + ".noraise", *infeasible(pc, "raises %r" % (p.value,)))
            continue
        k, v, want_in, want_ti, rec = p.value
        for name, s, d in judge_graph(pc, panels, want_in, want_ti, rec):
            if s == "failed" and smt.check(pc) == "unsat":
                s, d = "proved", ""
            acc.add(ob + "." + name, s, d if s != "proved" else "")
    it.pc = []
    if paths:
        reach(acc, ob + ".reachable", paths)
    hard = acc.flush()
    r.used(it)
    graph_search(r, sp, rng, hard, tier)


def judge_graph(pc, panels, want_in, want_ti, rec):
    out = []
    sp_ = [x for x in rec if x[0].endswith(".subplots")]
    if len(sp_) != 1:
        return [("panels", "bounded", "%d calls of subplots" % len(sp_))]
    nr = sp_[0][2].get("nrows", sp_[0][1][0] if sp_[0][1] else 1)
    out.append(("panels", "proved" if nr == panels else "failed", "%r panels instead of %d" % (nr, panels)))
    drawn = [[] for _ in range(2)]
    for name, args, kw in rec:
        for a in (0, 1):
            if name.startswith("ax%d." % a) and name.rsplit(".", 1)[1] in ("plot", "step", "scatter", "bar", "semilogy", "stem", "plot_date"):
                if name != "ax%d.plot" % a or len(args) != 2:
                    return out + [("series", "bounded", "drawn with %s" % name)]
                drawn[a].append((args, kw))
    want = [want_in, want_ti] if panels == 2 else [want_in + want_ti, []]
    if nr != panels:
        return out
    k = param("k", "I")
    for a in (0, 1):
        got = drawn[a]
        todo = list(want[a])
        for (x, y), kw in got:
            lab = kw.get("label")
            hit = [w for w in todo if w[0] == lab]
            if not hit:
                out.append(("series", "failed", "panel %d: %r plotted though it is not one of %s (or twice)" % (a, lab, [w[0] for w in want[a]])))
                continue
            todo.remove(hit[0])
            l, col, ix = hit[0]
            if col is None:
                out.append(("series", "failed", "input column %s does not exist" % l))
                continue
            s, d = same_axis(pc, x, ix)
            out.append(("dates", s, "series %s: %s" % (l, d)))
            s, d = same_series(pc, y, col, ix, k)
            out.append(("values", s, "series %s: %s" % (l, d)))
        out.append(("series", "failed" if todo else "proved", "panel %d: %s not plotted" % (a, [w[0] for w in todo])))
    return out


def same_axis(pc, x, ix):
    if isinstance(x, SSeries):
        x = x.index
    if not isinstance(x, SIndex):
        return "bounded", "x values %r" % (x,)
    if x.base != ix.base or x.shuffled:
        return "failed", "other dates"
    g = and_(eq(x.start, ix.start), eq(x.length, ix.length))
    return ("proved", "") if smt.entails(pc, g) else ("failed", "dates from %s, %s of them" % (x.start, x.length))


def same_series(pc, y, col, ix, k):
    rng_ = [le(I(0), k), lt(k, ix.length)]
    try:
        if isinstance(y, SSeries):
            if y.index.base != ix.base or y.index.shuffled:
                return "failed", "other rows"
            if not smt.entails(pc, and_(eq(y.index.start, ix.start), eq(y.index.length, ix.length))):
                return "failed", "other rows"
            c = y.buf.col
            if c is col:
                return "proved", ""
            return cell_same(pc + rng_, c.get(add(ix.start, k)), col.get(add(ix.start, k)))
        from engine import pdmodel as P
        acc = P.seq_access(y)
        if acc is None:
            return "bounded", "y values %r" % (y,)
        ln, g = acc
        if not smt.entails(pc, eq(ln, ix.length)):
            return "failed", "number of values"
        return cell_same(pc + rng_, as_num(g(k)), col.get(add(ix.start, k)))
    except Unsupported as e:
        return "bounded", str(e)[:200]


def graph_search(r, sp, rng, hard, tier):
    panels, incols = graph_contract(sp)
    R_ = Real(REPO)
    t_end = min(time.time() + (60 if hard else 6) * (1 if tier == "quick" else 6), getattr(r, "deadline", None) or 1e18)
    consts = concrete.mined(REPO, discover(new_interp(REPO))[sp.cls].replace(".", "/") + ".py")
    done = 0
    try:
        for rep in range(150 if hard else 5):
            if time.time() > t_end:
                break
            c = concrete.gen_case(rng, sp, consts, [], False)
            if c is None:
                continue
            ps, n, d = c
            req = concrete.request(sp, ps, d, [])
            gap = rng.choice([1, 1, 3])
            req.update(op="graph", days=sorted(rng.sample(range(3, 4 + gap * n), n)), want=[])
            if rng.random() < 0.3:
                req["params"]["fill_missing_values"] = rng.random() < 0.3
                for c in req["data"]:
                    q = rng.choice([0, 0.05, 0.3])
                    req["data"][c] = [None if rng.random() < q else x for x in req["data"][c]]
            a = R_.ask(req)
            if "data" not in a:
                continue
            done += 1
            msg = judge_real_graph(a, panels, incols, req)
            if msg:
                r.violate("%s.graph" % sp.cls, "%s graph: %s" % (sp.name, msg), {"kind": "graph", "request": req, "expected": "the documented series", "got": msg})
                return
    finally:
        r.count("cases", done)
        R_.close()


def judge_real_graph(a, panels, incols, req):
    if "raised" in a.get("panels", {}) if isinstance(a.get("panels"), dict) else False:
        return "getTiGraph raises %s: %s" % (a["panels"]["raised"], a["panels"]["msg"])
    got = a["panels"]
    if len(got) != panels:
        return "%d panels instead of %d" % (len(got), panels)
    f, g = a["data"], a["input"]
    if f["data"] is None or g["data"] is None:
        return None
    miss = [c for c in incols if c not in g["cols"]]
    if miss:
        return "input columns %s missing" % miss
    wi = [(c, g["index"], g["data"][g["cols"].index(c)]) for c in incols]
    for c, ix, v in wi:
        if c in req["data"] and len(v) != len(req["data"][c]):
            return "input column %s does not have one value per date" % c
        if c in req["data"] and "fill_missing_values" not in req["params"] and v != [None if x is None else float(x) for x in req["data"][c]]:
            return "input column %s is not the caller's" % c
    wt = [(c, f["index"], f["data"][j]) for j, c in enumerate(f["cols"])]
    want = [wi, wt] if panels == 2 else [wi + wt]
    for a_, (gs, ws) in enumerate(zip(got, want)):
        if sorted(x["label"] for x in gs) != sorted(w[0] for w in ws):
            return "panel %d shows %s instead of %s" % (a_, [x["label"] for x in gs], [w[0] for w in ws])
        for lab, ix, v in ws:
            x = [q for q in gs if q["label"] == lab][0]
            if panels == 1 and len(x["x"]) != len(ix):
                # joined with a longer series: missing there
                m = dict(zip(x["x"], x["y"]))
                if set(ix) - set(m) or any(m[i] != y for i, y in zip(ix, v)) or any(m[i] is not None for i in m if i not in set(ix)):
                    return "series %s differs" % lab
                continue
            if x["x"] != ix:
                return "series %s is drawn against other dates" % lab
            if x["y"] != v:
                k = next((i for i, (p, q) in enumerate(zip(x["y"], v)) if p != q), None)
                return "series %s shows %s instead of %s at row %s" % (lab, x["y"][k] if k is not None else len(x["y"]), v[k] if k is not None else len(v), k)
    return None


def tasks(prop, tier):
    f = {"Q01": value_query_task, "U01": pure_task, "H01": graph_task}[prop]
    return [Task(sp.name, f, sp, tier, limit=300 if tier == "quick" else 1200) for sp in SPECS]
