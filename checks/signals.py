"""G01-G04: the trading signal."""
import random
import time
from fractions import Fraction as F
from checks.common import Task, SEED, REPO
from checks.sym import *
from checks import concrete
from checks.concrete import Unstable, Real, EVERR
from checks.values import prove, module_file
from engine.ceval import Ev

WELL = {("hold", 0), ("buy", -1), ("sell", 1)}


def sym_signal(r, sp, want_rule):
    """-> (states {name: [(state, detail, leaves)]}, hard, interp)"""
    fresh_world(sp.skip == "strict")
    it = new_interp(REPO)
    ps, pre = sym_params(sp)
    states = {}
    try:
        if want_rule:
            paths = signal_paths(it, sp, ps, pre)
        else:
            try:
                paths = signal_paths(it, sp, ps, pre, free=1)
            except Unsupported:
                paths = signal_paths(it, sp, ps, pre, free=2)
                r.notes.append("infinite indicator values excluded for " + sp.name)
    except Exception as e:
        r.notes.append(repr(e))
        return {"paths": [("bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]), [])]}, it
    nok = 0
    for j, p in enumerate(paths):
        if p.kind != "ok":
            continue            # construction refused (M01, P01)
        v, o = p.value
        nok += 1
        name = "path%d" % j
        if isinstance(v, Raised):
            # reachable? an infeasible path proves itself
            s, d, fl = prove(p.pc, lambda pv: pv.valid(p.pc, FALSE), 30)
            states.setdefault("noraise", []).append((s, "getTiSignal %r; %s" % (v, d), fl))
            continue
        good = isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and type(v[1]) is int and v in WELL
        if not good:
            s, d, fl = prove(p.pc, lambda pv: pv.valid(p.pc, FALSE), 30)
            states.setdefault("wellformed", []).append((s, "result %r; %s" % (v, d), fl))
            continue
        if not want_rule:
            states.setdefault(name, []).append(("proved", "", []))
            continue
        mt = min_(M, sp.length(sp.penv())) if sp.length else M
        try:
            g = eq(spec_action(sp.signal(sp.penv(), signal_ctx(sp, mt))), I(v[1]))
            s, d, fl = prove(p.pc, lambda pv: [] if g is TRUE else pv.valid(p.pc, g), 40)
        except Exception as e:
            s, d, fl = "bounded", "outside the verified subset: %r" % e, []
        states.setdefault(name, []).append((s, ("returns %s; " % v[0] + d) if d else "", fl))
    if not nok:
        states["reachable"] = [("failed", "no path reaches getTiSignal", [])]
    elif not any(smt.check(list(p.pc)) == "sat" for p in paths if p.kind == "ok"):
        states["reachable"] = [("bounded", "no satisfiable path found", [])]
    else:
        states["reachable"] = [("proved", "cover", [])]
    return states, it


def task(r, sp, tier, prop):
    rng = random.Random("%s/%s/%s/%d" % (prop, sp.name, tier, SEED))
    states, it = sym_signal(r, sp, prop != "G01")
    hints, hard = [], False
    for l, v in states.items():
        st = [x[0] for x in v]
        s = "failed" if "failed" in st else "bounded" if "bounded" in st else "proved"
        for x in v:
            hints += concrete.leaf_hints(x[2], rng)
            hard |= x[0] != "proved"
        r.ob("%s.signal.%s" % (sp.name, l), s, " | ".join(x[1] for x in v if x[1]))
    r.used(it)
    it.pc = [le(I(1), N), le(I(1), M), le(M, N)] + [le(I(q.lo), q.term()) for q in sp.params if q.kind == "int"] + (sp.pre(sp.penv()) if sp.pre else [])
    consts = concrete.mined(REPO, module_file(it, sp))
    t, m = (80, 3000) if hard else (6, 60)
    if tier != "quick":
        t, m = t * 4, m * 6
    for key, rec in search(r, sp, prop, rng, t, m, consts, hints).items():
        r.violate("%s.signal" % sp.name, "%s signal with %s on the first %s rows: should be %s, the code gives %s" % (
            sp.name, rec["request"]["params"], rec.get("rows"), rec["expected"], rec["got"]), rec)


def rules_of(sp):
    hid = {l: h(sp.penv()) for l, h in sp.hidden}

    def inp(c, i):
        return hid[c](i) if c in hid else in_cell(c, i)
    mt = min_(M, sp.length(sp.penv())) if sp.length else M
    return sp.signal(sp.penv(), SigCtx(mt, ti_cell, inp))


def search(r, sp, prop, rng, seconds, ncases, consts, hints):
    rules = rules_of(sp)
    R_ = Real(REPO)
    t_end = min(time.time() + seconds, getattr(r, "deadline", None) or 1e18)
    big = sp.cls in ("NegativeVolumeIndex", "PositiveVolumeIndex") or any(c in (255, 250, 260, 200) for c in consts)
    done = 0
    try:
        for rep in range(ncases):
            if time.time() > t_end:
                break
            c = concrete.gen_case(rng, sp, consts, hints, big)
            if c is None:
                continue
            ps, n, d = c
            req = concrete.request(sp, ps, d, [])
            req["op"] = "signals"
            if prop == "G01" and rng.random() < 0.4:
                # missing cells, kept as they are or filled
                req["params"]["fill_missing_values"] = rng.random() < 0.3
                for c in req["data"]:
                    if rng.random() < 0.6:
                        q = rng.choice([0.05, 0.3, 1.0])
                        req["data"][c] = [None if rng.random() < q else x for x in req["data"][c]]
            rows = list(range(1, n + 1))
            if n > 80:
                rows = sorted(set(rng.sample(rows, 60)) | {1, 2, n, min(n, 256), min(n, 255)})
            req["rows"] = rows
            a = R_.ask(req)
            done += 1
            if "raised" in a:
                if prop == "G01" and "fill_missing_values" in req["params"] or a["raised"] in ("NotEnoughInputData", "WrongTypeForInputParameter", "WrongValueForInputParameter"):
                    continue        # judged by M01 and P01
                return {"construct": {"kind": "signal", "request": req, "rows": n, "expected": "an indicator", "got": a}}
            todo = [(n, a["signal"])] + (list(zip(rows, a["prefix"])) if a["prefix"] else [])
            if prop == "G01":
                for m, s in todo:
                    r.count("signals")
                    if not (isinstance(s, list) and tuple(s) in WELL):
                        return {"bad": {"kind": "signal", "request": req, "rows": m, "expected": "one of (hold, 0), (buy, -1), (sell, 1)", "got": s}}
                continue
            fr = a["data"]
            if fr["data"] is None:
                continue
            arr = {"in_" + c: v for c, v in d.items()}
            nan, inf = {}, {}
            for l, col in zip(fr["cols"], fr["data"]):
                nan["ti_" + l] = [x is None for x in col]
                inf["ti_" + l] = [{"inf": 1, "-inf": -1}.get(x, 0) if isinstance(x, str) else 0 for x in col]
                arr["ti_" + l] = [F(0) if x is None or isinstance(x, str) else F(repr(x)) for x in col]
            for m, s in todo:
                E = Ev({**ps, "n": n, "m": m}, arr, nan, inf, ufs=concrete.UFS)
                try:
                    ex = "hold"
                    for cnd, act in rules:
                        if E.ev(cnd):
                            ex = act
                            break
                except EVERR:
                    r.count("undecided_signals")
                    continue
                r.count("signals")
                r.count("signal_" + ex)
                if s != [ex, ACTION[ex]]:
                    if sp.cls in ("FibonacciRetracement",) and m < n and False:
                        continue
                    return {"rule": {"kind": "signal", "request": req, "rows": m, "expected": [ex, ACTION[ex]], "got": s}}
    finally:
        r.count("cases", done)
        R_.close()
    return {}


def tasks(prop, tier):
    return [Task(sp.name, task, sp, tier, prop, limit=400 if tier == "quick" else 1500)
            for sp in SPECS if prop == "G01" or sp.sfamily == prop]
