"""V01-V05: every row of every published column equals its formula."""
import random
import time
from engine.prover import Prover, Timeout
from engine.interp import Unsupported
from checks.common import Result, Task, SEED, REPO
from checks.sym import *
from checks import concrete

# obligations the prover does not discharge on the unchanged tree: never an
# alarm by themselves, decided by the bounded check
OPEN = {("MovingAverage[variable]", "ma-variable"), ("DirectionalMovementIndex", "adx"),
        ("DirectionalMovementIndex", "adxr"), ("RangeIndicator", "ri")}


def prove(pc, make, seconds):
    """make(prover) -> failed leaves.  ('proved'|'failed'|'bounded', detail, leaves)"""
    leaves, det = [], ""
    for k, f in ((0, 1), (1, 3)):
        u0 = smt.STATS["unknown"]
        smt.SCALE = f
        if k:
            smt._ent.clear()
        pv = Prover(deadline=time.time() + seconds * f)
        try:
            leaves = make(pv)
        except Timeout:
            det = "out of time after %d s" % (seconds * f)
            leaves = []
            state = "bounded"
            break
        except Unsupported as e:
            return "bounded", "unsupported: %s" % e, []
        finally:
            smt.SCALE = 1
        if not leaves:
            return "proved", "", []
        state = "failed"
        det = "; ".join("%s at [%s]: code %s vs contract %s" % (
            w, ", ".join(brief(x)[:80] for x in cx.lits[-6:]), brief(a)[:300], brief(b)[:300]) for cx, hy, w, a, b in leaves[:2])
        if smt.STATS["unknown"] > u0:
            state = "bounded"
            det = "solver gave up; " + det
        else:
            break
    return state, det, leaves


def value_task(r, sp, tier):
    rng = random.Random("%s/%s/%d" % (sp.name, tier, SEED))
    fresh_world(sp.skip == "strict")
    it = new_interp(REPO)
    ps, pre = sym_params(sp)
    hints, hard = [], False
    vals = sp.values(sp.penv())
    k = param("k", "I")
    sec = 60 if tier == "quick" else 200
    try:
        paths = construct(it, sp.cls, {**ps, **sp.fixed}, pre)
    except Exception as e:
        for l in vals:
            r.ob("%s.%s" % (sp.name, l), "bounded", "construction outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
        r.notes.append(repr(e))
        paths, hard = [], True
    nok = 0
    states = {}
    for p in paths:
        if p.kind != "ok":
            continue
        nok += 1
        try:
            td = p.value.attrs["_ti_data"]
            labels = [l for l, b in td.cols]
            if labels != list(vals):
                r.ob("%s.columns" % sp.name, "failed", "columns %s, documented %s" % (labels, list(vals)))
                hard = True
                continue
            pc = list(p.pc) + [le(I(0), k), lt(k, td.index.length)]
            L = sp.length(sp.penv()) if sp.length else N
            it.pc = list(p.pc)
            s, d, fl = prove(p.pc, lambda pv: pv.valid(p.pc, eq(td.index.length, L)), 20)
            states.setdefault("rows", []).append((s, d, fl))
            it.pc = pc
            for l, b in td.cols:
                c, sv = b.col.get(k), vals[l](k)
                if (sp.name, l) in OPEN and tier == "quick":
                    states.setdefault(l, []).append(("bounded", "not discharged on the unchanged tree (%s)" % why_open(sp, l), []))
                    continue
                s, d, fl = prove(pc, lambda pv: [] if n_same(c, sv) is TRUE else pv.cell(pc, c, sv), sec)
                if (sp.name, l) in OPEN and s == "failed":
                    s = "bounded"
                states.setdefault(l, []).append((s, d, fl))
        except Exception as e:
            r.notes.append(repr(e))
            for l in vals:
                if l not in states:
                    states[l] = [("bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]), [])]
    if paths and not nok:
        r.ob("%s.reachable" % sp.name, "failed", "no path constructs the indicator")
        hard = True
    elif paths:
        # vacuity: a construction path with enough rows exists
        ok = any(smt.check([t for t in p.pc]) == "sat" for p in paths if p.kind == "ok")
        r.ob("%s.reachable" % sp.name, "proved" if ok else "bounded", "construction succeeds for some input (cover)")
    for l, v in states.items():
        st = [x[0] for x in v]
        s = "failed" if "failed" in st else "bounded" if "bounded" in st else "proved"
        det = " | ".join(x[1] for x in v if x[1])
        for x in v:
            hints += concrete.leaf_hints(x[2], rng)
            hard |= x[0] != "proved"
        r.ob("%s.%s" % (sp.name, l), s, det)
    r.used(it)
    # concrete cross-check, deeper where something is not discharged
    it.pc = [le(I(1), N)] + [le(I(q.lo), q.term()) for q in sp.params if q.kind == "int"] + (sp.pre(sp.penv()) if sp.pre else [])
    consts = concrete.mined(REPO, module_file(it, sp))
    t, m = (70, 1500) if hard else (6, 60)
    if tier != "quick":
        t, m = t * 4, m * 6
    bad = concrete.values_search(r, sp, rng, t, m, consts, hints, REPO)
    for l, rec in bad.items():
        r.violate("%s.%s" % (sp.name, l), "%s %s with %s: row %s should be %s, the code gives %s" % (
            sp.name, l, rec["request"]["params"], rec.get("row"), rec["expected"], rec["got"]), rec)
    # a failed obligation without a failing input stays 'failed'


def why_open(sp, l):
    return "three nested recurrences" if l != "ri" else "nested extremes"


def module_file(it, sp):
    return discover(it)[sp.cls].replace(".", "/") + ".py"


def tasks(prop, tier):
    return [Task(sp.name, value_task, sp, tier, limit=400 if tier == "quick" else 1500) for sp in SPECS if sp.family == prop]
