"""M01: too short data is refused exactly below the documented minimum, and
the result has one row per input date and exactly the documented columns."""
import random
import time
from checks.common import Task, SEED, REPO
from checks.sym import *
from checks import concrete
from checks.concrete import Real
from checks.values import prove, module_file
from engine.ceval import Ev
from engine import cases


def exc_name(p):
    e = p.value
    e = getattr(e, "exc", e)
    c = getattr(e, "cls", None)
    return getattr(c, "name", None) or getattr(c, "__name__", None) or repr(e)


def task(r, sp, tier):
    rng = random.Random("M01/%s/%s/%d" % (sp.name, tier, SEED))
    fresh_world(sp.skip == "strict")
    it = new_interp(REPO)
    ps, pre = sym_params(sp)
    hints, hard = [], False
    obs = {}
    mr = sp.min_rows(sp.penv()) if sp.min_rows else I(1)

    def ob(name, s, d, fl=()):
        nonlocal hard
        obs.setdefault(name, []).append((s, d))
        hard |= s != "proved"
        hints.extend(concrete.leaf_hints(list(fl), rng))
    try:
        paths = construct(it, sp.cls, {**ps, **sp.fixed}, pre)
    except Exception as e:
        paths = []
        ob("paths", "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))
    L = sp.length(sp.penv()) if sp.length else N
    cols = list(sp.values(sp.penv()))
    for p in paths:
        try:
            if p.kind == "ok":
                ob("enough", *prove(p.pc, lambda pv: pv.valid(p.pc, le(mr, N)), 30))
                td = p.value.attrs["_ti_data"]
                labels = [l for l, b in td.cols]
                ob("columns", "proved" if labels == cols else "failed", "columns %s, documented %s" % (labels, cols) if labels != cols else "")
                ob("rows", *prove(p.pc, lambda pv: pv.valid(p.pc, eq(td.index.length, L)), 30))
                if not sp.length:
                    inp = p.value.attrs["_input_data"]
                    ix = td.index
                    same = ix.base == "D" and getattr(ix, "start", Z) is Z
                    ob("dates", "proved" if same else "bounded", "" if same else "index %r" % ix)
                else:
                    same = td.index.base == "D"
                    ob("dates", "proved" if same else "bounded", "" if same else "index %r" % td.index)
            else:
                nm = exc_name(p)
                if nm == "NotEnoughInputData":
                    ob("refused", *prove(p.pc, lambda pv: pv.valid(p.pc, lt(N, mr)), 30))
                else:
                    s, d, fl = prove(p.pc, lambda pv: pv.valid(p.pc, FALSE), 30)
                    ob("exception", s, "raises %s; %s" % (nm, d), fl)
        except Exception as e:
            ob("paths", "bounded", "outside the verified subset: %r" % e)
    for n, v in obs.items():
        st = [x[0] for x in v]
        r.ob("%s.%s" % (sp.name, n), "failed" if "failed" in st else "bounded" if "bounded" in st else "proved", " | ".join(x[1] for x in v if x[1]))
    r.used(it)
    it.pc = []
    search(r, sp, it, rng, hints, hard, tier)


def search(r, sp, it, rng, hints, hard, tier):
    R_ = Real(REPO)
    mr = sp.min_rows(sp.penv()) if sp.min_rows else I(1)
    cols = list(sp.values(sp.penv()))
    t_end = time.time() + (40 if hard else 8) * (1 if tier == "quick" else 4)
    consts = concrete.mined(REPO, module_file(it, sp))
    ints = [int(c) for c in consts if c == int(c) and 2 <= c <= 400]
    done = 0
    try:
        for rep in range((600 if hard else 80) * (1 if tier == "quick" else 6)):
            if time.time() > t_end:
                break
            ps = cases.params(rng, sp)
            E = Ev({**ps, "n": 1}, {})
            if sp.pre and not all(E.ev(c) for c in sp.pre(sp.penv())):
                continue
            m0 = E.ev(mr)
            n = rng.choice([m0 - 1, m0, m0 + 1, m0 - 2, m0 + 5, rng.randint(1, m0 + 30)] + ([rng.choice(ints)] if ints else []))
            if hints and rng.random() < 0.4:
                n = rng.choice(hints).get("n", n)
            n = max(1, min(n, 1200))
            d = cases.data(rng, n, sp.columns, sp.skip == "strict")
            perm = list(range(n))
            if rng.random() < 0.5:
                rng.shuffle(perm)
            req = concrete.request(sp, ps, {c: [v[j] for j in perm] for c, v in d.items()}, ["data"])
            req["days"] = [3 * j for j in perm]
            a = R_.ask(req)
            done += 1
            rec = {"kind": "shape", "request": req, "rows": n}

            def bad(key, exp, got):
                r.violate("%s.%s" % (sp.name, key), "%s with %s on %d rows: expected %s, got %s" % (sp.name, req["params"], n, exp, got), {**rec, "expected": exp, "got": got})
            if n < m0:
                if a.get("raised") != "NotEnoughInputData":
                    bad("refused", "NotEnoughInputData (needs %d rows)" % m0, a.get("raised", "an indicator"))
                    return
                continue
            if "raised" in a or "raised" in a["data"]:
                bad("accepted", "an indicator (%d rows are enough)" % m0, a.get("raised") or a["data"]["raised"])
                return
            ln = Ev({**ps, "n": n}, {}).ev(sp.length(sp.penv())) if sp.length else n
            fr = a["data"]
            if fr["cols"] != cols:
                bad("columns", cols, fr["cols"])
                return
            import datetime
            days = sorted(req["days"])[:ln]
            exp = [str(datetime.date(2000, 1, 1) + datetime.timedelta(days=x)) for x in days]
            if fr["index"] != exp:
                bad("dates", "%d rows %s..." % (ln, exp[:3]), "%d rows %s..." % (len(fr["index"]), fr["index"][:3]))
                return
    finally:
        r.count("cases", done)
        R_.close()


def tasks(tier):
    return [Task(sp.name, task, sp, tier, limit=300 if tier == "quick" else 1200) for sp in SPECS]
