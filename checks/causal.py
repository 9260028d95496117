"""C01: indicator values never depend on later data."""
import random
import time
from checks.common import Task, SEED, REPO
from checks.sym import *
from checks import concrete
from checks.concrete import Real, Bad, differ
from checks.values import prove, module_file
from engine.prover import Ctx, simp, int_only
from engine.depend import cell_later
from engine.ceval import Ev
from engine import cases

EXEMPT = {"DetrendedPriceOscillator", "FibonacciRetracement"}
SEEDED = {"ParabolicSAR": 1}        # rows before this one are seeded from the first two days


def task(r, sp, tier):
    rng = random.Random("C01/%s/%s/%d" % (sp.name, tier, SEED))
    fresh_world(sp.skip == "strict")
    it = new_interp(REPO)
    ps, pre = sym_params(sp)
    vals = sp.values(sp.penv())
    k = param("k", "I")
    states = {}
    try:
        paths = [p for p in construct(it, sp.cls, {**ps, **sp.fixed}, pre) if p.kind == "ok"]
        if not paths:
            raise RuntimeError("no construction path")
    except Exception as e:
        paths = []
        states = {l: [("bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))] for l in vals}
    base = [le(I(SEEDED.get(sp.cls, 0)), k), lt(k, N)]
    pre_i = [x for x in pre if int_only(x)]
    for p in paths:
        try:
            td = p.value.attrs["_ti_data"]
            pc = list(p.pc) + base
            # facts about n both inputs share: every size bound of the path
            cx = Ctx([x for x in pc if int_only(x)])
            it.pc = pc
            # the choice of path itself may only depend on parameters and size bounds
            data_cond = [x for x in p.pc if not int_only(x) and any(y.op in ("rd", "rdn", "rdi") for y in subterms(x).values())]
            for l, b in td.cols:
                c = b.col.get(k)
                probs = cell_later(c, cx, k)
                if not probs and not data_cond:
                    states.setdefault(l, []).append(("proved", ""))
                    continue
                # through the value contract: code = formula, formula causal
                sv = vals[l](k)
                p2 = cell_later(sv, cx, k)
                if p2:
                    states.setdefault(l, []).append(("bounded", "formula not shown causal: %s" % (p2[:2],)))
                    continue
                s, d, fl = prove(pc, lambda pv: pv.cell(pc, c, sv), 60)
                if s != "proved":
                    d = "may depend on %s; %s" % ("; ".join("%s %s" % (w, brief(t)[:100]) for w, t in probs[:3]) or "data-dependent construction", d)
                states.setdefault(l, []).append((s, d))
        except Exception as e:
            for l in vals:
                states.setdefault(l, []).append(("bounded", "outside the verified subset: %r" % e))
    hard = False
    for l, v in states.items():
        st = [x[0] for x in v]
        s = "failed" if "failed" in st else "bounded" if "bounded" in st else "proved"
        hard |= s != "proved"
        r.ob("%s.%s.causal" % (sp.name, l), s, " | ".join(x[1] for x in v if x[1]))
    r.used(it)
    it.pc = []
    search(r, sp, it, rng, hard, tier)


def search(r, sp, it, rng, hard, tier):
    R_ = Real(REPO)
    consts = concrete.mined(REPO, module_file(it, sp))
    f = 1 if tier == "quick" else 5
    t_end = time.time() + (60 if hard else 5) * f
    bad = Bad()
    done = 0
    try:
        for rep in range((800 if hard else 40) * f):
            if time.time() > t_end:
                break
            c = concrete.gen_case(rng, sp, consts, (), big=True)
            if c is None:
                continue
            ps, n, d = c
            E = Ev({**ps, "n": n}, {})
            mr = E.ev(sp.min_rows(sp.penv())) if sp.min_rows else 1
            if n <= mr:
                n2 = n + rng.choice([1, 2, 3, 10])
                d = cases.data(rng, n2, sp.columns, sp.skip == "strict")
                n = n2
            m = rng.randint(mr, n - 1) if n > mr else mr
            how = rng.choice(["cut", "change", "permute"])
            if how == "cut":
                d2 = {c: v[:m] for c, v in d.items()}
            else:
                o = cases.data(rng, n, sp.columns, sp.skip == "strict")
                d2 = {c: v[:m] + (o[c][m:] if how == "change" else v[m:][::-1]) for c, v in d.items()}
            q1, q2 = concrete.request(sp, ps, d, ["data"]), concrete.request(sp, ps, d2, ["data"])
            a, b = R_.ask(q1), R_.ask(q2)
            done += 1
            if "raised" in a or "raised" in b or a["data"].get("data") is None or b["data"].get("data") is None or a["data"]["cols"] != b["data"]["cols"]:
                continue
            for l, x, y in zip(a["data"]["cols"], a["data"]["data"], b["data"]["data"]):
                for i in range(SEEDED.get(sp.cls, 0), min(m, len(x), len(y))):
                    r.count("cells")
                    h = differ(x[i], y[i])
                    if h:
                        bad.add(l, h, rep, {"kind": "causal", "request": q1, "request2": q2, "rows_equal": m, "column": l, "row": i, "expected": x[i], "got": y[i]})
            if bad.strong:
                break
    finally:
        r.count("cases", done)
        R_.close()
    for l, rec in bad.decide().items():
        r.violate("%s.%s" % (sp.name, l), "%s %s with %s: row %d is %s or %s although the first %d input rows are equal" % (
            sp.name, l, rec["request"]["params"], rec["row"], rec["expected"], rec["got"], rec["rows_equal"]), rec)


def tasks(tier):
    return [Task(sp.name, task, sp, tier, limit=300 if tier == "quick" else 1200) for sp in SPECS if sp.cls not in EXEMPT]
