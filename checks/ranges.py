"""R01: bounded indicators stay in their range, bands stay ordered.

Per column: the range or the order is proved on the terms the code computes;
where that does not close, the code is proved equal to its formula contract and
the formula is proved to obey (a lemma over the contract)."""
import random
import time
from engine import ineq
from engine.prover import Prover, Timeout
from engine.interp import Unsupported
from engine.real import Real
from checks.common import Task, SEED, REPO
from checks.sym import *
from checks import concrete
from checks.values import module_file

H = (0, 100)
RANGES = {
    "RelativeStrengthIndex": {"rsi": H}, "RelativeMomentumIndex": {"rmi": H}, "IntradayMomentumIndex": {"imi": H},
    "StochasticOscillator[simple]": {"%K": H, "%D": H}, "StochasticOscillator[exponential]": {"%K": H, "%D": H},
    "UltimateOscillator": {"uosc": H}, "ProjectionOscillator": {"posc": H, "trigger_line": H}, "RangeIndicator": {"ri": H},
    "RelativeVolatilityIndex": {"rvi": H}, "DirectionalMovementIndex": {c: H for c in ("+di", "-di", "dx", "adx", "adxr")},
    "ChandeMomentumOscillator": {"cmo": (-100, 100)}, "StochasticMomentumIndex": {"smi": (-100, 100)},
    "WilliamsR": {"wr": (-100, 0)}, "ChaikinMoneyFlow": {"cmf": (-1, 1)}, "VerticalHorizontalFilter": {"vhf": (0, 1)},
    "StandardDeviation": {"sd": (0, None)}, "AverageTrueRange": {"atr": (0, None)}}
ORDERS = {"BollingerBands": [("upper_band", "middle_band"), ("middle_band", "lower_band")],
          "Envelopes": [("upper_band", "lower_band")], "ProjectionBands": [("upper_band", "lower_band")],
          "PriceChannel": [("highest_high", "lowest_low")]}
# lemmas beyond the prover's reach on the unchanged tree: decided by the bounded check
OPEN = {("DirectionalMovementIndex", "adx"), ("DirectionalMovementIndex", "adxr")}
DIGITS = ("ProjectionOscillator",)


def attempt(make, seconds, digits):
    pv = ineq.Ranger(deadline=time.time() + seconds, digits=digits)
    try:
        return make(pv)
    except (Timeout, Unsupported, RecursionError) as e:
        return [(None, [], type(e).__name__, Z, Z)]


def same_as_contract(pc, c, sv, seconds):
    if n_same(c, sv) is TRUE:
        return []
    try:
        return Prover(deadline=time.time() + seconds).cell(pc, c, sv)
    except (Timeout, Unsupported) as e:
        return [(None, [], type(e).__name__, Z, Z)]


def obligations(sp):
    for l, (lo, hi) in RANGES.get(sp.name, {}).items():
        yield "%s.%s in [%s, %s]" % (sp.name, l, lo, "inf" if hi is None else hi), (l,), \
            (lambda pv, pc, cells, l=l, lo=lo, hi=hi: pv.cell_range(pc, cells[l], None if lo is None else R(lo), None if hi is None else R(hi)))
    for a, b in ORDERS.get(sp.name, []):
        yield "%s.%s >= %s" % (sp.name, a, b), (a, b), (lambda pv, pc, cells, a=a, b=b: pv.cell_order(pc, cells[a], cells[b]))


def range_task(r, sp, tier):
    rng = random.Random("R/%s/%s/%d" % (sp.name, tier, SEED))
    fresh_world(sp.skip == "strict")
    ineq.bar_facts(sp.skip == "strict")
    it = new_interp(REPO)
    ps, pre = sym_params(sp)
    k = param("k", "I")
    vals = sp.values(sp.penv())
    dg = sp.name in DIGITS
    sec = 60 if tier == "quick" else 300
    hints, hard = [], False
    bodies = None
    try:
        bodies = []
        for p in construct(it, sp.cls, {**ps, **sp.fixed}, pre):
            if p.kind != "ok":
                continue
            td = p.value.attrs["_ti_data"]
            it.pc = list(p.pc)
            bodies.append((list(p.pc) + [le(I(0), k), lt(k, td.index.length)], {l: b.col.get(k) for l, b in td.cols}))
    except Exception as e:
        r.notes.append(repr(e))
        bodies = None
    lemma = {}
    base = [le(I(1), N)] + list(pre) + ([le(sp.min_rows(sp.penv()), N)] if sp.min_rows else []) + [le(I(0), k), lt(k, sp.length(sp.penv()) if sp.length else N)]
    for name, ls, make in obligations(sp):
        if not bodies or any(l not in c for pc, c in bodies for l in ls):
            r.ob(name, "bounded", "construction outside the verified subset" if bodies is None else "column not found")
            hard = True
            continue
        if tier == "quick" and any((sp.name, l) in OPEN for l in ls):
            r.ob(name, "bounded", "not discharged on the unchanged tree (induction over nested recurrences)")
            hard = True
            continue
        det = []
        for pc, cells in bodies:
            it.pc = list(pc)
            f = attempt(lambda pv: make(pv, pc, cells), sec, dg)
            if not f:
                continue
            det.append("on the code: " + "; ".join(str(x[2]) for x in f[:2]))
            hints += concrete.leaf_hints([x for x in f if x[0] is not None], rng)
            # the formula contract instead
            bad = []
            for l in ls:
                it.pc = list(pc)
                bad += same_as_contract(pc, cells[l], vals[l](k), sec)
            if bad:
                hints += concrete.leaf_hints([x for x in bad if x[0] is not None], rng)
                det.append("code not proved equal to its formula")
                break
            if name not in lemma:
                it.pc = list(base)
                lemma[name] = attempt(lambda pv: make(pv, base, {l: vals[l](k) for l in ls}), 2 * sec, dg)
            if lemma[name]:
                det.append("lemma on the formula: %s" % lemma[name][0][2])
                break
        else:
            r.ob(name, "proved", "on the code" if not det else "code equals its formula, lemma on the formula")
            continue
        r.ob(name, "bounded", " | ".join(det))
        hard = True
    r.used(it)
    search(r, sp, rng, tier, hard, hints, it)


def spikes(rng, d, n):
    """a few rows on another price level"""
    for _ in range(rng.randint(1, 3)):
        i, f = rng.randrange(n), rng.choice([Fraction(1, 4), 4, 64])
        j = min(n, i + rng.choice([1, 1, 2, 6]))
        for c in d:
            if c != "volume":
                d[c][i:j] = [v * f for v in d[c][i:j]]


def search(r, sp, rng, tier, hard, hints, it):
    consts = concrete.mined(REPO, module_file(it, sp))
    t, m = (60, 1500) if hard else (8, 90)
    if tier != "quick":
        t, m = t * 5, m * 8
    t_end = min(time.time() + t, getattr(r, "deadline", None) or 1e18)
    bad = concrete.Bad()
    done = 0
    R_ = Real(REPO)
    try:
        for rep in range(m):
            if time.time() > t_end or bad.strong:
                break
            c = concrete.gen_case(rng, sp, consts, hints)
            if c is None:
                continue
            ps, n, d = c
            if rng.random() < 0.25:
                spikes(rng, d, n)
            if sp.name in DIGITS and any((v * 10000).denominator != 1 for c in d for v in d[c]):
                continue
            req = concrete.request(sp, ps, d, ["data"])
            a = R_.ask(req)
            done += 1
            if "raised" in a or "raised" in a.get("data", {}) or a["data"]["data"] is None:
                continue            # another property
            cols = dict(zip(a["data"]["cols"], a["data"]["data"]))
            base = {"kind": "range", "request": req}
            for l, (lo, hi) in RANGES.get(sp.name, {}).items():
                for i, x in enumerate(cols.get(l, [])):
                    if x is None:
                        continue
                    r.count("cells")
                    if isinstance(x, str):
                        bad.add(l, "strong", rep, {**base, "column": l, "row": i, "expected": "a finite number", "got": x, "rule": [l, lo, hi]})
                        continue
                    e = max((lo - x) if lo is not None else 0, (x - hi) if hi is not None else 0)
                    if e > 1e-9:
                        bad.add(l, "strong" if e > 1.5e-4 else "weak", rep, {**base, "column": l, "row": i, "expected": "in [%s, %s]" % (lo, hi), "got": x, "rule": [l, lo, hi]})
            for x, y in ORDERS.get(sp.name, []):
                for i, (u, v) in enumerate(zip(cols.get(x, []), cols.get(y, []))):
                    if u is None or v is None:
                        continue
                    r.count("cells")
                    if isinstance(u, str) or isinstance(v, str):
                        bad.add(x, "strong", rep, {**base, "column": x, "row": i, "expected": "finite bands", "got": [u, v], "rule": [x, y]})
                    elif u < v - 1e-9:
                        bad.add(x, "strong" if u < v - 1.5e-4 else "weak", rep, {**base, "column": x, "row": i, "expected": ">= %s (%s)" % (y, v), "got": u, "rule": [x, y]})
    finally:
        r.count("cases", done)
        R_.close()
    for l, rec in bad.decide().items():
        r.violate("%s.%s" % (sp.name, l), "%s %s with %s: row %s should be %s, the code gives %s" % (
            sp.name, l, rec["request"]["params"], rec.get("row"), rec["expected"], rec["got"]), rec)


def tasks(tier):
    big = ("ProjectionOscillator", "DirectionalMovementIndex", "StochasticOscillator[simple]", "StochasticOscillator[exponential]", "RelativeMomentumIndex")
    ts = [sp for sp in SPECS if sp.name in RANGES or sp.name in ORDERS]
    ts.sort(key=lambda sp: sp.name not in big)
    return [Task(sp.name, range_task, sp, tier, limit=500 if tier == "quick" else 2500) for sp in ts]
