"""Bounded concrete contract checks: the real code on generated inputs against
the executable reading of the same contracts (exact rational arithmetic).

Used (a) as a stand-in for obligations the prover does not discharge, with the
bound reported, (b) to turn a failed obligation into a failing input, (c) as a
run-time cross-check of the trusted library contracts on every run."""
import ast
import math
import os
import random
import time
from fractions import Fraction as F
from engine.ceval import Ev, ev_num, Unstable
from engine.real import Real
from engine import cases
from checks.sym import *

EVERR = (Unstable, OverflowError, RecursionError)


def ufwin(p, j):
    return F(math.exp(-abs(j - (p - 1) / 2)))


UFS = {"window_exponential": ufwin}


def mined(it_repo, modfile):
    """numeric constants in the source the check is about"""
    out = set()
    for f in (modfile, "tti/indicators/_technical_indicator.py"):
        p = os.path.join(it_repo, f)
        try:
            tree = ast.parse(open(p).read())
        except (OSError, SyntaxError):
            continue
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                out.add(abs(x.value))
    return sorted(out)


def gen_case(rng, sp, consts=(), hints=(), big=False):
    """(params, n, data) or None"""
    ints = [int(c) for c in consts if c == int(c) and 1 <= c <= 400]
    ps = cases.params(rng, sp)
    h = rng.choice(hints) if hints and rng.random() < 0.6 else None
    for q in sp.params:
        if q.kind != "int" or q.allowed:
            continue
        if h and q.name in h and rng.random() < 0.8 and q.lo <= h[q.name] <= 500:
            ps[q.name] = h[q.name]
        elif ints and rng.random() < 0.15:
            c = rng.choice(ints) + rng.choice([-1, 0, 0, 1])
            if q.lo <= c <= 60:
                ps[q.name] = c
    E1 = Ev({**ps, "n": 1}, {})
    if sp.pre and not all(E1.ev(c) for c in sp.pre(sp.penv())):
        return None
    mr = E1.ev(sp.min_rows(sp.penv())) if sp.min_rows else 1
    n = max(1, mr + rng.choice([0, 0, 1, 2, 3, 5, 8, 14, 20, 30] + ([60, 260] if big else [])))
    if h and "n" in h and mr <= h["n"] <= 1500 and rng.random() < 0.8:
        n = h["n"]
    elif ints and rng.random() < 0.15:
        c = rng.choice(ints) + rng.choice([-1, 0, 1])
        if mr <= c:
            n = c
    d = cases.data(rng, n, sp.columns, sp.skip == "strict")
    z = rng.random()
    if z < 0.12:
        # volumes on another scale
        if "volume" in d:
            k = rng.choice([F(1, 4), 16, 1000])
            d["volume"] = [v * k for v in d["volume"]]
    elif z < 0.3:
        # prices on another scale, or around a constant of the source
        if z < 0.2 or not consts:
            k = rng.choice([F(1, 16), F(1, 4), 16, 64])
            for c in d:
                if c != "volume":
                    d[c] = [v * k for v in d[c]]
        else:
            c0 = F(rng.choice(consts))
            if 1 <= c0 <= 10 ** 6 and c0.denominator <= 64:
                ref = "close" if "close" in d else next(iter(d))
                off = c0 - d[ref][rng.randrange(n)]
                for c in d:
                    if c != "volume" and ref != "volume" or c == ref:
                        d[c] = [v + off for v in d[c]]
                if any(v <= 0 for c in d if c != "volume" for v in d[c]) or any(v < 0 for v in d.get("volume", [])):
                    return None
    return ps, n, d


def request(sp, ps, d, want):
    return {"cls": sp.cls, "data": {c: [float(x) for x in v] for c, v in d.items()},
            "params": {**{k: cases.pval(v) for k, v in ps.items()}, **sp.fixed}, "want": want}


def fval(x):
    return None if x is None else x.replace("+", "") if isinstance(x, str) else float(x)


def differ(x, y):
    """None (agree), 'weak' (last digit) or 'strong'; x spec, y real"""
    if x is None or y is None:
        return None if x is None and y is None else "strong"
    if isinstance(y, str) and y.startswith("obj:"):
        return "strong"
    if isinstance(x, str) or isinstance(y, str):
        return None if x == y else "strong"
    d = abs(x - y)
    if d <= 1e-6 + 1e-11 * abs(y):
        return None
    if d <= 1.5e-4 + 1e-9 * abs(y):
        return "weak"
    return "strong"


class Bad:
    def __init__(self):
        self.strong = {}
        self.weak = {}

    def add(self, label, how, case, rec):
        (self.strong if how == "strong" else self.weak).setdefault(label, []).append((case, rec))

    def decide(self):
        """label -> record to report"""
        out = {}
        for l, v in self.strong.items():
            out[l] = v[0][1]
        for l, v in self.weak.items():
            if l not in out and len(v) >= 3 and len({c for c, _ in v}) >= 2:
                out[l] = v[0][1]
        return out


def values_search(r, sp, rng, seconds, ncases, consts=(), hints=(), repo="/repo", real=None):
    """compare every cell; returns label -> replay record"""
    R_ = real or Real(repo)
    kv = var("k!")
    cells = {l: s(kv) for l, s in sp.values(sp.penv()).items()}
    bad = Bad()
    t_end = min(time.time() + seconds, getattr(r, "deadline", None) or 1e18)
    done = 0
    try:
        for rep in range(ncases):
            if time.time() > t_end:
                break
            c = gen_case(rng, sp, consts, hints)
            if c is None:
                continue
            ps, n, d = c
            req = request(sp, ps, d, ["data"])
            a = R_.ask(req)
            done += 1
            base = {"kind": "values", "request": req}
            if "raised" in a or "raised" in a.get("data", {}):
                bad.add("*", "strong", rep, {**base, "expected": "indicator data", "got": a})
                break
            E = Ev({**ps, "n": n}, {"in_" + c: v for c, v in d.items()}, ufs=UFS)
            E.tight = True
            fr = a["data"]
            ln = E.ev(sp.length(sp.penv())) if sp.length else n
            if fr["cols"] != list(cells) or len(fr["index"]) != ln or fr["data"] is None:
                bad.add("*", "strong", rep, {**base, "expected": {"columns": list(cells), "rows": ln}, "got": {"columns": fr["cols"], "rows": len(fr["index"])}})
                break
            for l, col in zip(fr["cols"], fr["data"]):
                for i in range(ln):
                    try:
                        x = fval(ev_num(E, cells[l], {kv: i}))
                    except EVERR:
                        r.count("undecided_cells")
                        continue
                    r.count("cells")
                    h = differ(x, col[i])
                    if h:
                        bad.add(l, h, rep, {**base, "column": l, "row": i, "expected": x, "got": col[i]})
            if len(bad.strong) == len(cells) or len(bad.strong) and rep > 40:
                break
    finally:
        r.count("cases", done)
        if real is None:
            R_.close()
    return bad.decide()


def leaf_hints(failed, rng, count=6):
    """integer assignments (parameters, rows) satisfying a failed leaf"""
    from engine.prover import sample_points
    out = []
    for f in failed[:6]:
        try:
            for E, env in sample_points(f[0], rng, count, sizes=(12, 60, 400, 1400)):
                h = dict((k, v) for k, v in E.params.items() if isinstance(v, int))
                for v, x in env.items():
                    if isinstance(x, int):
                        h.setdefault("row", x)
                out.append(h)
        except Exception:
            pass
    return out
