"""Exact executable reading of the account contract and the concrete search of
S01-S06 on the real simulation."""
import random
import time
from fractions import Fraction as F
from engine.real import Real
from engine import cases
from checks import concrete
from checks.common import REPO, SEED

NUMS = ("stock_value", "exposure", "portfolio_value", "earnings", "balance")
COLS = ["signal", "open_trading_action", "stock_value", "exposure", "portfolio_value", "earnings", "balance"]


class Account:
    def __init__(self, prices, factor, limit):
        self.p, self.f, self.limit = prices, factor, limit
        self.open = []          # (kind, entry price)
        self.exposure = self.earnings = F(0)

    def day(self, i, signal, forced=None):
        """the row of day i; forced: the action the real code took"""
        p = self.p[i]
        if i == 0:
            return dict(signal=signal, open_trading_action="none", stock_value=p, exposure=F(0), portfolio_value=F(0), earnings=F(0), balance=F(0))
        keep = []
        for k, e in self.open:
            if k == "long" and e < p or k == "short" and e > p:
                self.earnings += p - e if k == "long" else e - p
            else:
                keep.append((k, e))
        self.open = keep
        self.exposure = sum((e if k == "long" else self.f * e for k, e in self.open), F(0))
        want = {"buy": "long", "sell": "short", "hold": "none"}[signal]
        cost = {"long": p, "short": self.f * p, "none": F(0)}[want]
        act = want
        if want != "none" and self.limit is not None and self.limit < self.exposure + cost:
            act = "none"
        self.allowed = act
        take = act if forced is None else forced
        if take in ("long", "short"):
            self.open.append((take, p))
            self.exposure += p if take == "long" else self.f * p
        net = sum(1 if k == "long" else -1 for k, e in self.open)
        pv = p * net
        return dict(signal=signal, open_trading_action=act, stock_value=p, exposure=self.exposure, portfolio_value=pv, earnings=self.earnings, balance=self.earnings + pv)


def close_to(x, y):
    """x exact, y from the real code (None: missing)"""
    return isinstance(y, (int, float)) and abs(float(x) - y) <= 1e-6 + 1e-11 * abs(y)


def judge(prop, prices, factor, limit, signals, ans, n):
    """first disagreement of the real table with the contract of prop, or None"""
    t = ans["table"]
    if t["cols"] != COLS or len(t["index"]) != n:
        return "table", {"columns": COLS, "rows": n}, {"columns": t["cols"], "rows": len(t["index"])}
    acc = Account(prices, factor, limit)
    D = t["data"]
    m = len(signals)
    for i in range(n):
        row = {c: D[c][i] for c in COLS}
        if i >= m:
            if prop in ("S01", "S03") and any(v is not None for v in row.values()):
                return "row %d" % i, "no value", row
            continue
        x = acc.day(i, signals[i], row["open_trading_action"] if i else None)
        if prop == "S01":
            for c in ("stock_value", "portfolio_value", "earnings", "balance"):
                if not close_to(x[c], row[c]):
                    return "%s on day %d" % (c, i), float(x[c]), row[c]
        elif prop == "S02":
            if not close_to(x["exposure"], row["exposure"]):
                return "exposure on day %d" % i, float(x["exposure"]), row["exposure"]
            if limit is not None and row["exposure"] > limit:
                return "exposure on day %d" % i, "at most %s" % float(limit), row["exposure"]
            if i and signals[i] != "hold" and (row["open_trading_action"] == "none") != (acc.allowed == "none"):
                return "open_trading_action on day %d" % i, acc.allowed, row["open_trading_action"]
        elif prop in ("S03", "S06"):
            if row["signal"] != signals[i]:
                return "signal on day %d" % i, signals[i], row["signal"]
            if prop == "S03":
                if row["open_trading_action"] != x["open_trading_action"]:
                    return "open_trading_action on day %d" % i, x["open_trading_action"], row["open_trading_action"]
                if i and not close_to(x["portfolio_value"], row["portfolio_value"]):
                    return "open positions (portfolio value) on day %d" % i, float(x["portfolio_value"]), row["portfolio_value"]
    if prop in ("S03", "S04"):
        lo = sum(k == "long" for k, e in acc.open)
        so = sum(k == "short" for k, e in acc.open)
        want = {"last_open_long_positions": lo, "last_open_short_positions": so}
        if prop == "S04":
            want["number_of_trading_days"] = m
            for s in ("buy", "sell"):
                want["number_of_%s_signals" % s] = sum(D["signal"][i] == s for i in range(m))
                want["number_of_ignored_%s_signals" % s] = sum(D["signal"][i] == s and D["open_trading_action"][i] == "none" for i in range(m))
            for nm, c in (("last_stock_value", "stock_value"), ("last_exposure", "exposure"), ("last_portfolio_value", "portfolio_value"),
                          ("last_earnings", "earnings"), ("final_balance", "balance")):
                v = D[c][m - 1] if m else 0
                if not isinstance(v, (int, float)):
                    return nm, "a number", v
                want[nm] = float(round(F(v), 2))
            if set(want) != set(ans["stats"]):
                return "statistics", sorted(want), sorted(ans["stats"])
        for k, v in want.items():
            g = ans["stats"].get(k)
            if not isinstance(g, (int, float)) or abs(g - v) > 1e-9:
                return "statistic " + k, v, g
    return None


def account_case(rng, consts):
    """(prices, factor, limit, signals, rows)"""
    n = rng.choice([1, 2, 3, 5, 8, 12, 20, 30] * 3 + [60, 150] + [int(c) + rng.choice([0, 1, 2]) for c in consts if 2 <= c <= 300])
    prices = cases.series(rng, n, rng.choice(["steps", "steps", "saw", "walk", "flat", "up", "down", "wave"]))
    if rng.random() < 0.2:
        k = rng.choice([F(1, 16), 16, 256])
        prices = [p * k for p in prices]
    if rng.random() < 0.15:
        # finer than a cent
        prices = [p + F(rng.randint(0, 15), 64) for p in prices]
    big = [abs(F(c)) for c in consts if abs(c) > 1]
    if big and rng.random() < 0.25:
        # about the numbers the code mentions
        c = rng.choice(big)
        k = c / rng.choice(prices)
        k = F(max(1, int(k * 64)), 64)
        prices = [F(int(p * k * 64), 64) for p in prices]
    factor = rng.choice([F(1), F(5, 4), F(3, 2), F(2), F(3)])
    z = rng.random()
    if z < 0.35:
        limit = None
    elif z < 0.7:
        # exactly reachable
        limit = F(0)
        for _ in range(rng.randint(1, 4)):
            limit += rng.choice(prices) * rng.choice([1, factor])
    else:
        limit = rng.choice(prices) * F(rng.randint(1, 60), 8)
    m = n if rng.random() < 0.8 else rng.randint(0, n)
    w = rng.choice([(1, 1, 1), (1, 4, 1), (1, 1, 4), (0, 1, 1), (6, 1, 1)])
    signals = rng.choices(["hold", "buy", "sell"], w, k=m)
    return prices, factor, limit, signals, n


def arg(x):
    return ["none", None] if x is None else ["float", float(x)]


def account_search(r, prop, rng, seconds, ncases, consts):
    R_ = Real(REPO)
    t_end = min(time.time() + seconds, getattr(r, "deadline", None) or 1e18)
    done = 0
    try:
        for rep in range(ncases):
            if time.time() > t_end:
                break
            prices, factor, limit, signals, n = account_case(rng, consts)
            req = {"op": "rounds", "data": {"close": [float(p) for p in prices]}, "limit": arg(limit), "factor": arg(factor), "signals": signals}
            a = R_.ask(req)
            done += 1
            rec = {"kind": "account", "request": req}
            if "raised" in a:
                return {"raises": {**rec, "what": "running the simulation", "expected": "a simulation", "got": a}}
            bad = judge(prop, prices, factor, limit, signals, a, n)
            if bad:
                return {bad[0].split(" on day")[0]: {**rec, "what": bad[0], "expected": bad[1], "got": bad[2]}}
    finally:
        r.count("cases", done)
        R_.close()
    return {}


def sim_search(r, prop, specs, rng, seconds, ncases):
    """whole simulations of real indicators"""
    R_ = Real(REPO)
    t_end = min(time.time() + seconds, getattr(r, "deadline", None) or 1e18)
    done = 0
    order = list(specs)
    rng.shuffle(order)
    try:
        for rep in range(ncases):
            if time.time() > t_end:
                break
            sp = order[rep % len(order)]
            c = concrete.gen_case(rng, sp)
            if c is None:
                continue
            ps, n, d = c
            if n > 90:
                continue
            cols = dict(d)
            if "close" not in cols:
                cols["close"] = cases.data(rng, n, ["close"])["close"]
            factor = rng.choice([F(1), F(3, 2), F(2)])
            limit = rng.choice([None, None, cols["close"][0] * rng.choice([1, 2, 4])])
            req = concrete.request(sp, ps, cols, [])
            req.update(op="simulate", limit=arg(limit), factor=arg(factor))
            perm = list(range(n))
            if rng.random() < 0.4:
                rng.shuffle(perm)
                req["data"] = {k: [v[j] for j in perm] for k, v in req["data"].items()}
                req["days"] = perm
            a = R_.ask(req)
            if "construct" in a:
                continue
            done += 1
            rec = {"kind": "simulation", "request": req}
            if "raised" in a:
                return {"raises": {**rec, "what": "getTiSimulation of %s" % sp.name, "expected": "a simulation", "got": a}}
            if prop == "S06":
                for k in ("ti_kept", "input_kept"):
                    if not a[k]:
                        return {k: {**rec, "what": "%s: indicator data after the simulation" % sp.name, "expected": "unchanged", "got": "changed"}}
            if prop == "D03" and not a["user_kept"]:
                return {"user": {**rec, "what": "%s: the caller's frames after a simulation" % sp.name, "expected": "unchanged", "got": "changed"}}
            if prop == "D03":
                continue
            sg = [s[0] if isinstance(s, list) else None for s in a["signals"]]
            if None in sg:
                continue            # judged by G01
            bad = judge(prop, cols["close"], factor, limit, sg, a, n)
            if bad:
                return {bad[0].split(" on day")[0]: {**rec, "what": "%s: %s" % (sp.name, bad[0]), "expected": bad[1], "got": bad[2]}}
    finally:
        r.count("cases", done)
        R_.close()
    return {}
