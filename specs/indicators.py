"""Contracts of the indicators: what every row of every column equals.

`values(p)` maps column label -> Ser (already rounded as published); `min_rows`
is the documented minimum number of rows; `signal(p, s)` is the list of
(condition, action) of the trading rule in order of precedence, hold otherwise.
Parameters are terms."""
from .lib import *

CLOSE, HIGH, LOW, OPEN, VOL = IN("close"), IN("high"), IN("low"), IN("open"), IN("volume")
per = lambda *d: [Par("period", 1, *d)]
per2 = lambda *d: [Par("period", 2, *d)]
PERIOD = lambda p: p["period"]
rr = lambda p: toreal(p)


def cross0(label, up, down, rows=2):
    def f(p, s):
        return need(s.m, rows, [(up_through(s, label, 0), up), (down_through(s, label, 0), down)])
    return f


def close_cross(label, above, below):
    """close crosses the line: `above` when it goes above"""
    def f(p, s):
        return need(s.m, 2, [
            (and_(LT(s.x("close", 2), s.ti(label, 2)), GT(s.x("close", 1), s.ti(label, 1))), above),
            (and_(GT(s.x("close", 2), s.ti(label, 2)), LT(s.x("close", 1), s.ti(label, 1))), below)])
    return f


def trend3(label, up, down):
    def f(p, s):
        return need(s.m, 3, [(rising3(s, label), up), (falling3(s, label), down)])
    return f


def band(hi, lo, above="sell", below="buy"):
    def f(p, s):
        return need(s.m, 1, [(GT(s.x("close", 1), s.ti(hi, 1)), above), (LT(s.x("close", 1), s.ti(lo, 1)), below)])
    return f


def levels(label, hi, lo, up="sell", down="buy"):
    """up through the upper level / down through the lower level"""
    def f(p, s):
        return need(s.m, 2, [(up_through(s, label, hi), up), (down_through(s, label, lo), down)])
    return f


# =================================================================== averages
@spec("MovingAverage", "close", per(20), "V01", "G02", PERIOD, variant="simple", fixed={"ma_type": "simple"},
      signal=lambda p, s: need(s.m, 1, [(GT(s.x("close", 1), s.ti("ma-simple", 1)), "buy")]))
def ma_simple(p):
    return {"ma-simple": CLOSE.mean(p["period"]).round()}


@spec("MovingAverage", "close", per(20), "V01", "G02", PERIOD, variant="exponential", fixed={"ma_type": "exponential"},
      signal=lambda p, s: need(s.m, 1, [(GT(s.x("close", 1), s.ti("ma-exponential", 1)), "buy")]))
def ma_exponential(p):
    return {"ma-exponential": CLOSE.ema(p["period"]).round()}


@spec("MovingAverage", "close", per2(20), "V01", "G02", PERIOD, variant="time_series", fixed={"ma_type": "time_series"},
      signal=lambda p, s: need(s.m, 1, [(GT(s.x("close", 1), s.ti("ma-time_series", 1)), "buy")]))
def ma_time_series(p):
    q = p["period"]
    return {"ma-time_series": (line_slope(CLOSE, q).round() + line_end(CLOSE, q).round()).round()}


@spec("MovingAverage", "close", per(20), "V01", "G02", PERIOD, variant="triangular", fixed={"ma_type": "triangular"},
      signal=lambda p, s: need(s.m, 1, [(GT(s.x("close", 1), s.ti("ma-triangular", 1)), "buy")]))
def ma_triangular(p):
    return {"ma-triangular": CLOSE.mean(p["period"]).mean(p["period"]).round()}


def cmo_series(q):
    d = CLOSE - CLOSE.prev()
    up = where(d.lt(0), 0.0, d).sum(q)
    dn = where(d.gt(0), 0.0, d).sum(q).abs()
    return (100 * (up - dn) / (up + dn)).round()


@spec("MovingAverage", "close", per(20), "V01", "G02", lambda p: I(22), variant="variable", fixed={"ma_type": "variable"},
      signal=lambda p, s: need(s.m, 1, [(GT(s.x("close", 1), s.ti("ma-variable", 1)), "buy")]))
def ma_variable(p):
    vr = (cmo_series(I(9)) / 100).abs()
    sm = div(R(2), toreal(add(p["period"], I(1))))
    r = recur(21, CLOSE(I(21)), lambda i, e: n_add(n_mul(n_mul(fin(sm), CLOSE(i)), vr(i)),
                                                 n_mul(n_sub(fin(R(1)), n_mul(fin(sm), vr(i))), e)))
    return {"ma-variable": r.round()}


@spec("DoubleExponentialMovingAverage", "close", per(5), "V01", "G02", PERIOD,
      signal=lambda p, s: need(s.m, 1, [(LT(s.x("close", 1), s.ti("dema", 1)), "buy")]))
def dema(p):
    e = CLOSE.ema(p["period"])
    return {"dema": (2 * e - e.ema(p["period"])).round()}


@spec("TripleExponentialMovingAverage", "close", per(5), "V01", "G02", PERIOD,
      signal=lambda p, s: need(s.m, 1, [(LT(s.x("close", 1), s.ti("tema", 1)), "buy"), (GT(s.x("close", 1), s.ti("tema", 1)), "sell")]))
def tema(p):
    q = p["period"]
    e = CLOSE.ema(q)
    ee = e.ema(q)
    return {"tema": (3 * e - 3 * ee + ee.ema(q)).round()}


@spec("WildersSmoothing", "close", per(5), "V01", "G02", PERIOD, signal=close_cross("ws", "sell", "buy"))
def wilders(p):
    q = p["period"]
    r = recur(sub(q, I(1)), mean_of(CLOSE, 0, q), lambda i, e: n_add(e, n_div(n_sub(CLOSE(i), e), fin(rr(q)))))
    return {"ws": r.round()}


def macd_rule(p, s):
    t = s.ti
    return need(s.m, 2, [
        (up_through(s, "macd", 0), "buy"), (down_through(s, "macd", 0), "sell"),
        (and_(GT(t("macd", 2), t("signal_line", 2)), LT(t("macd", 1), t("signal_line", 1))), "sell"),
        (and_(LT(t("macd", 2), t("signal_line", 2)), GT(t("macd", 1), t("signal_line", 1))), "buy")])


@spec("MovingAverageConvergenceDivergence", "close", [], "V01", "G02", lambda p: I(26), signal=macd_rule)
def macd(p):
    m = CLOSE.ema(12).round() - CLOSE.ema(26).round()
    return {"macd": m.round(), "signal_line": m.ema(9).round()}


@spec("PriceOscillator", "close", [Par("long_ma", 1, 30), Par("short_ma", 1, 10)], "V01", "G02", lambda p: p["long_ma"],
      pre=lambda p: [lt(p["short_ma"], p["long_ma"])], signal=cross0("posc", "buy", "sell"))
def posc(p):
    l, s = CLOSE.mean(p["long_ma"]), CLOSE.mean(p["short_ma"])
    return {"posc": (100 * (s - l) / l).round()}


@spec("DetrendedPriceOscillator", "close", per(6), "V01", "G02", PERIOD,
      length=lambda p: max0(sub(sub(N, I(1)), idiv(p["period"], 2))), signal=cross0("dpo", "buy", "sell"))
def dpo(p):
    q = p["period"]
    return {"dpo": (CLOSE - CLOSE.mean(q).later(add(I(1), idiv(q, 2)))).round()}


@spec("Envelopes", "close", per(20) + [RPar("shift", 0, 1, 0.1)], "V01", "G02", PERIOD, signal=band("upper_band", "lower_band"))
def envelopes(p):
    m = CLOSE.mean(p["period"])
    return {"upper_band": (add(R(1), p["shift"]) * m).round(),
            "lower_band": (sub(R(1), p["shift"]) * m).round()}


@spec("BollingerBands", "close", per(20) + [RPar("std_number", 0, None, 2, ints=True)], "V01", "G02", PERIOD,
      signal=band("upper_band", "lower_band"))
def bollinger(p):
    m = CLOSE.mean(p["period"]).round()
    d = CLOSE.std(p["period"]) * p["std_number"]
    return {"middle_band": m, "upper_band": (m + d).round(), "lower_band": (m - d).round()}


def sd_rule(p, s):
    avg = s.inp("close").mean(p["period"]).round()(sub(s.m, I(1)))
    big = GT(s.ti("sd", 1), 2)
    return need(s.m, 1, [(and_(GT(s.x("close", 1), avg), big), "sell"), (and_(LT(s.x("close", 1), avg), big), "buy")])


@spec("StandardDeviation", "close", per(20), "V01", "G02", PERIOD, signal=sd_rule)
def sd(p):
    return {"sd": CLOSE.std(p["period"]).round()}


@spec("PriceChannel", "close high low", per(5), "V01", "G02", PERIOD, signal=band("highest_high", "lowest_low"))
def pch(p):
    q = p["period"]
    return {"highest_high": HIGH.max(q).prev().round(), "lowest_low": LOW.min(q).prev().round()}


# ================================================================== oscillators
def mom_rule(p, s):
    e = s.ser("mom").ema(9)
    a, b = sub(s.m, I(2)), sub(s.m, I(1))
    return need(s.m, 9, [(and_(LT(s.ti("mom", 2), e(a)), GT(s.ti("mom", 1), e(b))), "sell"),
                         (and_(GT(s.ti("mom", 2), e(a)), LT(s.ti("mom", 1), e(b))), "buy")])


@spec("Momentum", "close", per(12), "V02", "G03", PERIOD, signal=mom_rule)
def momentum(p):
    return {"mom": (100 * CLOSE / CLOSE.prev(p["period"])).round()}


@spec("PriceRateOfChange", "close", per(25), "V02", "G03", PERIOD, signal=trend3("prc", "sell", "buy"))
def prc(p):
    o = CLOSE.prev(p["period"])
    return {"prc": (100 * (CLOSE - o) / o).round()}


@spec("VolumeRateOfChange", "volume", per(5), "V02", "G03", PERIOD, signal=trend3("vrc", "sell", "buy"))
def vrc(p):
    o = VOL.prev(p["period"])
    return {"vrc": (100 * ((VOL - o) / o)).round()}


@spec("RelativeStrengthIndex", "close", per(14), "V02", "G03", lambda p: add(p["period"], I(1)), signal=levels("rsi", 70, 30))
def rsi(p):
    q = p["period"]

    def smoothed(sign):
        d = (CLOSE - CLOSE.prev()) * sign
        mv1 = Ser(lambda i: n_ite(le(I(1), i), where(d.gt(0), d, 0.0).round()(i), NAN))
        return recur(q, mean_of(mv1, 0, add(q, I(1))), lambda i, e: n_round(4, n_add(e, n_div(n_sub(mv1(i), e), fin(rr(q))))))
    u, d = smoothed(1), smoothed(-1)
    return {"rsi": (100.0 - 100.0 / (u / d + 1.0)).round()}


@spec("RelativeMomentumIndex", "close", [Par("period", 1, 8), Par("momentum_period", 1, 4)], "V02", "G03",
      lambda p: add(p["period"], p["momentum_period"]), signal=levels("rmi", 70, 30))
def rmi(p):
    q, mp = p["period"], p["momentum_period"]
    ch = CLOSE - CLOSE.prev(mp)

    def smoothed(sign):
        d = ch * sign
        mv = Ser(lambda i: n_ite(d(i).nan, NAN, n_ite(n_gt(d(i), fin(R(0))), d(i), fin(R(0)))))
        base = sub(add(q, mp), I(1))
        return recur(base, mean_of(mv, mp, add(q, mp)), lambda i, e: n_add(e, n_div(n_sub(mv(i), e), fin(rr(q)))))
    u, d = smoothed(1), smoothed(-1)
    return {"rmi": (100 * u / (u + d)).round()}


@spec("ChandeMomentumOscillator", "close", per(5), "V02", "G03", PERIOD, signal=levels("cmo", 50, -50))
def cmo(p):
    return {"cmo": cmo_series(p["period"])}


@spec("IntradayMomentumIndex", "close open", per(14), "V02", "G03", PERIOD, signal=levels("imi", 70, 30))
def imi(p):
    g = CLOSE - OPEN
    u = where(g.lt(0), 0.0, g).sum(p["period"])
    d = where((-g).lt(0), 0.0, -g).sum(p["period"])
    return {"imi": (100 * u / (u + d)).round()}


@spec("CommodityChannelIndex", "close high low", per(5), "V02", "G03", PERIOD,
      signal=lambda p, s: need(s.m, 1, [(LT(s.ti("cci", 1), -100), "buy"), (GT(s.ti("cci", 1), 100), "sell")]))
def cci(p):
    q = p["period"]
    tp = (CLOSE + HIGH + LOW) / 3.0
    sma = tp.mean(q)

    def dev(i):
        v = fresh("j")
        d = n_abs(n_sub(sma(i), tp(v)))
        return Num(lt(i, sub(q, I(1))), Z, fold("sum", (), v, (d.val,), sub(add(i, I(1)), q), add(i, I(1))))
    return {"cci": ((tp - sma) / (0.015 * Ser(dev) / rr(q))).round()}


def so_rule(p, s):
    k, d = (lambda b: s.ti("%K", b)), (lambda b: s.ti("%D", b))
    dk = n_sub(k(2), k(1))
    kd = n_sub(k(1), d(1))
    return need(s.m, 2, [
        (or_(down_through(s, "%K", 80), down_through(s, "%D", 80)), "sell"),
        (or_(up_through(s, "%K", 20), up_through(s, "%D", 20)), "buy"),
        (and_(GT(dk, 0), LT(kd, 0), GT(k(1), 80)), "sell"),
        (and_(LT(dk, 0), GT(kd, 0), LT(k(1), 20)), "buy")])


def so(how):
    def f(p):
        ll, hh = LOW.min(p["k_periods"]), HIGH.max(p["k_periods"])
        w = p["k_slowing_periods"]
        k = (100 * (CLOSE - ll).sum(w) / (hh - ll).sum(w)).round()
        d = k.mean(p["d_periods"]) if how == "simple" else k.weighted_mean(p["d_periods"], "exponential")
        return {"%K": k, "%D": d.round()}
    return f


for _m in ("simple", "exponential"):
    spec("StochasticOscillator", "close high low",
         [Par("k_periods", 1, 14), Par("k_slowing_periods", 1, 1, allowed=(1, 3)), Par("d_periods", 1, 3)], "V02", "G03",
         lambda p: p["k_periods"], variant=_m, fixed={"d_method": _m}, signal=so_rule)(so(_m))


@spec("StochasticMomentumIndex", "close high low",
      [Par("period", 1, 5), Par("smoothing_period", 1, 3), Par("double_smoothing_period", 1, 3)], "V02", "G03", PERIOD,
      signal=levels("smi", 40, -40))
def smi(p):
    q, s1, s2 = p["period"], p["smoothing_period"], p["double_smoothing_period"]
    hh, ll = HIGH.max(q), LOW.min(q)
    dist = CLOSE - (hh + ll) / 2
    a = dist.ema(s1).ema(s2)
    b = (hh - ll).ema(s1).ema(s2)
    return {"smi": (100 * (a / (0.5 * b))).round()}


def wr_rule(p, s):
    last = sub(s.m, I(1))
    v = fresh("j")
    w = s.ser("wr")

    def last_row(cond):
        """last row before the final one satisfying cond, -1 if none"""
        c = cond(w(v))
        return ite(fold("any", (), v, (c,), I(0), last), fold("last", (), v, (c,), I(0), last), I(-1))
    over_sold = last_row(lambda c: LE(c, -80))
    over_bought = last_row(lambda c: GE(c, -20))
    return need(s.m, 2, [(and_(gt(over_sold, over_bought), up_through(s, "wr", -50)), "buy"),
                         (and_(lt(over_sold, over_bought), down_through(s, "wr", -50)), "sell")])


@spec("WilliamsR", "close high low", per(5), "V02", "G03", PERIOD, signal=wr_rule)
def wr(p):
    hh, ll = HIGH.max(p["period"]), LOW.min(p["period"])
    return {"wr": (-100 * ((hh - CLOSE) / (hh - ll))).round()}


def uo_rule(p, s):
    from . import sigops
    lo, hi = sub(s.m, I(30)), s.m
    u = s.ser("uosc")
    cm, um = sigops.argmin(s.inp("close"), lo, hi), sigops.argmin(u, lo, hi)
    v = fresh("j")
    below = fold("any", (), v, (LT(u(v), 30),), lo, hi)
    top = sigops.maximum(u, lo, sub(hi, I(1)))
    return need(s.m, 30, [(and_(not_(eq(cm, um)), below, LT(top, s.ti("uosc", 1))), "buy")])


@spec("UltimateOscillator", "high low close", [], "V02", "G03", lambda p: I(28), signal=uo_rule)
def uosc(p):
    pc = CLOSE.prev()
    # with no previous close the true high and low are missing
    th = Ser(lambda i: n_ite(pc(i).nan, NAN, P_max(HIGH(i), pc(i))))
    tl = Ser(lambda i: n_ite(pc(i).nan, NAN, n_neg(P_max(n_neg(LOW(i)), n_neg(pc(i))))))
    rng, bu = th - tl, CLOSE - tl
    a = lambda k: bu.sum(k) / rng.sum(k)
    return {"uosc": (100 * (4 * a(7) + 2 * a(14) + a(28)) / 7).round()}


@spec("Qstick", "open close", per(8), "V02", "G03", PERIOD,
      signal=lambda p, s: need(s.m, 4, [
          (and_(LT(s.ti("qstick", 4), s.ti("qstick", 3)), LT(s.ti("qstick", 3), 0), LT(0, s.ti("qstick", 2)), LT(s.ti("qstick", 2), s.ti("qstick", 1))), "buy"),
          (and_(GT(s.ti("qstick", 4), s.ti("qstick", 3)), GT(s.ti("qstick", 3), 0), GT(0, s.ti("qstick", 2)), GT(s.ti("qstick", 2), s.ti("qstick", 1))), "sell")]))
def qstick(p):
    return {"qstick": ((CLOSE - OPEN).sum(p["period"]) / rr(p["period"])).round()}


def vhf_rule(p, s):
    """trending up: the rule of the 5-row double exponential average on the
    close; down: the rule of the 12-row momentum; both on the history so far"""
    c = s.inp("close")
    e = c.ema(5)
    d = (2 * e - e.ema(5)).round()
    mom = (100 * c / c.prev(12)).round()
    me = mom.ema(9)
    l, b = sub(s.m, I(1)), sub(s.m, I(2))
    up, dn = rising3(s, "vhf"), falling3(s, "vhf")
    return need(s.m, 3, [
        (and_(up, le(I(5), s.m), n_lt(c(l), d(l))), "buy"),
        (and_(dn, le(I(12), s.m), n_lt(mom(b), me(b)), n_gt(mom(l), me(l))), "sell"),
        (and_(dn, le(I(12), s.m), n_gt(mom(b), me(b)), n_lt(mom(l), me(l))), "buy")])


@spec("VerticalHorizontalFilter", "close", per(5), "V02", "G03", PERIOD, signal=vhf_rule)
def vhf(p):
    q = p["period"]
    return {"vhf": ((CLOSE.max(q) - CLOSE.min(q)).abs() / (CLOSE - CLOSE.prev()).abs().sum(q)).round()}


@spec("RelativeVolatilityIndex", "high low", per(5), "V02", "G03", lambda p: add(p["period"], I(10)),
      signal=lambda p, s: need(s.m, 2, [(down_through(s, "rvi", 40), "buy"), (up_through(s, "rvi", 60), "sell")]))
def rvi(p):
    q = p["period"]

    def smooth(x, sign):
        ch = (x - x.prev()) * sign
        sdv = x.std(10)
        u = where(ch.gt(0), sdv, 0.0)
        return recur(add(q, I(8)), mean_of(u, 9, add(q, I(9))), lambda i, e: n_add(e, n_div(n_sub(u(i), e), fin(rr(q)))))

    def half(x):
        u, d = smooth(x, 1), smooth(x, -1)
        return 100 * u / (u + d)
    return {"rvi": ((half(HIGH) + half(LOW)) / 2).round()}


def ri_rule(p, s):
    from . import sigops
    t, c = s.ser("ri"), s.inp("close")
    v = fresh("j")
    any_, lastc = sigops.last_where(c, lambda i: LT(t(i), 20), I(0), s.m)
    up20, up70 = up_through(s, "ri", 20), up_through(s, "ri", 70)
    c1 = s.x("close", 1)
    return need(s.m, 2, [
        (and_(up20, LT(s.x("close", 2), c1)), "buy"), (up20, "sell"),
        (and_(up70, any_, LT(lastc, c1)), "sell"), (and_(up70, any_), "buy")])


@spec("RangeIndicator", "high low close volume", [Par("range_period", 1, 5), Par("smoothing_period", 1, 3)], "V02", "G03",
      lambda p: max_(p["range_period"], p["smoothing_period"]), signal=ri_rule)
def ri(p):
    pc = CLOSE.prev()
    tr0 = largest(HIGH - LOW, HIGH - pc, pc - LOW)
    tr = Ser(lambda i: n_ite(lt(i, I(1)), NAN, tr0(i)))
    d = CLOSE - pc
    st = Ser(lambda i: n_ite(lt(i, I(1)), NAN, n_ite(n_gt(d(i), fin(R(0))), n_div(tr(i), d(i)), tr(i))))
    lo, hi = st.min(p["range_period"]), st.max(p["range_period"])
    w = hi - lo
    sr = Ser(lambda i: n_ite(w(i).nan, NAN, n_ite(n_gt(w(i), fin(R(0))), (100 * (st - lo) / w)(i), (100 * (st - lo))(i))))
    return {"ri": sr.ema(p["smoothing_period"]).round()}


def perf_sig(mode):
    def f(p, s):
        t, v = fin(p["target"]), s.ti("prf", 1)
        return need(s.m, 1, [(GE(v, t), "sell") if mode == "LONG" else (LE(v, t), "buy")])
    return f


def perf(p, mode):
    c0 = CLOSE(I(0))
    return {"prf": Ser(lambda i: n_div(n_sub(CLOSE(i), c0), c0)).round(), "target_" + mode: Ser(lambda i: fin(rnd(4, p["target"])))}


spec("Performance", "close", [RPar("target", 0, None, 0.05, closed=True, ints=True)], "V02", "G03", None, variant="LONG",
     fixed={"mode": "LONG"}, signal=perf_sig("LONG"))(lambda p: perf(p, "LONG"))
spec("Performance", "close", [RPar("target", None, 0, None, closed=True, ints=True)], "V02", "G03", None, variant="SHORT",
     fixed={"mode": "SHORT"}, signal=perf_sig("SHORT"))(lambda p: perf(p, "SHORT"))


# ============================================================= volume, money flow
def flow():
    return VOL * (CLOSE - LOW - (HIGH - CLOSE)) / (HIGH - LOW)


def n_trunc(c):
    return Num(c.nan, c.inf, trunc(c.val))


def adl_series():
    t = flow().cumsum()
    return Ser(lambda i: n_trunc(t(i)))


def adl_rule(p, s):
    d = n_sub(s.x("close", 1), s.x("close", 2))
    a = s.ti("adl", 1)
    mv = or_(LT(d, 0), GT(d, 0))
    return need(s.m, 2, [(and_(mv, GT(a, 0)), "buy"), (and_(mv, LT(a, 0)), "sell")])


@spec("AccumulationDistributionLine", "high low close volume", [], "V03", "G04", None, signal=adl_rule, skip="strict")
def adl(p):
    return {"adl": adl_series()}


def cmf_rule(p, s):
    from . import sigops
    t, c = s.ti, s.x
    big = n_lt(P_max(c("close", 3), c("close", 2)), c("close", 1))
    small = n_gt(n_neg(P_max(n_neg(c("close", 3)), n_neg(c("close", 2)))), c("close", 1))
    return need(s.m, 3, [(and_(GT(t("cmf", 2), t("cmf", 1)), big), "sell"), (and_(LT(t("cmf", 2), t("cmf", 1)), small), "buy")])


@spec("ChaikinMoneyFlow", "high low close volume", per(5), "V03", "G04", PERIOD, signal=cmf_rule)
def cmf(p):
    return {"cmf": (flow().sum(p["period"]) / VOL.sum(p["period"])).round()}


def co_rule(p, s):
    avg = s.inp("close").mean(90)(sub(s.m, I(1)))
    a, b, c = s.ti("co", 2), s.ti("co", 1), s.x("close", 1)
    return need(s.m, 90, [(and_(GT(c, avg), LT(a, b), LT(b, 0)), "buy"), (and_(LT(c, avg), GT(a, b), GT(b, 0)), "sell")])


@spec("ChaikinOscillator", "high low close volume", [], "V03", "G04", lambda p: I(10), signal=co_rule, skip="strict")
def co(p):
    a = adl_series()
    return {"co": (a.ema(3) - a.ema(10)).round()}


@spec("EaseOfMovement", "high low volume", per(40), "V03", "G04", lambda p: max_(p["period"], I(2)),
      signal=lambda p, s: need(s.m, 2, [(up_through(s, "emv_ma", 0), "buy"), (down_through(s, "emv_ma", 0), "sell")]))
def emv(p):
    mid = 0.5 * (HIGH + LOW - (HIGH.prev() + LOW.prev()))
    box = VOL / ((HIGH - LOW) * 10000)
    e = mid / box
    return {"emv": e.round(), "emv_ma": e.mean(p["period"]).round()}


@spec("KlingerOscillator", "high low close volume", [], "V03", "G04", lambda p: I(55), signal=cross0("ko", "sell", "buy"))
def ko(p):
    hlc = HIGH + LOW + CLOSE
    d = hlc - hlc.prev()
    t = Ser(lambda i: n_ite(d(i).nan, NAN, n_ite(n_gt(d(i), fin(R(0))), fin(R(1)), fin(R(-1)))))
    dm = HIGH - LOW
    same = lambda i: n_eq(t(i), t(sub(i, I(1))))
    cm = recur(0, fin(R(0)), lambda i, e: n_ite(same(i), n_add(e, dm(i)), n_add(dm(sub(i, I(1))), dm(i))))
    vf = VOL * (2 * (dm / cm) - 1).abs() * t * 100
    return {"ko": (vf.ema(34) - vf.ema(55)).round()}


@spec("MarketFacilitationIndex", "high low volume", [], "V03", "G04", None,
      signal=lambda p, s: need(s.m, 2, [(GT(s.ti("mfi", 2), s.ti("mfi", 1)), "buy"), (LT(s.ti("mfi", 2), s.ti("mfi", 1)), "sell")]))
def mfi(p):
    return {"mfi": ((HIGH - LOW) / VOL).round(10)}


def nvi_rule(p, s):
    e = s.ser("nvi").ema(255)(sub(s.m, I(1)))
    return need(s.m, 255, [(GT(s.ti("nvi", 1), e), "buy")])


def vol_index(active):
    def step(i, e):
        j = sub(i, I(1))
        moved = n_add(e, n_mul(n_sub(CLOSE(i), CLOSE(j)), n_div(e, CLOSE(j))))
        return n_ite(active(VOL(i), VOL(j)), moved, e)
    return recur(0, fin(R(1000)), step).round()


@spec("NegativeVolumeIndex", "close volume", [], "V03", "G04", lambda p: I(2), signal=nvi_rule)
def nvi(p):
    return {"nvi": vol_index(n_lt)}


def pvi_rule(p, s):
    e = s.ser("pvi").ema(255)
    a, b = e(sub(s.m, I(2))), e(sub(s.m, I(1)))
    return need(s.m, 255, [(and_(LT(s.ti("pvi", 2), a), GT(s.ti("pvi", 1), b)), "buy"),
                           (and_(GT(s.ti("pvi", 2), a), LT(s.ti("pvi", 1), b)), "sell")])


@spec("PositiveVolumeIndex", "close volume", [], "V03", "G04", lambda p: I(2), signal=pvi_rule)
def pvi(p):
    return {"pvi": vol_index(n_gt)}


@spec("OnBalanceVolume", "close volume", [], "V03", "G04", None, signal=trend3("obv", "sell", "buy"))
def obv(p):
    pc = CLOSE.prev()
    inc = Ser(lambda i: n_ite(n_gt(CLOSE(i), pc(i)), VOL(i), n_ite(n_lt(CLOSE(i), pc(i)), n_neg(VOL(i)), fin(R(0)))))
    return {"obv": inc.cumsum()}


@spec("PriceAndVolumeTrend", "close volume", [], "V03", "G04", lambda p: I(2), signal=trend3("pvt", "sell", "buy"))
def pvt(p):
    def step(i, e):
        j = sub(i, I(1))
        return n_add(e, n_mul(n_sub(CLOSE(i), CLOSE(j)), n_div(VOL(i), CLOSE(j))))
    return {"pvt": recur(0, fin(R(0)), step).round()}


@spec("VolumeOscillator", "volume", [Par("long_period", 1, 5), Par("short_period", 1, 2)], "V03", "G04", lambda p: p["long_period"],
      pre=lambda p: [lt(p["short_period"], p["long_period"])],
      signal=lambda p, s: need(s.m, 3, [(and_(GT(s.ti("vosc", 3), 0), rising3(s, "vosc")), "buy"),
                                        (and_(falling3(s, "vosc"), GT(s.ti("vosc", 1), 0)), "sell")]))
def vosc(p):
    return {"vosc": (VOL.mean(p["short_period"]) - VOL.mean(p["long_period"])).round()}


def wad_rule(p, s):
    from . import sigops
    c, w = s.inp("close"), s.ser("wad")
    lo, hi = sub(s.m, I(30)), s.m
    cl, wl = s.x("close", 1), s.ti("wad", 1)
    return need(s.m, 30, [
        (and_(n_eq(sigops.minimum(c, lo, hi), cl), n_ne(sigops.minimum(w, lo, hi), wl)), "buy"),
        (and_(n_eq(sigops.maximum(c, lo, hi), cl), n_ne(sigops.maximum(w, lo, hi), wl)), "sell")])


@spec("WilliamsAccumulationDistribution", "high low close", [], "V03", "G04", None, signal=wad_rule)
def wad(p):
    pc = CLOSE.prev()
    trh = lambda i: P_max(HIGH(i), pc(i))
    trl = lambda i: n_neg(P_max(n_neg(LOW(i)), n_neg(pc(i))))

    def f(i):
        v = n_ite(n_gt(CLOSE(i), pc(i)), n_sub(CLOSE(i), trl(i)), n_ite(n_lt(CLOSE(i), pc(i)), n_sub(CLOSE(i), trh(i)), fin(R(0))))
        return n_ite(pc(i).nan, NAN, v)
    return {"wad": Ser(f).round()}


# ============================================================ trend and volatility
def atr_rule(p, s):
    c, t = s.x("close", 1), s.ti("atr", 1)
    l = sub(s.m, I(1))
    a5, a10 = s.inp("close").mean(5)(l), s.inp("close").mean(10)(l)
    vol = GT(t, n_mul(fin(R(Fraction(1, 100))), c))
    return need(s.m, 10, [
        (and_(vol, GT(c, a5), GT(c, a10)), "buy"), (and_(vol, GT(c, a5)), "sell"), (and_(vol, LT(c, a5)), "buy")])


@spec("AverageTrueRange", "high low close", [], "V04", "G04", lambda p: I(14), signal=atr_rule)
def atr(p):
    pc = CLOSE.prev()
    tr = largest(HIGH - LOW, HIGH - pc, pc - LOW)
    r = recur(13, mean_of(tr, 0, 14), lambda i, e: n_add(e, n_div(n_sub(tr(i), e), fin(R(14)))))
    return {"atr": r.round()}


def dmi_rule(p, s):
    t = s.ti
    strong = GE(t("adxr", 1), 20)
    return need(s.m, 2, [
        (and_(GT(t("+di", 2), t("-di", 2)), LT(t("+di", 1), t("-di", 1)), strong), "sell"),
        (and_(LT(t("+di", 2), t("-di", 2)), GT(t("+di", 1), t("-di", 1)), strong), "buy")])


@spec("DirectionalMovementIndex", "high low close", [], "V04", "G04", lambda p: I(28), signal=dmi_rule)
def dmi(p):
    pc, ph, pl = CLOSE.prev(), HIGH.prev(), LOW.prev()
    late = lambda f, k: Ser(lambda i: n_ite(lt(i, I(k)), NAN, f(i)))
    tr = late(largest(HIGH - LOW, HIGH - pc, pc - LOW), 1)
    up, dn = HIGH - ph, pl - LOW
    pdm = late(where(lambda i: and_(n_gt(up(i), dn(i)), n_gt(up(i), fin(R(0)))), up, 0.0), 1)
    mdm = late(where(lambda i: and_(n_gt(dn(i), up(i)), n_gt(dn(i), fin(R(0)))), dn, 0.0), 1)
    acc = lambda x: recur(13, sum_of(x, 0, 14), lambda i, e: n_add(n_sub(e, n_div(e, fin(R(14)))), x(i)))
    tr14, p14, m14 = acc(tr), acc(pdm), acc(mdm)
    pdi, mdi = late(100 * p14 / tr14, 14), late(100 * m14 / tr14, 14)
    dx = 100.0 * (pdi - mdi).abs() / (pdi + mdi).abs()
    adx = recur(27, n_div(sum_of(dx, 0, 28), fin(R(14))), lambda i, e: n_div(n_add(n_mul(fin(R(13)), e), dx(i)), fin(R(14))))
    adxr = late((adx + adx.prev(13)) / 2.0, 40)
    return {"+di": pdi.round(), "-di": mdi.round(), "dx": dx.round(), "adx": adx.round(), "adxr": adxr.round()}


def mi_rule(p, s):
    """reversal bulge: the index is below 26.5 and, looking back from the row
    before, it was above 27 before (later than) it was below 26.5"""
    t = s.ser("mi")
    last = sub(s.m, I(1))
    v = fresh("j")
    hit = or_(LT(t(v), 26.5), and_(GT(t(v), 27.0)))
    any_ = fold("any", (), v, (hit,), I(0), last)
    at = fold("last", (), v, (hit,), I(0), last)
    bulge = and_(LT(s.ti("mi", 1), 26.5), any_, not_(LT(t(at), 26.5)))
    e = s.inp("9_ema")
    a, b = e(sub(s.m, I(2))), e(last)
    return need(s.m, 2, [(and_(bulge, n_lt(a, b)), "sell"), (and_(bulge, n_gt(a, b)), "buy")])


@spec("MassIndex", "high low close", [], "V04", "G04", lambda p: I(25), signal=mi_rule, hidden=[("9_ema", lambda p: CLOSE.ema(9))])
def mi(p):
    e = (HIGH - LOW).ema(9)
    return {"mi": (e / e.ema(9)).sum(25).round()}


@spec("ParabolicSAR", "high low close", [], "V04", "G04", lambda p: I(2), signal=close_cross("sar", "buy", "sell"))
def sar(p):
    inc, top = R(Fraction(2, 100)), R(Fraction(20, 100))
    h, l = (lambda i: rd("in_high", i)), (lambda i: rd("in_low", i))

    def ext(kind, name, lo, hi):
        v = fresh("j")
        return fold(kind, (), v, (rd("in_" + name, v),), lo, hi)
    up0 = gt(h(I(1)), h(I(0)))
    first = (inc, ite(up0, h(I(0)), l(I(0))), ite(up0, l(I(0)), h(I(0))), up0, I(0))

    def step(i, prev):
        af, ep, sr, long_, st = prev
        i1 = add(i, I(1))
        nep = ite(long_, ext("max", "high", st, i1), ext("min", "low", st, i1))
        better = ite(long_, gt(nep, ep), lt(nep, ep))
        naf = ite(better, min_(top, add(af, inc)), af)
        ns = add(sr, mul(af, sub(ep, sr)))
        b = max_(I(0), sub(i, I(2)))
        ns = ite(long_, min_(ns, ext("min", "low", b, i)), max_(ns, ext("max", "high", b, i)))
        stop = ite(long_, lt(l(i), ns), gt(h(i), ns))
        return (ite(stop, inc, naf),
                ite(stop, ite(long_, l(i), h(i)), nep),
                ite(stop, ite(long_, ext("max", "high", st, i), ext("min", "low", st, i)), ns),
                ite(stop, not_(long_), long_), ite(stop, i, st))
    s = recur_sys(first, step, ("R", "R", "R", "B", "I"))
    return {"sar": Ser(lambda i: fin(s(2)(i))).round()}


@spec("SwingIndex", "open high low close", [], "V04", "G04", None, signal=cross0("swi", "sell", "buy"))
def swi(p):
    pc, po = CLOSE.prev(), OPEN.prev()
    a, b = (HIGH - pc).abs(), (LOW - pc).abs()
    num_ = (CLOSE - pc) + 0.5 * (CLOSE - OPEN) + 0.25 * (pc - po)
    k = largest(a, b)
    r = largest(a, b, HIGH - LOW) + 0.25 * (pc - po).abs()
    x = 50 * (num_ / r) * (k / 3)
    return {"swi": where(x.gt(100), 100.0, where(x.lt(-100), -100.0, x)).round()}


def ic_rule(p, s):
    """buy: tenkan crosses above kijun while close, tenkan and kijun are all
    above the cloud; sell: crosses below while all are below it"""
    t = s.ti
    a, b = t("senkou_a", 1), t("senkou_b", 1)
    vs = [s.x("close", 1), t("tenkan_sen", 1), t("kijun_sen", 1)]
    above = and_(*[and_(n_gt(v, a), n_gt(v, b)) for v in vs])
    below = and_(*[and_(n_lt(v, a), n_lt(v, b)) for v in vs])
    tk, kj = (lambda k: t("tenkan_sen", k)), (lambda k: t("kijun_sen", k))
    return need(s.m, 2, [(and_(n_lt(tk(2), kj(2)), n_gt(tk(1), kj(1)), above), "buy"),
                         (and_(n_gt(tk(2), kj(2)), n_lt(tk(1), kj(1)), below), "sell")])


@spec("IchimokuCloud", "close high low", [], "V04", "G04", None, signal=ic_rule)
def ic(p):
    ln = lambda k: (HIGH.max(k, 1) + LOW.min(k, 1)) / 2
    t, k = ln(9), ln(26)
    return {"tenkan_sen": t.round(), "kijun_sen": k.round(), "senkou_a": ((t + k) / 2).prev(26).round(), "senkou_b": ln(52).prev(26).round()}


@spec("VolatilityChaikins", "high low", [Par("ema_period", 1, 10), Par("change_period", 1, 10)], "V04", "G04",
      lambda p: max_(p["ema_period"], p["change_period"]), signal=trend3("vch", "buy", "sell"))
def vch(p):
    e = (HIGH - LOW).ema(p["ema_period"])
    o = e.prev(p["change_period"])
    return {"vch": (100 * ((e - o) / o)).round()}


def mp_rule(p, s):
    e = s.inp("close_ema")
    a, b = e(sub(s.m, I(2))), e(sub(s.m, I(1)))
    return need(s.m, max_(p["period"], I(2)), [
        (and_(n_lt(a, s.ti("mp", 2)), n_gt(b, s.ti("mp", 1))), "buy"),
        (and_(n_gt(a, s.ti("mp", 2)), n_lt(b, s.ti("mp", 1))), "sell")])


@spec("MedianPrice", "high low close", per(20), "V04", "G04", None, signal=mp_rule, hidden=[("close_ema", lambda p: CLOSE.ema(p["period"]))])
def mp(p):
    return {"mp": (0.5 * (HIGH + LOW)).round()}


def tp_rule(p, s):
    avg = s.inp("close").mean(p["period"])(sub(s.m, I(1)))
    return need(s.m, max_(p["period"], I(1)), [(GT(s.ti("tp", 1), avg), "buy")])


@spec("TypicalPrice", "high low close", per(200), "V04", "G04", None, signal=tp_rule)
def tp(p):
    return {"tp": ((HIGH + LOW + CLOSE) / 3).round()}


@spec("WeightedClose", "high low close", [], "V04", "G04", None, signal=close_cross("wc", "sell", "buy"))
def wc(p):
    return {"wc": ((2 * CLOSE + HIGH + LOW) / 4).round()}


def fr_rule(p, s):
    c = s.x
    ls = ["rl_61.8", "rl_50.0", "rl_38.2", "rl_23.6"]
    dn = [and_(GT(c("close", 2), s.ti(l, 2)), LT(c("close", 1), s.ti(l, 1))) for l in ls]
    up = [and_(LT(c("close", 2), s.ti(l, 2)), GT(c("close", 1), s.ti(l, 1))) for l in ls]
    return need(s.m, 2, [(or_(*dn), "buy"), (or_(*up), "sell")])


@spec("FibonacciRetracement", "close", [], "V04", "G04", None, signal=fr_rule)
def fr(p):
    v = fresh("j")
    mx = fold("max", (), v, (rd("in_close", v),), I(0), N)
    mn = fold("min", (), v, (rd("in_close", v),), I(0), N)
    out = {}
    for c, l in ((0, "rl_0.0"), (Fraction(236, 1000), "rl_23.6"), (Fraction(382, 1000), "rl_38.2"), (Fraction(1, 2), "rl_50.0"),
                 (Fraction(618, 1000), "rl_61.8"), (1, "rl_100.0")):
        out[l] = (lambda c: Ser(lambda i: fin(rnd(4, sub(mx, scale(c, sub(mx, mn)))))))(c)
    return out


# ==================================================================== regression
@spec("LinearRegressionSlope", "close", per(14), "V05", "G02", PERIOD, signal=cross0("lrs", "sell", "buy"))
def lrs(p):
    return {"lrs": line_slope(CLOSE, p["period"]).round()}


@spec("LinearRegressionIndicator", "close", per2(14), "V05", "G02", PERIOD, signal=close_cross("lri", "sell", "buy"))
def lri(p):
    return {"lri": line_end(CLOSE, p["period"]).round()}


def tsf_series(q):
    return (line_slope(CLOSE, q).round() + line_end(CLOSE, q).round()).round()


@spec("TimeSeriesForecast", "close", per2(14), "V05", "G02", PERIOD, signal=close_cross("tsf", "sell", "buy"))
def tsf(p):
    return {"tsf": tsf_series(p["period"])}


@spec("ForecastOscillator", "close", per2(14), "V05", "G02", PERIOD, signal=cross0("fosc", "sell", "buy"))
def fosc(p):
    return {"fosc": (100 * (CLOSE - tsf_series(p["period"]).prev()) / CLOSE).round()}


def projection(q):
    sh, sl = line_slope(HIGH, q), line_slope(LOW, q)

    def ext(kind, x, slope):
        def f(i):
            v = fresh("j")
            b = add(mul(toreal(v), slope(i).val), x(sub(i, v)).val)
            return Num(lt(i, sub(q, I(1))), Z, fold(kind, (), v, (b,), I(0), q))
        return Ser(f)
    return ext("max", HIGH, sh).round(), ext("min", LOW, sl).round()


def pb_rule(p, s):
    u, l, c = s.ti("upper_band", 1), s.ti("lower_band", 1), s.x("close", 1)
    w = n_mul(const(0.15), n_sub(u, l))
    return need(s.m, 1, [(n_lt(n_sub(u, c), w), "sell"), (n_lt(n_sub(c, l), w), "buy")])


@spec("ProjectionBands", "high low close", per2(14), "V05", "G02", PERIOD, signal=pb_rule)
def pbands(p):
    u, l = projection(p["period"])
    return {"upper_band": u, "lower_band": l}


def po_rule(p, s):
    a, b = (lambda k: s.ti("posc", k)), (lambda k: s.ti("trigger_line", k))
    return need(s.m, 4, [
        (up_through(s, "posc", 15), "buy"), (down_through(s, "posc", 85), "sell"),
        (and_(LT(a(4), b(4)), LT(a(3), b(3)), GT(a(2), b(2)), GT(a(1), b(1))), "buy"),
        (and_(GT(a(4), b(4)), GT(a(3), b(3)), LT(a(2), b(2)), LT(a(1), b(1))), "sell")])


@spec("ProjectionOscillator", "high low close", per2(14), "V05", "G02", PERIOD, signal=po_rule)
def posc2(p):
    u, l = projection(p["period"])
    x = 100 * (CLOSE - l) / (u - l)
    return {"posc": x.round(), "trigger_line": x.ema(3).round()}
