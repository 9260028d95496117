"""Operations on the real trading simulation."""
from real_ops import frame, exc, enc, num
from real_more import sig

STATS = ("number_of_trading_days", "number_of_buy_signals", "number_of_ignored_buy_signals", "number_of_sell_signals",
         "number_of_ignored_sell_signals", "last_stock_value", "last_exposure", "last_open_long_positions",
         "last_open_short_positions", "last_portfolio_value", "last_earnings", "final_balance")


def value(x, pd, np):
    """argument described as [kind, text]"""
    k, v = x
    if k == "none":
        return None
    if k == "int":
        return int(v)
    if k == "float":
        return float(v)
    if k == "bool":
        return bool(v)
    if k == "str":
        return str(v)
    if k == "list":
        return list(v)
    if k == "dict":
        return dict(v)
    if k == "tuple":
        return tuple(v)
    if k == "complex":
        return complex(v)
    if k == "object":
        return object()
    if k == "series":
        return pd.Series(v)
    if k == "frame":
        return special_frame(v, pd, np)
    raise ValueError(k)


def special_frame(v, pd, np):
    df = pd.DataFrame({c: np.array([num(x) for x in xs], dtype=float) for c, xs in v["data"].items()})
    days = v.get("days")
    if days is not None:
        df.index = pd.DatetimeIndex([pd.Timestamp("2000-01-01") + pd.Timedelta(days=float(d)) for d in days])
    for c in v.get("text", []):
        df[c] = df[c].astype(str)
    return df


def table(t):
    return {"cols": [str(c) for c in t.columns], "index": [str(x)[:10] for x in t.index],
            "data": {str(c): [None if x is None or x != x else x if isinstance(x, str) else enc(x) for x in t[c].tolist()] for c in t.columns}}


def stats(st):
    return {str(k): enc(v) for k, v in st.items()}


def same(a, b):
    try:
        return a is b or (list(a.columns) == list(b.columns) and a.equals(b))
    except Exception:
        return False


def rounds(req, pd, np, TI):
    """drive the account itself with given signals; req["rounds"] of them"""
    from tti.utils.trading_simulation import TradingSimulation
    df = frame(pd, np, req)
    orig = df.copy(deep=True)
    try:
        s = TradingSimulation(df.index.sort_values(), df, value(req["limit"], pd, np), value(req["factor"], pd, np))
        for i, g in enumerate(req["signals"]):
            s.runSimulationRound(i_index=i, signal=(g, {"hold": 0, "buy": -1, "sell": 1}[g]))
        t, st = s.closeSimulation()
    except Exception as e:
        return exc(e)
    return {"table": table(t), "stats": stats(st), "kept": same(orig, df)}


def simulate(req, pd, np, TI):
    df = frame(pd, np, req)
    orig = df.copy(deep=True)
    try:
        o = getattr(TI, req["cls"])(df, **req["params"])
        ref = getattr(TI, req["cls"])(df.copy(deep=True), **req["params"])
    except Exception as e:
        return {"construct": exc(e)}
    fi, ft = ref._input_data, ref._ti_data
    sg = []
    for i in range(len(ft.index)):
        d = ft.index[i]
        ref._input_data = fi[fi.index <= d]
        ref._ti_data = ft[ft.index <= d]
        sg.append(sig(ref))
    ref._input_data, ref._ti_data = fi, ft
    cl = df[["close"]] if req.get("close") is None else special_frame(req["close"], pd, np)
    cl0 = cl.copy(deep=True)
    data0 = o.getTiData().copy(deep=True)
    in0 = o._input_data.copy(deep=True)
    try:
        t, st, g = o.getTiSimulation(cl, value(req["limit"], pd, np), value(req["factor"], pd, np))
        try:
            g.close()
        except Exception:
            pass
    except Exception as e:
        return exc(e)
    return {"signals": sg, "table": table(t), "stats": stats(st), "ti_kept": same(data0, o.getTiData()),
            "input_kept": same(in0, o._input_data), "user_kept": same(orig, df) and same(cl0, cl)}


def simargs(req, pd, np, TI):
    """does a simulation start with these arguments?"""
    n = req["n"]
    df = pd.DataFrame({"close": np.linspace(10.0, 20.0, n)}, index=pd.DatetimeIndex([pd.Timestamp("2000-01-01") + pd.Timedelta(days=int(d)) for d in (req.get("days") or range(n))]))
    try:
        o = TI.Momentum(df, period=2)
    except Exception as e:
        return {"construct": exc(e)}
    try:
        kw = {}
        for k in ("limit", "factor"):
            if req.get(k) is not None:
                kw[{"limit": "max_exposure", "factor": "short_exposure_factor"}[k]] = value(req[k], pd, np)
        t, st, g = o.getTiSimulation(value(req["close"], pd, np), **kw)
        try:
            g.close()
        except Exception:
            pass
    except Exception as e:
        return exc(e)
    return {"started": True}


OPS = {"rounds": rounds, "simulate": simulate, "simargs": simargs}
