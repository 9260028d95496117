"""Operations the worker performs on the real library."""


def num(x):
    if x is None:
        return float("nan")
    if isinstance(x, str):
        return float(x)
    return x


def enc(x):
    import math
    try:
        if x is None:
            return None
        f = float(x)
    except (TypeError, ValueError):
        return "obj:" + repr(x)
    if math.isnan(f):
        return None
    if math.isinf(f):
        return "inf" if f > 0 else "-inf"
    return f


def dates(pd, n, days=None):
    days = days if days is not None else range(n)
    return pd.DatetimeIndex([pd.Timestamp("2000-01-01") + pd.Timedelta(days=int(d)) for d in days])


def frame(pd, np, req):
    data = req["data"]
    n = len(next(iter(data.values()))) if data else 0
    df = pd.DataFrame({c: np.array([num(x) for x in v], dtype=float) for c, v in data.items()}, index=dates(pd, n, req.get("days")))
    return df


def exc(e):
    return {"raised": type(e).__name__, "module": type(e).__module__, "msg": str(e)[:200],
            "bases": [c.__name__ for c in type(e).__mro__]}


def fr(df):
    return {"cols": [str(c) for c in df.columns], "index": [str(x)[:10] for x in df.index],
            "data": [[enc(x) for x in df[c].tolist()] for c in df.columns] if df.columns.is_unique else None}


def handle(req, pd, np, TI):
    op = req.get("op", "indicator")
    if op == "indicator":
        df = frame(pd, np, req)
        try:
            o = getattr(TI, req["cls"])(df, **{k: v for k, v in req["params"].items()})
        except Exception as e:
            return exc(e)
        res = {}
        for w in req["want"]:
            try:
                if w == "data":
                    res["data"] = fr(o.getTiData())
                elif w == "signal":
                    s = o.getTiSignal()
                    res["signal"] = [s[0], s[1]] if isinstance(s, tuple) and len(s) == 2 else repr(s)
            except Exception as e:
                res[w] = exc(e)
        return res
    import real_more
    return real_more.handle(op, req, pd, np, TI)
