"""Operations around the caller's frame: validation, purity, queries."""
from real_ops import exc, enc, num, fr


def build(case, pd, np):
    n = len(case["days"])
    order = case["order"]
    cols, labels = [], []
    for c in case["columns"]:
        xs = [num(c["values"][i]) for i in order]
        dt = c["dtype"]
        if dt.startswith(("float", "int")):
            a = np.array(xs, dtype=dt)
        elif dt == "object":
            a = np.array(xs, dtype=object)
        elif dt == "str":
            a = np.array([str(x) for x in xs], dtype=object)
        elif dt == "datetime":
            a = pd.DatetimeIndex([pd.Timestamp("2000-01-01")] * len(xs))
        else:
            a = pd.Categorical([str(x) for x in xs])
        cols.append(pd.Series(a))
        labels.append(c["label"])
    df = pd.concat(cols, axis=1) if cols else pd.DataFrame(index=range(len(order)))
    if cols:
        df.columns = pd.Index(labels, dtype=object)
    day = [case["days"][i] for i in order]
    if case["index"] == "date":
        df.index = pd.DatetimeIndex([pd.Timestamp("2000-01-01") + pd.Timedelta(days=int(d)) for d in day])
    elif case["index"] == "text":
        df.index = ["d%03d" % d for d in day]
    elif case["index"] == "period":
        df.index = pd.PeriodIndex([pd.Timestamp("2000-01-01") + pd.Timedelta(days=int(d)) for d in day], freq="D")
    return df


def out(df, pd):
    return {"cols": [str(c) for c in df.columns], "days": [int((x - pd.Timestamp("2000-01-01")).days) for x in df.index],
            "data": [[enc(x) for x in df.iloc[:, k].tolist()] for k in range(df.shape[1])]}


def validate(req, pd, np, TI):
    df = build(req["case"], pd, np)
    kw = {} if req["fill"] == "default" else {"fill_missing_values": req["fill"]}
    try:
        if req.get("cls"):
            o = getattr(TI, req["cls"])(df, **req["params"], **kw)
            return out(o._input_data, pd)
        try:
            from tti.utils.data_validation import validateInputData
        except ImportError:
            return {"absent": True}
        if req["fill"] == "default":
            kw = {"fill_missing_values": True}
        return out(validateInputData(df, list(req["required"]), "Indicator", **kw), pd)
    except Exception as e:
        return exc(e)


def same(a, b):
    if list(a.columns) != list(b.columns) or [type(c) for c in a.columns] != [type(c) for c in b.columns]:
        return False
    if list(a.dtypes) != list(b.dtypes):
        return False
    if type(a.index) is not type(b.index) or not a.index.equals(b.index) or a.index.name != b.index.name:
        return False
    return a.equals(b)


def kept(req, pd, np, TI):
    df = build(req["case"], pd, np)
    df0 = df.copy(deep=True)
    res = []
    try:
        o = getattr(TI, req["cls"])(df, **req["params"], fill_missing_values=req["fill"])
    except Exception as e:
        return {"construct": exc(e), "kept": [["construction", same(df, df0)]]}
    res.append(["construction", same(df, df0)])

    def stage(name, f):
        try:
            f()
        except Exception:
            pass
        res.append([name, same(df, df0)])
    stage("data", lambda: o.getTiData())
    stage("value", lambda: (o.getTiValue(), o.getTiValue("2000-01-02"), o.getTiValue("1999-01-01")))
    stage("signal", lambda: o.getTiSignal())
    if req.get("graph"):
        stage("graph", lambda: o.getTiGraph().close("all"))
    cl = df[[c for c in df.columns if str(c).lower() == "close"]].copy()
    cl0 = cl.copy(deep=True)
    stage("simulation", lambda: o.getTiSimulation(cl)[2].close("all"))
    res.append(["simulation (close values)", same(cl, cl0)])
    return {"kept": res}


def variants(req, pd, np, TI):
    from real_more import sig
    res = []
    for case in req["cases"]:
        try:
            o = getattr(TI, req["cls"])(build(case, pd, np), **req["params"], fill_missing_values=req["fill"])
        except Exception as e:
            res.append({"raised": type(e).__name__})
            continue
        a = {"data": fr(o.getTiData()), "signal": sig(o)}
        v = o.getTiValue()
        a["value"] = None if v is None else [enc(x) for x in v]
        res.append(a)
    return {"results": res}


def params(req, pd, np, TI):
    from real_ops import frame
    from real_sim import value
    kw = {k: value(v, pd, np) for k, v in req["args"].items()}
    if req.get("fill") is not None:
        kw["fill_missing_values"] = value(req["fill"], pd, np)
    try:
        o = getattr(TI, req["cls"])(frame(pd, np, req), **kw)
    except Exception as e:
        return exc(e)
    return {"data": fr(o.getTiData())}


OPS = {"params": params, "variants": variants, "validate": validate, "kept": kept}
