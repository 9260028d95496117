"""Further operations of the worker: histories, simulations, graphs."""
from real_ops import frame, fr, exc, enc, num, dates


def sig(o):
    try:
        s = o.getTiSignal()
    except Exception as e:
        return exc(e)
    if isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], str) and isinstance(s[1], int) and not isinstance(s[1], bool):
        return [s[0], s[1]]
    return {"value": repr(s)}


def signals(req, pd, np, TI):
    """signal for every shorter history a simulation cuts"""
    df = frame(pd, np, req)
    try:
        o = getattr(TI, req["cls"])(df, **req["params"])
    except Exception as e:
        return exc(e)
    res = {"data": fr(o.getTiData()), "signal": sig(o), "prefix": None}
    full_i, full_t = getattr(o, "_input_data", None), getattr(o, "_ti_data", None)
    if isinstance(full_i, pd.DataFrame) and isinstance(full_t, pd.DataFrame):
        out = []
        for m in req["rows"]:
            d = full_i.index[m - 1]
            o._input_data = full_i[full_i.index <= d]
            o._ti_data = full_t[full_t.index <= d]
            out.append(sig(o))
        o._input_data, o._ti_data = full_i, full_t
        res["prefix"] = out
    return res


OPS = {"signals": signals}


def handle(op, req, pd, np, TI):
    if op not in OPS:
        import real_sim
        import real_input
        OPS.update(real_sim.OPS)
        OPS.update(real_input.OPS)
        import real_query
        OPS.update(real_query.OPS)
    return OPS[op](req, pd, np, TI)
