"""Worker operations for value queries, query sequences and graphs."""
from real_ops import frame, fr, exc, enc


def make(req, pd, np, TI):
    return getattr(TI, req["cls"])(frame(pd, np, req), **req["params"])


def value(o, *a):
    try:
        v = o.getTiValue(*a)
    except Exception as e:
        return exc(e)
    if v is None:
        return None
    try:
        return [enc(x) for x in v]
    except Exception:
        return repr(v)


def values(req, pd, np, TI):
    try:
        o = make(req, pd, np, TI)
    except Exception as e:
        return exc(e)
    return {"data": fr(o.getTiData()), "last": value(o), "values": [value(o, d) for d in req["dates"]]}


def lines(g, pd):
    import matplotlib.pyplot as plt
    import matplotlib.dates as md
    try:
        out = []
        for ax in plt.gcf().axes:
            ls = []
            for ln in ax.get_lines():
                x = ln.get_xdata(orig=False)
                ls.append({"label": str(ln.get_label()), "x": [str(md.num2date(v))[:10] for v in x], "y": [enc(v) for v in ln.get_ydata(orig=True)]})
            out.append(ls)
        return out
    finally:
        plt.close("all")


def graph_of(o, pd):
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        g = o.getTiGraph()
    except Exception as e:
        plt.close("all")
        return exc(e)
    return lines(g, pd)


def graph(req, pd, np, TI):
    try:
        o = make(req, pd, np, TI)
    except Exception as e:
        return exc(e)
    i = getattr(o, "_input_data", None)
    inp = fr(i) if isinstance(i, pd.DataFrame) else {"cols": [], "data": None}
    data = fr(o.getTiData())
    return {"data": data, "input": inp, "panels": graph_of(o, pd)}


def answer(o, c, pd):
    from real_more import sig
    if c == "data":
        return fr(o.getTiData())
    if c == "value":
        return value(o)
    if c.startswith("value:"):
        return value(o, c[6:])
    if c == "signal":
        return sig(o)
    return graph_of(o, pd)


def queries(req, pd, np, TI):
    try:
        o = make(req, pd, np, TI)
    except Exception as e:
        return exc(e)
    snap = {}
    for a in ("_input_data", "_ti_data"):
        f = getattr(o, a, None)
        if isinstance(f, pd.DataFrame):
            snap[a] = f.copy(deep=True)
    res, fresh, memo = [], [], {}
    for c in req["calls"]:
        res.append(answer(o, c, pd))
        if c not in memo:
            memo[c] = answer(make(req, pd, np, TI), c, pd)
        fresh.append(memo[c])
    from real_input import same
    bad = [a for a, f in snap.items() if not same(getattr(o, a), f)]
    return {"results": res, "fresh": fresh, "kept": not bad, "what": bad}


OPS = {"values": values, "graph": graph, "queries": queries}
