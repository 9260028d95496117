"""S01-S04: the simulated trading account (tti.utils.trading_simulation).

The state before round i is any state that satisfies the account invariant.
Ghost data describe it: for every earlier day whether a position was opened
(gh_pos), which (gh_long) and whether it is still open (gh_open).  The real
__init__, runSimulationRound and closeSimulation are executed symbolically and
their post-states compared with the contract, which again has the form of the
invariant - so the contract holds for every number of rounds."""
import random
import time
from checks.common import Task, SEED, REPO
from checks.sym import *
from checks.values import prove
from engine.terms import declare_pos
from engine.values import str_code
from engine.pdmodel import same_dates
from engine.prover import int_only

SIM = "tti.utils.trading_simulation"
COLS = ["signal", "open_trading_action", "stock_value", "exposure", "portfolio_value", "earnings", "balance"]
STRS = ("signal", "open_trading_action")
F_ = param("short_factor", "R")
MX = param("max_exposure", "R")
II = param("i", "I")          # the round, i >= 1
RR = param("rest", "I")       # days after it
LE = param("close_rows", "I")  # rows of close values on other dates
L_ = add(add(II, I(1)), RR)   # number of days
ACTIONS = [("hold", 0), ("buy", -1), ("sell", 1)]


def world(first=1):
    fresh_world()
    declare_pos(F_)
    declare_pos(MX)
    declare_lb(II, first)
    declare_lb(RR, 0)


def price(j):
    return rd("in_close", j)


class Ghost:
    """positions opened on days in (0, i)"""

    def __init__(self, i):
        self.i = i

    def pos(self, j):
        return and_(lt(I(0), j), lt(j, self.i), rdn("gh_pos", j))

    def long(self, j):
        return rdn("gh_long", j)

    def open(self, j):
        return rdn("gh_open", j)


class Step:
    """the ghost state after a round: closes what earns, then opens at most one"""

    def __init__(self, g, i, limit, action, exposure):
        self.g, self.i = g, i
        # the exposure once the profitable positions are closed
        self.after = exposure
        self.want = action
        cost = {"hold": R(0), "buy": price(i), "sell": mul(F_, price(i))}[action]
        self.cost = cost
        if action == "hold":
            self.opens = FALSE
        elif limit is None or exposure is None:
            self.opens = TRUE
        else:
            self.opens = le(add(self.after, cost), limit)

    def closes(self, j):
        g = self.g
        gain = ite(g.long(j), lt(price(j), price(self.i)), lt(price(self.i), price(j)))
        return and_(g.pos(j), g.open(j), gain)

    def pos(self, j):
        return or_(self.g.pos(j), and_(eq(j, self.i), self.opens))

    def long(self, j):
        return ite(eq(j, self.i), TRUE if self.want == "buy" else FALSE, self.g.long(j))

    def open(self, j):
        return ite(eq(j, self.i), TRUE, and_(self.g.open(j), not_(self.closes(j))))


def enc(g, j):
    """portfolio row of day j"""
    p, l, o = g.pos(j), g.long(j), g.open(j)
    return (fin(ite(p, ite(l, R(2), R(1)), R(0))), fin(ite(p, ite(o, R(1), R(2)), R(0))),
            fin(ite(p, ite(l, price(j), mul(F_, price(j))), R(0))))


def total(f, lo, hi):
    v = fresh("j")
    return fold("sum", (), v, (f(v),), lo, hi)


def exposure(g, hi):
    return total(lambda j: ite(and_(g.pos(j), g.open(j)), ite(g.long(j), price(j), mul(F_, price(j))), R(0)), I(0), hi)


def held(g, hi, long):
    v = fresh("j")
    return fold("isum", (), v, (ite(and_(g.pos(v), g.open(v), g.long(v) if long else not_(g.long(v))), I(1), I(0)),), I(0), hi)


def make(it, limit, n=None):
    m = it.load(SIM)
    kw = {"input_data_index": SIndex("D", I(0), L_ if n is None else n), "close_values": input_arg(), "short_exposure_factor": SNum(fin(F_), False)}
    kw["max_exposure"] = None if limit is None else SNum(fin(limit), False)
    return it.call(m.ns["TradingSimulation"], [], kw)


def ledger(i, g, n=None):
    """any simulation table after the rounds before i"""
    out = []
    for c in COLS:
        if c in STRS:
            def f(p, c=c):
                return ite(lt(p, i), word(c, p, g), I(-1))
            out.append([c, Buf(Col(f, "str"))])
        else:
            def f(p, c=c):
                return n_ite(lt(p, i), fin(before(c, p, i, g)), NAN)
            out.append([c, Buf(Col(f))])
    return SFrame(SIndex("D", I(0), L_ if n is None else n), out)


def word(c, p, g):
    if c == "signal":
        return ite(rdn("gh_buy", p), scode("buy"), ite(rdn("gh_sell", p), scode("sell"), scode("hold")))
    return ite(g.pos(p), ite(g.long(p), scode("long"), scode("short")), scode("none"))


def before(c, p, i, g):
    if c == "exposure":
        return ite(eq(p, sub(i, I(1))), exposure(g, i), rd("sim_exposure", p))
    return rd("sim_" + c, p)


def layout(o, n):
    pf, sd = o.attrs.get("_portfolio"), o.attrs.get("_simulation_data")
    if not (isinstance(pf, SArr2) and len(pf.bufs) == 3 and pf.length is n):
        raise Unsupported("portfolio layout")
    if not (isinstance(sd, SFrame) and sd.labels() == COLS and sd.index.length is n):
        raise Unsupported("simulation table layout")


def state(o, i, n=None):
    """install an arbitrary state that satisfies the invariant before round i"""
    n = L_ if n is None else n
    g = Ghost(i)
    layout(o, n)
    o.attrs["_portfolio"] = SArr2([Buf(Col(lambda j, k=k: enc(g, j)[k])) for k in range(3)], n)
    o.attrs["_simulation_data"] = ledger(i, g, n)
    return g


PRE = [le(R(1), F_), lt(R(0), MX)]


def rounds(it, limit, act):
    def fn():
        o = make(it, limit)
        g = state(o, II)
        it.call(it.getattr(o, "runSimulationRound"), [], {"i_index": SInt(II), "signal": act})
        return o, g
    return it.explore(fn, list(PRE))


def scode(s):
    return I(str_code(s))


def step_obligations(p, limit, act):
    """(property, name, kind, make goal) of one path of a round"""
    o, g = p.value
    k = param("k", "I")
    j = param("q", "I")
    inr = [le(I(0), k), lt(k, L_)]
    a = act[0]
    cells = {l: b.col for l, b in o.attrs["_simulation_data"].cols}
    pf = [b.col for b in o.attrs["_portfolio"].bufs]
    st0 = Step(g, II, limit, a, None)
    st0.opens = FALSE
    after = exposure(st0, II)
    opened = not_(eq(cells["open_trading_action"].get(II), scode("none")))
    st = Step(g, II, limit, a, after)
    exp_ = cells["exposure"].get(II)
    lemma = add(after, ite(opened, st.cost, R(0)))
    st.opens = opened
    n = II.h and None
    gain = total(lambda q: ite(st.closes(q), ite(g.long(q), sub(price(II), price(q)), sub(price(q), price(II))), R(0)), I(0), II)
    val = mul(price(II), sub(toreal(held(st, add(II, I(1)), True)), toreal(held(st, add(II, I(1)), False))))
    name = {"buy": "long", "sell": "short", "hold": "none"}[a]
    pc = list(p.pc)
    out = []
    # S01
    out.append(("S01", "stock_value", pc, "cell", cells["stock_value"].get(II), fin(price(II))))
    out.append(("S01", "portfolio_value", pc, "cell", cells["portfolio_value"].get(II), fin(val)))
    out.append(("S01", "earnings", pc, "cell", cells["earnings"].get(II), fin(add(rd("sim_earnings", sub(II, I(1))), gain))))
    out.append(("S01", "balance", pc, "cell", cells["balance"].get(II), n_add(cells["earnings"].get(II), cells["portfolio_value"].get(II))))
    # S02
    out.append(("S02", "exposure", pc, "cell", exp_, fin(lemma)))
    out.append(("S02", "exposure_open", pc, "term", lemma, exposure(st, add(II, I(1)))))
    known_ = eq(exp_.val, lemma)
    want = Step(g, II, limit, a, after).opens
    out.append(("S02", "opened_exactly_within_limit", pc + [known_], "valid", iff(opened, want), None))
    if limit is not None:
        c = total(lambda q: ite(st.closes(q), ite(g.long(q), price(q), mul(F_, price(q))), R(0)), I(0), II)
        out.append(("S02", "closing_lowers_exposure", pc, "term", exposure(g, II), add(after, c)))
        cl = ite(and_(st.closes(j)), ite(g.long(j), price(j), mul(F_, price(j))), R(0))
        out.append(("S02", "closed_exposure_not_negative", [t for t in pc if int_only(t)] + [le(I(0), j), lt(j, II)], "valid", le(R(0), cl), None))
        hyp = [known_, le(exposure(g, II), limit), le(after, exposure(g, II)), iff(opened, want)]
        out.append(("S02", "within_limit", pc + hyp, "valid", le(exp_.val, limit), None))
    # S03
    out.append(("S03", "signal", pc, "term", cells["signal"].get(II), scode(a)))
    out.append(("S03", "action", pc, "term", cells["open_trading_action"].get(II), ite(opened, scode(name), scode("none"))))
    if a == "hold":
        out.append(("S03", "hold_opens_nothing", pc, "valid", not_(opened), None))
    for c, what in enumerate(("position", "status", "cost")):
        out.append(("S03", "portfolio_" + what, pc + inr, "cell", pf[c].get(k), enc(st, k)[c]))
    # the rest of the table keeps its values
    other = inr + [not_(eq(k, II))]
    old = {l: b.col for l, b in ledger(II, g).cols}
    for l in COLS:
        pr = "S02" if l == "exposure" else "S03" if l in STRS else "S01"
        out.append((pr, "keeps_" + l, pc + other, "term" if l in STRS else "cell", cells[l].get(k), old[l].get(k)))
    return out


def run_ob(kind, pc, a, b, sec):
    """first from the integer facts alone, then from the whole path condition"""
    def go(pc, sec):
        if kind == "cell":
            return prove(pc, lambda pv: [] if n_same(a, b) is TRUE else pv.cell(pc, a, b), sec)
        if kind == "term":
            return prove(pc, lambda pv: [] if a is b else pv.term(pc, a, b), sec)
        return prove(pc, lambda pv: [] if a is TRUE else pv.valid(pc, a), sec)
    few = [t for t in pc if int_only(t)]
    if kind != "valid" and len(few) < len(pc):
        r = go(few, sec)
        if r[0] == "proved":
            return r
    return go(pc, sec)


# ------------------------------------------------------------------ first day
def first_round(it, limit, act):
    n = add(I(1), RR)

    def fn():
        o = make(it, limit, n)
        layout(o, n)
        it.call(it.getattr(o, "runSimulationRound"), [], {"i_index": 0, "signal": act})
        return o
    return it.explore(fn, list(PRE))


def first_obligations(p, act):
    o = p.value
    n = add(I(1), RR)
    k = param("k", "I")
    pc = list(p.pc)
    inr = [le(I(0), k), lt(k, n)]
    cells = {l: b.col for l, b in o.attrs["_simulation_data"].cols}
    out = []
    want = {"stock_value": price(I(0)), "exposure": R(0), "portfolio_value": R(0), "earnings": R(0), "balance": R(0)}
    for c, v in want.items():
        pr = "S02" if c == "exposure" else "S01"
        out.append((pr, "starts_" + c, pc, "cell", cells[c].get(I(0)), fin(v)))
        out.append((pr, "later_" + c, pc + inr + [lt(I(0), k)], "cell", cells[c].get(k), NAN))
    out.append(("S03", "starts_signal", pc, "term", cells["signal"].get(I(0)), scode(act[0])))
    out.append(("S03", "starts_action", pc, "term", cells["open_trading_action"].get(I(0)), scode("none")))
    for c in STRS:
        out.append(("S03", "later_" + c, pc + inr + [lt(I(0), k)], "term", cells[c].get(k), I(-1)))
    g = Ghost(I(1))
    for c, b in enumerate(o.attrs["_portfolio"].bufs):
        out.append(("S03", "starts_portfolio_%d" % c, pc + inr, "cell", b.col.get(k), enc(g, k)[c]))
    return out


# ------------------------------------------------------------------- statistics
def closing(it, n):
    """closeSimulation after i rounds (i >= 0) of a simulation over n days"""
    def fn():
        o = make(it, None, n)
        g = state(o, II, n)
        before_ = {l: b.col for l, b in o.attrs["_simulation_data"].cols}
        r = it.call(it.getattr(o, "closeSimulation"), [], {})
        return o, g, before_, r
    return it.explore(fn, list(PRE) + [le(II, n), lt(I(0), n)])


def count(f, hi):
    v = fresh("j")
    return fold("isum", (), v, (ite(f(v), I(1), I(0)),), I(0), hi)


def as_cell(v):
    if isinstance(v, bool) or not isinstance(v, (int, float, SNum, SInt)):
        raise Unsupported("statistic %r" % (v,))
    return v.n if isinstance(v, SNum) else fin(toreal(v.t)) if isinstance(v, SInt) else const(v)


def close_obligations(p, n):
    o, g, old, r = p.value
    pc = list(p.pc)
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], SFrame) and isinstance(r[1], dict)):
        raise Unsupported("result of closeSimulation")
    table, st = r
    k = param("k", "I")
    inr = [le(I(0), k), lt(k, n)]

    def has(c, s):
        return lambda j: eq(word(c, j, g), scode(s))

    def both(a, b):
        return lambda j: and_(a(j), b(j))
    none = has("open_trading_action", "none")
    want = {"number_of_trading_days": fin(toreal(II))}
    for s in ("buy", "sell"):
        want["number_of_%s_signals" % s] = fin(toreal(count(has("signal", s), II)))
        want["number_of_ignored_%s_signals" % s] = fin(toreal(count(both(has("signal", s), none), II)))
    for s in (True, False):
        want["last_open_%s_positions" % ("long" if s else "short")] = fin(toreal(held(g, II, s)))
    last = sub(II, I(1))
    for name, c in (("last_stock_value", "stock_value"), ("last_exposure", "exposure"), ("last_portfolio_value", "portfolio_value"),
                    ("last_earnings", "earnings"), ("final_balance", "balance")):
        v = before(c, last, II, g)
        want[name] = fin(ite(lt(I(0), II), rnd(2, v), R(0)))
    out = []
    if set(st) != set(want):
        out.append(("S04", "keys", "failed", "keys %s, documented %s" % (sorted(st), sorted(want))))
    for name, v in want.items():
        if name in st:
            out.append(("S04", name, pc, "cell", as_cell(st[name]), v))
    for l in COLS:
        c = dict((a, b.col) for a, b in table.cols).get(l)
        if c is None:
            out.append(("S04", "table", "failed", "column %s is missing from the returned table" % l))
            continue
        out.append(("S04", "table_" + l, pc + inr, "term" if l in STRS else "cell", c.get(k), old[l].get(k)))
    out.append(("S04", "table_rows", pc, "valid", eq(table.index.length, n), None))
    return out


# ------------------------------------------------------------- the daily replay
def replay_paths(it, sp):
    """getTiSimulation of an arbitrary indicator object, its day loop replaced
    by one arbitrary day"""
    env = sp.penv()
    mod = discover(it)[sp.cls]
    m = it.load(mod)
    cls = m.ns[sp.cls]
    sig_fn, owner = cls.lookup("getTiSignal")
    sim_fn, sim_owner = cls.lookup("getTiSimulation")
    L = sp.length(env) if sp.length else N
    day = param("day", "I")
    log = []

    def on_signal(it_, args, kw):
        o = args[0]
        tok = Token(("signal", len(log)))
        log.append(("signal", o.attrs.get("_input_data"), o.attrs.get("_ti_data"), tok))
        return tok

    def on_round(it_, args, kw):
        a = dict(zip(("self", "i_index", "signal"), args))
        a.update(kw)
        log.append(("round", a.get("i_index"), a.get("signal"), a["self"]))
        return None

    def on_close(it_, args, kw):
        log.append(("close", args[0]))
        return (Token("table"), Token("statistics"))

    def on_make(it_, args, kw):
        a = dict(zip(("input_data_index", "close_values", "max_exposure", "short_exposure_factor"), args))
        a.update(kw)
        log.append(("make", a))
        o = Instance(it_.load(SIM).ns["TradingSimulation"])
        o.attrs["$made"] = a
        return o

    def on_graph(it_, args, kw):
        log.append(("graph", args[1] if len(args) > 1 else kw.get("simulation_data")))
        return Token("graph")
    it.contracts[owner.module.name + "." + owner.name + ".getTiSignal"] = on_signal
    it.contracts[SIM + ".TradingSimulation"] = on_make
    it.contracts[SIM + ".TradingSimulation.runSimulationRound"] = on_round
    it.contracts[SIM + ".TradingSimulation.closeSimulation"] = on_close
    g, gown = cls.lookup("_getSimulationGraph")
    if g is not None:
        it.contracts[gown.module.name + "." + gown.name + "._getSimulationGraph"] = on_graph
    out = {}

    def shot(env_, o):
        """where every attribute and local name lives, and its value"""
        s = {("attr", k): (o.attrs, k) for k in o.attrs}
        e = env_
        while e is not None and not e.is_module:
            for k in e.vars:
                s.setdefault((id(e), k), (e.vars, k))
            e = e.parent
        val = {k: d[n] for k, (d, n) in s.items()}
        return s, val, {k: (len(v), [id(x) for x in v]) for k, v in val.items() if isinstance(v, (list, dict, set))}

    def hook(it_, st, lo, hi, at, env_, mod_):
        import ast as A
        o = out["object"]
        if out.get("loop"):
            raise Unsupported("a second loop over the days")
        if any(isinstance(x, (A.Break, A.Return)) for b in st.body for x in A.walk(b)) or st.orelse:
            raise Unsupported("the day loop may stop early")
        out["loop"] = (lo, hi)
        start = len(log)
        havoc = set()
        for attempt in range(4):
            where, base, shape = shot(env_, o)
            for k in havoc:
                d, n = where[k]
                d[n] = Poison("value from another day")
            del log[start:]
            it_.assign(st.target, at(day), env_, mod_)
            try:
                it_.block(st.body, env_, mod_)
            except ContinueEx:
                pass
            where2, after, shape2 = shot(env_, o)
            if any(k in shape2 and shape2[k] != v for k, v in shape.items()):
                raise Unsupported("the day loop changes a container")
            # names that exist only inside the loop cannot carry a value into a day
            ch = {k for k, v in after.items() if k in base and base[k] is not v}
            for k in set(after) - set(base):
                d, n = where2[k]
                del d[n]
            for k in ch | havoc:
                d, n = where[k]
                d[n] = base[k]
            if ch <= havoc:
                break
            havoc |= ch
        else:
            raise Unsupported("the day loop's frame")
        out["day"] = log[start:]
        # the state the loop leaves behind: that of the last day
        it_.assign(st.target, at(sub(hi, I(1))), env_, mod_)
        keep = len(log)
        try:
            it_.block(st.body, env_, mod_)
        except ContinueEx:
            pass
        del log[keep:]
        return True

    def fn():
        del log[:]
        out.clear()
        ti_l = list(sp.values(env))
        o = Instance(cls)
        inp = in_frame(list(sp.columns))
        ti = SFrame(SIndex("D", I(0), L), [[l, Buf(Col(lambda i, l=l: ti_cell(l, i)))] for l in ti_l])
        o.attrs.update(_input_data=inp, _ti_data=ti, _calling_instance="X", _properties={})
        for q in sp.params:
            o.attrs["_" + q.name] = SInt(q.term()) if q.kind == "int" else SNum(fin(q.term()), False)
        out["object"] = o
        cv, lim, fac = Token("close_values"), Token("limit"), Token("factor")
        it.for_hook = hook
        try:
            r = it.call_closure(sim_fn, [o, cv, lim, fac], {})
        finally:
            it.for_hook = None
        return dict(obj=o, inp=inp, ti=ti, L=L, day=day, args=(cv, lim, fac), log=list(log), result=r, loop=out.get("loop"), rounds=out.get("day"))
    pre = [le(I(1), N), le(I(0), day), lt(day, L)]
    if sp.length:
        pre += [le(I(1), L), le(L, N)]
    return it.explore(fn, pre + (sp.pre(env) if sp.pre else []))


class Token(Sym):
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<%s>" % (self.what,)


def same_prefix(pc, name, got, want, rows, out):
    """obligations: got is the first `rows` rows of the frame want"""
    if not isinstance(got, SFrame):
        raise Unsupported("%s of the day: %s" % (name, type(got).__name__))
    ix = got.index
    if not isinstance(ix, SIndex) or ix.base != want.index.base or ix.shuffled:
        raise Unsupported("%s index of the day" % name)
    if got.labels() != want.labels():
        out.append(("S06", name + "_columns", "failed", "columns %s instead of %s" % (got.labels(), want.labels())))
        return
    out.append(("S06", name + "_first_row", pc, "valid", eq(ix.start, I(0)), None))
    out.append(("S06", name + "_rows", pc, "valid", eq(ix.length, rows), None))
    k = param("k", "I")
    inr = [le(I(0), k), lt(k, rows)]
    for (l, b), (l2, b2) in zip(got.cols, want.cols):
        if b.col is not b2.col:
            out.append(("S06", "%s[%s]" % (name, l), pc + inr, "cell", b.col.get(k), b2.col.get(k)))


def replay_obligations(p):
    v = p.value
    pc = list(p.pc)
    out = []

    def fact(name, ok, why=""):
        out.append(("S06", name, "proved" if ok else "failed", why))
    made = [x for x in v["log"] if x[0] == "make"]
    if len(made) != 1 or v["loop"] is None:
        raise Unsupported("shape of the simulation")
    a = made[0][1]
    ix = a.get("input_data_index")
    fact("account_dates", isinstance(ix, SIndex) and ix.same(v["inp"].index), "the account is created for %r" % (ix,))
    for q, w in zip(("close_values", "max_exposure", "short_exposure_factor"), v["args"]):
        fact("account_" + q, a.get(q) is w, "%s is given %r" % (q, a.get(q)))
    lo, hi = v["loop"]
    out.append(("S06", "first_day", pc, "valid", eq(lo, I(0)), None))
    out.append(("S06", "last_day", pc, "valid", eq(hi, v["L"]), None))
    day = v["day"]
    rounds = [x for x in v["rounds"] if x[0] == "round"]
    fact("one_round_per_day", len(rounds) == 1, "%d rounds are run on a day" % len(rounds))
    if len(rounds) == 1:
        _, i, s, who = rounds[0]
        it_ = i.t if isinstance(i, SInt) else I(i) if isinstance(i, int) else None
        if it_ is None:
            raise Unsupported("round index")
        out.append(("S06", "round_of_the_day", pc, "valid", eq(it_, day), None))
        src = [x for x in v["rounds"] if x[0] == "signal" and x[3] is s]
        fact("signal_of_the_indicator", len(src) == 1, "the round is given %r" % (s,))
        fact("same_account", who.attrs.get("$made") is a)
        if len(src) == 1:
            rows = add(day, I(1))
            same_prefix(pc, "input", src[0][1], v["inp"], rows, out)
            same_prefix(pc, "indicator", src[0][2], v["ti"], rows, out)
    for nm, at_ in (("input", "_input_data"), ("indicator", "_ti_data")):
        got, want = v["obj"].attrs.get(at_), v["inp" if nm == "input" else "ti"]
        if got is want:
            fact(nm + "_restored", True)
        else:
            same_prefix(pc, nm + "_restored", got, want, want.index.length, out)
    cl = [k for k, x in enumerate(v["log"]) if x[0] == "close"]
    last_round = max([k for k, x in enumerate(v["log"]) if x[0] == "round"], default=-1)
    fact("closed_once_after", len(cl) == 1 and cl[0] > last_round, "the account is closed %d times" % len(cl))
    r = v["result"]
    fact("result", isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Token) and r[0].what == "table" and isinstance(r[1], Token) and r[1].what == "statistics",
         "returns %r" % (r,))
    return out


# ---------------------------------------------------------------- the arguments
def arg_cases():
    """(name, limit value, factor value)"""
    import fractions
    fl = lambda n: SNum(Num(rdn(n + "_nan", I(0)), rdi(n + "_inf", I(0)), param(n, "R")), False)
    lims = [("none", None), ("int", SInt(param("limit_int", "I"))), ("float", fl("limit"))]
    facs = [("int", SInt(param("factor_int", "I"))), ("float", fl("factor"))]
    wrong = [("str", "5"), ("list", [5]), ("dict", {}), ("tuple", (5,)), ("set", {5})]
    out = [("limit_%s.factor_%s" % (a, b), x, y) for a, x in lims for b, y in facs]
    out += [("limit_%s" % a, x, facs[1][1]) for a, x in wrong]
    out += [("factor_%s" % a, None, x) for a, x in wrong + [("none", None)]]
    return out


def ok_term(v, kind):
    """condition under which a limit / factor is in range; None: wrong type"""
    if v is None:
        return TRUE if kind == "limit" else None
    if isinstance(v, SInt):
        return lt(I(0), v.t) if kind == "limit" else le(I(1), v.t)
    if isinstance(v, SNum):
        return n_lt(const(0), v.n) if kind == "limit" else n_le(const(1), v.n)
    return None


def exc_name(p):
    e = p.value
    e = getattr(e, "exc", e)
    c = getattr(e, "cls", None)
    return getattr(c, "name", None) or getattr(c, "__name__", None) or repr(e)


def arguments(it, limit, factor, close):
    """close: 'ok', 'dates' (valid data on other dates) or an exception class"""
    def contract(it_, args, kw):
        if isinstance(close, type):
            raise RaiseEx(ExcVal(close, ("input_data is not valid",)))
        names = ["input_data", "required_columns", "indicator_name", "fill_missing_values"]
        a = dict(zip(names, args))
        a.update(kw)
        it_.validated = a
        f = in_frame(list(a["required_columns"]), N if close == "ok" else LE, "D" if close == "ok" else "E")
        f.is_input = True
        return f
    it.contracts[VALIDATE] = contract

    def fn():
        m = it.load(SIM)
        it.validated = None
        cv = Token("close_values")
        o = it.call(m.ns["TradingSimulation"], [], {"input_data_index": SIndex("D", I(0), N), "close_values": cv,
                                                     "max_exposure": limit, "short_exposure_factor": factor})
        return o, cv, it.validated
    return it.explore(fn, [le(I(1), N), le(I(1), LE)])


def argument_obligations(name, p, limit, factor, close):
    pc = list(p.pc)
    lt_, ft_ = ok_term(limit, "limit"), ok_term(factor, "factor")
    same = TRUE if close == "ok" else same_dates(SIndex("D", I(0), N), SIndex("E", I(0), LE)) if close == "dates" else FALSE
    out = []
    if p.kind == "ok":
        good = and_(same, lt_ if lt_ is not None else FALSE, ft_ if ft_ is not None else FALSE)
        out.append(("S05", "starts_only_if_valid", pc, "valid", good, None))
        o, cv, a = p.value
        okc = a is not None and a["input_data"] is cv and list(a["required_columns"]) == ["close"]
        out.append(("S05", "close_values_validated", "proved" if okc else "failed", "validated %r" % (a,)))
        return out
    nm = exc_name(p)
    if nm == "NotValidInputDataForSimulation":
        out.append(("S05", "invalid_close_values", pc, "valid", not_(same), None))
    elif nm == "WrongTypeForInputParameter":
        bad = lt_ is None or ft_ is None
        out.append(("S05", "wrong_type", "proved" if bad else "failed", "wrong-type error for numbers"))
    elif nm == "WrongValueForInputParameter":
        out.append(("S05", "wrong_value", pc, "valid", or_(not_(lt_) if lt_ is not None else FALSE, not_(ft_) if ft_ is not None else FALSE), None))
    else:
        out.append(("S05", "exception", pc, "valid", FALSE, None))
    return out


# ------------------------------------------------------------------------ tasks
class Obs:
    def __init__(self, r, prefix):
        self.r, self.prefix, self.hard, self.st = r, prefix, False, {}

    def add(self, name, s, d=""):
        self.st.setdefault(name, []).append((s, d))
        self.hard |= s != "proved"

    def run(self, it, prop, obs, sec):
        for o in obs:
            if o[0] != prop:
                continue
            if len(o) == 4:
                self.add(o[1], o[2], o[3])
                continue
            _, nm, pc, kind, a, b = o
            it.pc = list(pc)
            try:
                s, d, fl = run_ob(kind, pc, a, b, sec)
            except Unsupported as e:
                s, d = "bounded", "outside the verified subset: %s" % e
            self.add(nm, s, d)

    def close(self):
        for n, v in self.st.items():
            st = [x[0] for x in v]
            self.r.ob("%s.%s" % (self.prefix, n), "failed" if "failed" in st else "bounded" if "bounded" in st else "proved",
                      " | ".join(x[1] for x in v if x[1]) if any(x != "proved" for x in st) else "")


def guarded(ob, f):
    try:
        f()
    except Exception as e:
        ob.add("paths", "bounded", "outside the verified subset: %s: %s" % (type(e).__name__, str(e)[:200]))


def bad_path(ob, p):
    """a path on which the account raised"""
    if exc_name(p) in ("AttributeError", "NameError"):
        ob.add("paths", "bounded", "raises %s" % exc_name(p))
        return
    s, d, fl = run_ob("valid", list(p.pc), FALSE, None, 30)
    ob.add("raises", s, "raises %s; %s" % (exc_name(p), d))


SIMFILE = "tti/utils/trading_simulation.py"


def report(r, prop, found):
    for k, rec in found.items():
        r.violate("%s.%s" % (rec["kind"], k), "%s: expected %s, the code gives %s" % (rec["what"], rec["expected"], rec["got"]), rec)


def deepen(r, prop, tag, ob, tier):
    from checks import simrun, concrete
    if not ob.hard:
        return
    rng = random.Random("deep/%s/%s/%s/%d" % (prop, tag, tier, SEED))
    consts = concrete.mined(REPO, SIMFILE)
    k = 1 if tier == "quick" else 5
    f = simrun.account_search(r, prop, rng, 60 * k, 4000 * k, consts)
    if not f and prop in ("S04",):
        f = simrun.sim_search(r, prop, SPECS, rng, 30 * k, 60 * k)
    report(r, prop, f)


def round_task(r, prop, tier, limited, act):
    world()
    it = new_interp(REPO, n=L_)
    ob = Obs(r, "round[%s,%s]" % ("limit" if limited else "no limit", act[0]))

    def go():
        for p in rounds(it, MX if limited else None, act):
            if p.kind != "ok":
                bad_path(ob, p)
                continue
            it.pc = list(p.pc)
            ob.run(it, prop, step_obligations(p, MX if limited else None, act), 40 if tier == "quick" else 150)
    guarded(ob, go)
    ob.close()
    r.used(it)
    deepen(r, prop, ob.prefix, ob, tier)


def first_task(r, prop, tier):
    world(0)
    it = new_interp(REPO, n=add(I(1), RR))
    ob = Obs(r, "first day")

    def go():
        for limit in (None, MX):
            for act in ACTIONS:
                for p in first_round(it, limit, act):
                    if p.kind != "ok":
                        bad_path(ob, p)
                        continue
                    it.pc = list(p.pc)
                    ob.run(it, prop, first_obligations(p, act), 40)
    guarded(ob, go)
    ob.close()
    r.used(it)
    deepen(r, prop, ob.prefix, ob, tier)


def close_task(r, prop, tier):
    world(0)
    n = add(II, RR)
    it = new_interp(REPO, n=n)
    ob = Obs(r, "close")

    def go():
        for p in closing(it, n):
            if p.kind != "ok":
                bad_path(ob, p)
                continue
            it.pc = list(p.pc)
            ob.run(it, prop, close_obligations(p, n), 60)
    guarded(ob, go)
    ob.close()
    r.used(it)
    deepen(r, prop, ob.prefix, ob, tier)


def run_task(r, prop, tier, part):
    """the real account and real simulations against the exact reading of the contract"""
    from checks import simrun, concrete
    rng = random.Random("sim/%s/%s/%s/%d" % (prop, part, tier, SEED))
    k = 1 if tier == "quick" else 8
    if part == "account":
        f = simrun.account_search(r, prop, rng, 25 * k, 900 * k, concrete.mined(REPO, SIMFILE))
    else:
        f = simrun.sim_search(r, prop, SPECS, rng, 40 * k, 130 * k)
    report(r, prop, f)


def replay_task(r, prop, tier, specs):
    from checks import simrun
    hard = []
    for sp in specs:
        fresh_world()
        it = new_interp(REPO)
        sym_params(sp)
        ob = Obs(r, sp.name)

        def go():
            for p in replay_paths(it, sp):
                if p.kind != "ok":
                    bad_path(ob, p)
                    continue
                it.pc = list(p.pc)
                ob.run(it, prop, replay_obligations(p), 20)
        guarded(ob, go)
        ob.close()
        r.used(it)
        if ob.hard:
            hard.append(sp)
    if hard:
        rng = random.Random("deep/%s/%s/%d" % (specs[0].name, tier, SEED))
        report(r, prop, simrun.sim_search(r, prop, hard, rng, 60 if tier == "quick" else 240, 400))


def args_task(r, prop, tier):
    fresh_world()
    ob = None
    for close in ("ok", "dates", TypeError, ValueError, KeyError):
        for name, l, f in arg_cases():
            it = new_interp(REPO)
            ob = Obs(r, "%s.%s" % (close if isinstance(close, str) else close.__name__, name))

            def go():
                for p in arguments(it, l, f, close):
                    it.pc = list(p.pc)
                    ob.run(it, prop, argument_obligations(name, p, l, f, close), 20)
            guarded(ob, go)
            ob.close()
            r.used(it)


def args_run_task(r, prop, tier):
    from checks import simrun
    from engine.real import Real
    rng = random.Random("args/%s/%d" % (tier, SEED))
    R_ = Real(REPO)
    bad_close = ["none", None], ["list", [1, 2]], ["str", "x"], ["dict", {"close": [1.0]}], ["series", [1.0, 2.0]], ["int", 3]
    lims = [(["none", None], 1), (["int", 1], 1), (["int", 100], 1), (["int", 0], 0), (["int", -1], 0), (["float", "0.5"], 1), (["float", "1e-9"], 1),
            (["float", "0.0"], 0), (["float", "-0.5"], 0), (["float", "nan"], 0), (["float", "inf"], 1), (["float", "-inf"], 0),
            (["str", "5"], None), (["list", [5]], None), (["dict", {}], None), (["complex", "1"], None), (["object", 0], None), (["tuple", [1]], None)]
    facs = [(["int", 1], 1), (["int", 2], 1), (["int", 0], 0), (["int", -3], 0), (["float", "1.0"], 1), (["float", "1.5"], 1), (["float", "0.999999"], 0),
            (["float", "0.0"], 0), (["float", "nan"], 0), (["float", "-inf"], 0), (["none", None], None), (["str", "1.5"], None), (["list", []], None), (["complex", "2"], None)]
    cases_ = []
    for n in (3, 6):
        days = [2 * k for k in range(n)]
        frames = []

        def fr(d, days_=None, **k):
            return ["frame", {"data": d, "days": days_, **k}]
        c = [float(10 + k) for k in range(n)]
        frames.append((fr({"close": c}, days), 1))
        frames.append((fr({"Close": c}, days), 1))
        frames.append((fr({"open": c, "CLOSE": c}, days), 1))
        frames.append((fr({"close": c[::-1]}, days[::-1]), 1))
        frames.append((fr({"close": [None] + c[1:]}, days), 1))
        frames.append((fr({"open": c}, days), 0))
        frames.append((fr({"close": c}, [d + 1 for d in days]), 0))
        frames.append((fr({"close": c[:-1]}, days[:-1]), 0))
        frames.append((fr({"close": c + [9.0]}, days + [2 * n]), 0))
        frames.append((fr({"close": c}, days[:-1] + [days[-1] + 5]), 0))
        frames.append((fr({"close": c}, [days[0] - 1] + days[1:]), 0))
        frames.append((fr({"close": c}), 0))
        frames.append((fr({"close": []}, []), 0))
        frames.append((fr({"close": c}, days, text=["close"]), 0))
        good = frames[0][0]
        for f, ok in frames + [(b, 0) for b in bad_close]:
            cases_.append((dict(n=n, days=days, close=f), None if ok else "NotValidInputDataForSimulation"))
        for l, ok in lims:
            cases_.append((dict(n=n, days=days, close=good, limit=l), {1: None, 0: "WrongValueForInputParameter", None: "WrongTypeForInputParameter"}[ok]))
        for f, ok in facs:
            cases_.append((dict(n=n, days=days, close=good, factor=f), {1: None, 0: "WrongValueForInputParameter", None: "WrongTypeForInputParameter"}[ok]))
    for k in range(60 if tier == "quick" else 400):
        n = rng.randint(2, 9)
        days = sorted(rng.sample(range(3 * n), n))
        other = list(days)
        free = [d for d in range(3 * n) if d not in days]
        m = rng.choice(["same", "one", "one", "one", "drop", "add", "shift"])
        if m == "one":
            i = rng.randrange(n)
            gap = [d for d in free if (i == 0 or d > days[i - 1]) and (i == n - 1 or d < days[i + 1])]
            if gap and rng.random() < 0.7:
                other[i] = rng.choice(gap)
            else:
                other[i] = rng.choice(free)
        elif m == "drop":
            other.pop(rng.randrange(n))
        elif m == "add":
            other.append(rng.choice(free))
        elif m == "shift":
            other = [d + rng.choice([0.5, 1, 0.25]) for d in other]
        if rng.random() < 0.4:
            rng.shuffle(other)
        c = [float(rng.randint(5, 50)) for d in other]
        cases_.append((dict(n=n, days=days, close=["frame", {"data": {"close": c}, "days": other}]), None if sorted(other) == days else "NotValidInputDataForSimulation"))
    for k in range(60 if tier == "quick" else 600):
        x = rng.choice([rng.uniform(-2, 3), rng.choice([-1, 0, 1]) + rng.uniform(-1e-6, 1e-6), float(rng.randint(-3, 5))])
        which = rng.choice(["limit", "factor"])
        v = ["int", int(x)] if rng.random() < 0.2 else ["float", repr(x)]
        val = int(x) if v[0] == "int" else x
        ok = val > 0 if which == "limit" else val >= 1
        cases_.append((dict(n=3, days=[0, 2, 4], close=["frame", {"data": {"close": [1.0, 2.0, 3.0]}, "days": [0, 2, 4]}], **{which: v}),
                       None if ok else "WrongValueForInputParameter"))
    t_end = time.time() + (60 if tier == "quick" else 300)
    try:
        for c, want in cases_:
            if time.time() > t_end:
                break
            a = R_.ask({"op": "simargs", **c})
            r.count("cases")
            got = a.get("raised")
            if "construct" in a:
                continue
            if got != want:
                r.violate("arguments.%s" % (want or "valid"), "simulation with %s: expected %s, the code gives %s" % (
                    str({k: v for k, v in c.items() if k not in ("n", "days")})[:200], want or "a simulation", got or "a simulation"),
                    {"kind": "arguments", "request": {"op": "simargs", **c}, "expected": want or "a simulation", "got": a})
    finally:
        R_.close()


def tasks(prop, tier):
    out = []
    q = tier == "quick"
    if prop in ("S01", "S02", "S03"):
        for limited in (False, True):
            for act in ACTIONS:
                out.append(Task("round.%s.%s" % (limited, act[0]), round_task, prop, tier, limited, act, limit=400 if q else 1500))
        out.append(Task("first", first_task, prop, tier, limit=300))
    if prop == "S04":
        out.append(Task("close", close_task, prop, tier, limit=400 if q else 1500))
    if prop == "S05":
        return [Task("arguments", args_task, prop, tier, limit=300), Task("run", args_run_task, prop, tier, limit=400)]
    if prop == "S06":
        for k in range(8):
            out.append(Task("replay.%d" % k, replay_task, prop, tier, SPECS[k::8], limit=400 if q else 1500))
    else:
        out.append(Task("account", run_task, prop, tier, "account", limit=400))
    for k in range(2 if prop != "S06" else 6):
        out.append(Task("simulate.%d" % k, run_task, prop, tier, "simulate.%d" % k, limit=500))
    return out


def kept_task(r, specs, tier):
    """the caller's close values (a token: every use other than handing it on is
    outside the verified subset) reach the validation only"""
    seen = set()
    for sp in specs:
        if sp.cls in seen:
            continue
        seen.add(sp.cls)
        fresh_world()
        it = new_interp(REPO)
        sym_params(sp)
        ob = Obs(r, sp.cls)

        def go():
            for p in replay_paths(it, sp):
                it.pc = list(p.pc)
                ob.run(it, "D03", [("D03", "close_values_only_forwarded", "proved", "")], 20)
        guarded(ob, go)
        ob.close()
        r.used(it)
    it = new_interp(REPO)
    ob = Obs(r, "TradingSimulation")

    def acc():
        for close in ("ok", "dates", TypeError, ValueError):
            for name, l, f in arg_cases():
                for p in arguments(it, l, f, close):
                    if p.kind == "ok":
                        o, cv, a = p.value
                        held = [k for k, v in o.attrs.items() if v is cv]
                        ob.run(it, "D03", [("D03", "close_values_only_validated", "proved" if a is not None and not held else "bounded", "held in %s" % held)], 20)
    guarded(ob, acc)
    ob.close()


def kept_run(r, tier):
    from checks import simrun
    rng = random.Random("kept/%s/%d" % (tier, SEED))
    report(r, "D03", simrun.sim_search(r, "D03", SPECS, rng, 30 if tier == "quick" else 200, 60 if tier == "quick" else 400))


def kept_tasks(tier):
    return [Task("close_values.%d" % k, kept_task, SPECS[k::6], tier, limit=400) for k in range(6)] + [Task("simulate", kept_run, tier, limit=300)]
