"""Which tasks decide which property, and what they rest on."""
import time
from checks import common

TRUST = [
    "engine/: the symbolic semantics of the Python and pandas/numpy subset (pdmodel.py, pdops.py, loops.py) are the assumed contracts of those libraries; cross-checked on the real libraries by the concrete cases of every run",
    "z3 (unsat answers) and the prover's induction rules (engine/prover.py)",
    "machine floats are treated as exact reals (missing and infinite values kept), so rounding noise below the published digits is not decided",
]
ASSUME_DATA = [
    "input data complete (no missing values), prices finite and positive, volume finite and not negative, low <= open, close <= high",
    "dates are unique",
]


def V():
    from checks import values
    return values


PROPS = {}
NOT_APPLICABLE = {}
TECH = {None: "contract-based deductive verification: symbolic execution of the real Python source against row-wise contracts, obligations discharged by an induction prover over z3"}
LEVEL_NOTE = {None: "Every obligation is proved for all row counts, parameters and data, from the AST of the current source; exact reals stand for floats, pandas/numpy are assumed contracts cross-checked on the real library each run. Obligations outside the prover's reach are listed as bounded in the evidence and checked on generated inputs only."}


def prop(ids, level, assumptions, trusted=TRUST, note="", min_obs=1, total=(600, 3000)):
    def deco(f):
        for i in ids.split():
            PROPS[i] = (f, level, assumptions, trusted, note, min_obs, total)
        return f
    return deco


@prop("V01 V02 V03 V04 V05", "proof", ASSUME_DATA + [
    "validateInputData returns the required columns of the user's data sorted by date (its own contract: D01, D02)"], min_obs=8)
def _values(p, tier):
    return V().tasks(p, tier)


@prop("G01 G02 G03 G04", "proof", ASSUME_DATA + [
    "a signal is asked on the first m rows of complete data; indicator cells are arbitrary except that rows whose formula lacks a full window are missing (V01-V05)"], min_obs=12)
def _signals(p, tier):
    from checks import signals
    return signals.tasks(p, tier)


@prop("M01", "proof", ASSUME_DATA, min_obs=150)
def _shape(p, tier):
    from checks import shape
    return shape.tasks(tier)


@prop("R01", "proof", ASSUME_DATA + [
    "the weights of a window function are not negative (scipy, through pandas rolling(win_type))",
    "projection oscillator: prices have at most four decimals (its bands are rounded to four decimals before the price is related to them)"], min_obs=25, total=(780, 6000))
def _ranges(p, tier):
    from checks import ranges
    return ranges.tasks(tier)


@prop("C01", "proof", ASSUME_DATA, min_obs=80)
def _causal(p, tier):
    from checks import causal
    return causal.tasks(tier)


@prop("Q01 U01 H01", "proof", [
    "the object state is any table of indicator and input values on any number m >= 1 of dates, missing and infinite values included; the labels are those the constructor publishes",
    "dates are unique", "a date string either parses to one of the dates, to another date, or parsing raises"], min_obs=60)
def _queries(p, tier):
    from checks import queries
    return queries.tasks(p, tier)


ASSUME_SIM = ["close prices of the simulation are complete and positive (missing closes are filled by validateInputData: D02)",
              "signals are one of (hold, 0), (buy, -1), (sell, 1) (G01)",
              "the state before a round is any state of the contract's form (opened positions, their kind, whether open); rounds run once per day in date order (S06)",
              "a sum of non-negative terms is not negative (used for: closing positions never raises the exposure)"]


@prop("S01 S02 S03", "proof", ASSUME_SIM, min_obs=20)
def _rounds(p, tier):
    from checks import simulation
    return simulation.tasks(p, tier)


@prop("S04", "proof", ASSUME_SIM, min_obs=15)
def _stats(p, tier):
    from checks import simulation
    return simulation.tasks(p, tier)


@prop("S05", "proof", ["validateInputData accepts or refuses the close values as its own contract says (D01): any exception of it, or a valid table on any dates"], min_obs=60)
def _simargs(p, tier):
    from checks import simulation
    return simulation.tasks(p, tier)


@prop("S06", "proof", ["getTiSignal and the account's methods change no attribute of the indicator (U01 and their own contracts)", "dates are unique"], min_obs=500)
def _replay(p, tier):
    from checks import simulation
    return simulation.tasks(p, tier)


ASSUME_IN = ["column names are distinct ignoring case", "dates are unique",
             "column layouts are enumerated: every order of the required columns, four letter-case styles, seven sets of additional columns (numeric, non-numeric, non-string labels, near-miss names), every set of missing or non-numeric columns; rows, values, missing-value patterns and row order are arbitrary",
             "a frame is sorted by the (unknown) permutation that orders its dates; set_axis, drop, sort_index, ffill, bfill and boolean/label selection return new objects (pandas contract)"]


@prop("D01 D02 D03 D04", "proof", ASSUME_IN, min_obs=40)
def _inputs(p, tier):
    from checks import inputs
    return inputs.tasks(p, tier)


@prop("P01", "proof", ["booleans (a subtype of int in Python) and numpy scalar types as parameters are not decided",
                       "foreign types are represented by one value each (str, list, dict, tuple, set, None, complex, float for integer parameters, int and float for names)"], min_obs=150)
def _params(p, tier):
    from checks import params
    return params.tasks(tier)


def run(p, tier):
    t0 = time.time()
    f, level, assumptions, trusted, note, min_obs, total = PROPS[p]
    ts = f(p, tier)
    res = common.run_tasks(ts, total[0] if tier == "quick" else total[1])
    return common.finish(p, tier, level, res, t0, assumptions, trusted, note, min_obs)
