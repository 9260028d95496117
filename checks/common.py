"""Check driver: runs the tasks of a property in forked processes, collects
obligations and violations, writes the evidence file and decides the outcome.

Obligation states:
  proved   discharged by the prover for all inputs
  bounded  not discharged; decided by the bounded concrete check only
  failed   definitively not provable although the unchanged tree proves it
           (no timeout, no solver give-up, no unsupported construct)
Violations carry an input on which the real code was run and disobeyed."""
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TTI_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1


class Result:
    def __init__(self):
        self.obs = []           # (name, state, detail)
        self.fns = set()
        self.contracts = set()
        self.violations = []    # dicts: key, what, replay
        self.counts = {}
        self.notes = []
        self.error = None

    def ob(self, name, state, detail=""):
        self.obs.append((name, state, str(detail)[:1500]))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violate(self, key, what, replay):
        """key identifies the failure (for the known-findings file)"""
        self.violations.append({"key": key, "what": what, "replay": replay})

    def used(self, it):
        self.fns |= set(it.trace_calls)
        self.contracts |= set(it.used_contracts)


class Task:
    def __init__(self, name, fn, *args, limit=240):
        self.name, self.fn, self.args, self.limit = name, fn, args, limit


def _child(task, path, deadline):
    os.setsid()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    r = Result()
    try:
        from engine import smt
        from engine.interp import Unsupported
        r.deadline = deadline
        try:
            task.fn(r, *task.args)
        except Exception as e:
            r.error = "%s: %s" % (type(e).__name__, str(e)[:300])
            r.notes.append(traceback.format_exc()[-1800:])
        for k, v in smt.STATS.items():
            r.counts[k] = r.counts.get(k, 0) + v
    except BaseException as e:      # pragma: no cover
        r.error = repr(e)
    r.deadline = None
    with open(path + ".tmp", "wb") as f:
        pickle.dump(r, f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def run_tasks(tasks, total, jobs=None):
    """name -> Result (error set when the task died or ran out of time)"""
    import tempfile
    jobs = jobs or max(2, min(8, os.cpu_count() or 4))
    t_end = time.time() + total
    d = tempfile.mkdtemp(prefix="ttichk")
    todo = list(tasks)
    run = {}
    out = {}
    try:
        while todo or run:
            while todo and len(run) < jobs and time.time() < t_end:
                t = todo.pop(0)
                path = os.path.join(d, "%d" % len(out) + "_%d" % (id(t) % 10 ** 9))
                dl = min(time.time() + t.limit, t_end)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    _child(t, path, dl)
                run[pid] = (t, path, dl)
            if todo and time.time() >= t_end:
                for t in todo:
                    r = out[t.name] = Result()
                    r.error = "not started: time budget spent"
                todo = []
            if not run:
                continue
            try:
                pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid in run:
                t, path, dl = run.pop(pid)
                try:
                    with open(path, "rb") as f:
                        out[t.name] = pickle.load(f)
                except Exception as e:
                    r = out[t.name] = Result()
                    r.error = "task died (status %s)" % st
                _killgroup(pid)
                continue
            now = time.time()
            for pid, (t, path, dl) in list(run.items()):
                if now > dl + 15:
                    _killgroup(pid)
                    try:
                        os.waitpid(pid, 0)
                    except ChildProcessError:
                        pass
                    run.pop(pid)
                    r = out[t.name] = Result()
                    r.error = "out of time"
            time.sleep(0.02)
    finally:
        for pid in run:
            _killgroup(pid)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return out


def _killgroup(pid):
    for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            f()
        except (ProcessLookupError, PermissionError):
            pass


def known():
    """the known-findings file: {"known": [{property, key, what}]}"""
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property="):
                w = line.split(None, 3)
                out.append({"property": w[1].split("=", 1)[1], "key": w[2].split("=", 1)[1], "what": w[3].strip()})
    return {"known": out}


def jsonable(x):
    from fractions import Fraction
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def write_replay(prop, i, v):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, i))
    json.dump(jsonable(v), open(p, "w"), indent=1)
    return p


def finish(prop, tier, level, results, t0, assumptions, trusted, note="", min_obs=1, exit_=True):
    obs = [(n, s, d) for r in results.values() for n, s, d in r.obs]
    viol = [v for r in results.values() for v in r.violations]
    counts = {}
    for r in results.values():
        for k, v in r.counts.items():
            counts[k] = counts.get(k, 0) + v
    fns = sorted(set().union(*[r.fns for r in results.values()])) if results else []
    ctr = sorted(set().union(*[r.contracts for r in results.values()])) if results else []
    errs = {k: r.error for k, r in results.items() if r.error}
    kn = [k for k in known()["known"] if k["property"] == prop]
    proved = [o for o in obs if o[1] == "proved"]
    bounded = [o for o in obs if o[1] == "bounded"]
    failed = [o for o in obs if o[1] == "failed"]
    lines, code = [], 0
    fresh_, seen = [], set()
    for v in viol:
        hit = [k for k in kn if k["key"] == v["key"]]
        if hit:
            if v["key"] not in seen:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
        elif v["key"] not in seen:
            fresh_.append(v)
        seen.add(v["key"])
    for i, v in enumerate(fresh_[:5]):
        p = write_replay(prop, i, {"property": prop, "what": v["what"], "key": v["key"], "replay": v["replay"]})
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        lines.append("  " + v["what"][:300])
        code = 1
    if not fresh_ and failed:
        p = write_replay(prop, 0, {"property": prop, "failed_obligations": [{"obligation": n, "verifier_output": d} for n, s, d in failed[:20]],
                                   "note": "each of these obligations is discharged on the unchanged tree; no failing input was found"})
        for n, s, d in failed[:5]:
            lines.append("  failed obligation: %s: %s" % (n, d[:200].replace("\n", " ")))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        code = 1
    cases = counts.get("cases", 0)
    if code == 0 and len(obs) < min_obs and not bounded and not errs and not cases:
        lines.append("ERROR: only %d obligations were generated (%d expected at least)" % (len(obs), min_obs))
        code = 2
    if code == 0 and not proved and not cases:
        lines.append("ERROR: nothing was decided: %s" % json.dumps(errs)[:500])
        code = 2
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": level,
          "coverage": {
              "obligations": len(obs), "discharged": len(proved),
              "bounded": [{"obligation": n, "why": d} for n, s, d in bounded],
              "failed": [{"obligation": n, "why": d} for n, s, d in failed],
              "checker_cmd": "python3-vt check.py %s %s" % (prop, tier),
              "trusted_base": trusted,
              "functions_under_contract": fns, "assumed_contracts": ctr,
              "back_end": "own obligation prover (induction over rows, recurrence and fold reasoning) with z3 %s" % _z3v(),
              "solver": {k: round(v, 3) for k, v in counts.items()},
              "discharged_names": [n for n, s, d in proved][:400],
              "task_errors": errs, "notes": note},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": [{"what": v["what"], "key": v["key"]} for v in fresh_] + [{"what": "failed obligation " + n, "key": n} for n, s, d in failed]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(jsonable(ev), open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d obligations, %d discharged, %d bounded, %d failed, %d concrete cases, %.1f s" % (
        prop, tier, len(obs), len(proved), len(bounded), len(failed), cases, time.time() - t0))
    for k, e in sorted(errs.items()):
        print("  undecided task %s: %s" % (k, e[:200]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"
