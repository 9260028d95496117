"""Client of the worker that runs the real library."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class Real:
    def __init__(self, repo="/repo"):
        env = dict(os.environ)
        env["MPLBACKEND"] = "Agg"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
        env.pop("PYTHONPATH", None)
        self.repo = repo
        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "real", "worker.py"), repo], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd="/tmp")
        self.calls = 0

    def ask(self, req):
        self.calls += 1
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        a = json.loads(line)
        if "worker_error" in a:
            raise RuntimeError(a["worker_error"] + "\n" + a.get("tb", ""))
        return a

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
