"""Runs the real library (in /opt/venv) on concrete cases.

Reads one JSON request per line on stdin, writes one JSON answer per line.
request: {"repo":..., "cls":..., "data": {col: [..]}, "dates": [..]|null,
          "params": {...}, "want": ["data","signal"], ...}
Numbers are decimal strings or JSON numbers; null is a missing value."""
import io
import json
import os
import sys
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")


def main():
    sys.path.insert(0, sys.argv[1])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)           # anything the library prints goes to stderr
    import pandas as pd
    import numpy as np
    warnings.simplefilter("ignore")
    import tti
    import tti.indicators as TI
    from real_ops import handle
    for line in sys.stdin:
        req = json.loads(line)
        try:
            ans = handle(req, pd, np, TI)
        except Exception as e:  # a worker error, never a library result
            import traceback
            ans = {"worker_error": repr(e), "tb": traceback.format_exc()[-1500:]}
        out.write(json.dumps(ans) + "\n")
        out.flush()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
