"""Re-runs a recorded request on the real code and shows expected and got."""
import json
from engine.real import Real
from checks.common import REPO


def main(path):
    v = json.load(open(path))
    print(v.get("what", ""))
    if "failed_obligations" in v:
        for o in v["failed_obligations"]:
            print(o["obligation"], ":", o["verifier_output"])
        return 0
    rec = v["replay"]
    R = Real(REPO)
    a = R.ask(rec["request"])
    print("expected:", rec.get("expected"))
    print("recorded:", rec.get("got"))
    if rec.get("column") not in (None, "*") and "data" in a and "cols" in a["data"]:
        c = a["data"]["cols"].index(rec["column"])
        print("now     :", a["data"]["data"][c][rec["row"]])
    else:
        print("now     :", json.dumps(a)[:2000])
    R.close()
    return 0
