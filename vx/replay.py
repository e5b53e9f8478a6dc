"""Runs harness assignments on the unmodified code of /repo (plain values, plain Python).

usage: replay.py BATCH.json   -- {"items": [{"module","harness","case","inputs"}...]}
       replay.py ONE.json     -- one item, as written for a reported violation
"""
from __future__ import annotations

import importlib.util
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Alarm(Exception):
    pass


def load(module):
    p = os.path.join(ROOT, "props", module + ".py")
    spec = importlib.util.spec_from_file_location("prop_" + module, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules["prop_" + module] = m
    spec.loader.exec_module(m)
    return m


def run(item, mods):
    from vx.api import AssumeFailed, CheckFailed, Replay

    m = mods.get(item["module"])
    if m is None:
        m = mods[item["module"]] = load(item["module"])
    h = [x for x in m.HARNESSES if x.name == item["harness"]][0]
    v = Replay(item["inputs"])

    def onalarm(*a):
        raise Alarm("replay took more than 20 s")

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(20)
    try:
        h.fn(v, **item["case"])
    except AssumeFailed:
        return dict(status="assume")
    except CheckFailed as e:
        return dict(status="fail", label=str(e))
    except Alarm as e:
        return dict(status="timeout", label=str(e))
    except Exception as e:
        return dict(status="fail", label="uncaught %s: %s" % (type(e).__name__, str(e)[:300]), detail=traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
    return dict(status="ok")


def main():
    sys.dont_write_bytecode = True
    src = os.environ.get("VX_SRC", "/repo/src")
    sys.path.insert(0, os.path.join(ROOT, "props"))
    sys.path.insert(0, ROOT)
    sys.path.insert(0, src)
    with open(sys.argv[1]) as fh:
        d = json.load(fh)
    import psrpcore

    assert psrpcore.__file__.startswith(src), psrpcore.__file__
    mods = {}
    if "items" in d:
        out = [run(i, mods) for i in d["items"]]
        with open(sys.argv[2], "w") as fh:
            json.dump(out, fh)
        return 0
    r = run(d, mods)
    print(json.dumps(r, indent=1))
    return 1 if r["status"] == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
