"""Runs one harness case symbolically; prints a JSON result on the last line."""
from __future__ import annotations

import gc
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def main():
    spec = json.loads(sys.argv[1])
    sys.path.insert(0, ROOT)
    sys.path.append(Z3)
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    import z3  # noqa

    from vx import core
    from vx import instrument as I
    from vx import sym

    I.install(root=spec.get("root", "/repo/src"))
    import psrpcore  # noqa
    import psrpcore.types  # noqa

    I.load_harness(os.path.join(ROOT, "props", "plib.py"), "plib")
    mod = I.load_harness(os.path.join(ROOT, "props", spec["module"] + ".py"), "prop_" + spec["module"])
    h = [x for x in mod.HARNESSES if x.name == spec["harness"]][0]
    case = spec["case"]
    eng = core.Engine(seed=spec.get("seed", 1), timeout_ms=spec.get("timeout_ms", 10000), conc_cap=spec.get("conc_cap", 48))
    eng.deadline = t0 + spec["budget"]
    funcs = set()
    src = spec.get("root", "/repo/src")

    def prof(frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c.co_filename.startswith(src):
                funcs.add(os.path.relpath(c.co_filename, src) + ":" + c.co_qualname)

    first = [True]
    gc.disable()
    nrun = [0]

    def run(e):
        nrun[0] += 1
        if nrun[0] % 200 == 0:
            gc.collect()
        if first[0]:
            first[0] = False
            sys.setprofile(prof)
            try:
                h.fn(sym.Sym(e), **case)
            finally:
                sys.setprofile(None)
        elif nrun[0] % 37 == 0:
            sys.setprofile(prof)
            try:
                h.fn(sym.Sym(e), **case)
            finally:
                sys.setprofile(None)
        else:
            h.fn(sym.Sym(e), **case)

    crash = None
    try:
        eng.explore(run)
    except BaseException as ex:  # engine failure: inconclusive, never a verdict
        import traceback

        crash = traceback.format_exc()
    foreign = eng.stats.pop("foreign", {})
    out = dict(
        module=spec["module"], harness=spec["harness"], case=case, stats=eng.stats, labels=eng.labels, violations=eng.violations,
        path_inputs=eng.path_inputs, inconclusive=eng.inconclusive[:20], n_inconclusive=len(eng.inconclusive), exhausted=eng.exhausted,
        solver_s=round(eng.solver_time, 3), wall_s=round(time.time() - t0, 3), functions=sorted(funcs), foreign=foreign, crash=crash,
        conc_sites=eng.conc_sites,
    )
    sys.stdout.write("\n" + json.dumps(out) + "\n")
    sys.stdout.flush()
    os._exit(0)


main()
