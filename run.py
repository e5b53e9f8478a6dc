#!/usr/bin/env python3
"""python run.py PROPERTY [--tier quick|thorough] -- decides one property on /repo's working tree."""
from __future__ import annotations

import argparse
import ast
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", LC_ALL="C.UTF-8")
for _k in ("PYTHONPATH", "PYTHONSTARTUP"):
    ENV.pop(_k, None)

ASSUMPTIONS = [
    "ElementTree: fromstring(tostring(t)) returns t with XML line-end and character rules applied (contract model; character validity and CR/LF normalisation are modelled, markup parsing of rendered trees is expat's)",
    "struct/binascii/base64/time.strftime and the utf-8/utf-16 codecs are modelled in vx/shims.py and vx/values.py; datetime, uuid and _strptime are CPython's own pure-Python sources, executed symbolically",
    "logging calls are skipped; other C functions receive concrete values (case split over the values, cut recorded as inconclusive)",
    "floats are idealised as rationals where a symbolic value flows through them",
]


def static_labels(path):
    with open(path) as fh:
        tree = ast.parse(fh.read())
    out = {}
    for fn in [n for n in tree.body if isinstance(n, ast.FunctionDef)]:
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("check", "reach") and n.args:
                a = n.args[-1]
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    out.setdefault(fn.name, set()).add(a.value)
    return out


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def matches(kf, v):
    return kf.get("harness") in (None, v["harness"]) and kf.get("label") == v["label"] and all(v["inputs"].get(k) in (x if isinstance(x, list) else [x]) for k, x in kf.get("inputs", {}).items()) and all(
        v["case"].get(k) == x for k, x in kf.get("case", {}).items()
    )


def run_job(spec, hard):
    try:
        p = subprocess.run([PY, os.path.join(ROOT, "vx", "worker.py"), json.dumps(spec)], env=ENV, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=hard)
        lines = p.stdout.decode("utf-8", "replace").strip().splitlines()
        if lines and lines[-1].startswith("{"):
            return json.loads(lines[-1])
        return dict(module=spec["module"], harness=spec["harness"], case=spec["case"], crash="worker rc=%s: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-1500:]))
    except subprocess.TimeoutExpired:
        return dict(module=spec["module"], harness=spec["harness"], case=spec["case"], crash="worker exceeded its hard time limit")


def do_replay(items):
    if not items:
        return []
    with tempfile.TemporaryDirectory(prefix="vxreplay") as td:
        a, b = os.path.join(td, "in.json"), os.path.join(td, "out.json")
        with open(a, "w") as fh:
            json.dump(dict(items=items), fh)
        try:
            p = subprocess.run([PY, os.path.join(ROOT, "vx", "replay.py"), a, b], env=ENV, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            return None
        if not os.path.exists(b):
            sys.stderr.write(p.stdout.decode("utf-8", "replace")[-3000:])
            return None
        return json.load(open(b))


def pmap_replay(items, workers=8):
    if len(items) < 64:
        return do_replay(items)
    chunks = [items[i::workers] for i in range(workers)]
    with cf.ThreadPoolExecutor(workers) as ex:
        rs = list(ex.map(do_replay, chunks))
    if any(r is None for r in rs):
        return None
    out = [None] * len(items)
    for k, r in enumerate(rs):
        out[k::workers] = r
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", help="one harness (debugging)")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = a.property
    path = os.path.join(ROOT, "props", prop + ".py")
    # the harness list, read in a plain interpreter
    lister = (
        "import sys,json; sys.path[:0]=[%r,%r+'/props','/repo/src']; sys.dont_write_bytecode=True\n"
        "import importlib.util as u; s=u.spec_from_file_location('p',%r); m=u.module_from_spec(s); s.loader.exec_module(m)\n"
        "print(json.dumps([dict(name=h.name,quick=h.quick,thorough=h.thorough,bounds=h.bounds,covers=list(h.covers)) for h in m.HARNESSES]))"
    ) % (ROOT, ROOT, path)
    p = subprocess.run([PY, "-c", lister], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        sys.stderr.write(p.stderr.decode())
        print("ERROR property=%s cannot load the harness or the code under test" % prop)
        return 2
    hs = json.loads(p.stdout.decode().strip().splitlines()[-1])
    jobs = []
    total = a.budget or (420.0 if a.tier == "quick" else 3000.0)
    for h in hs:
        if a.only and h["name"] != a.only:
            continue
        cases = h["thorough"] if a.tier == "thorough" and h["thorough"] is not None else h["quick"]
        for c in cases:
            jobs.append(dict(module=prop, harness=h["name"], case=c, seed=seed))
    rounds = max(1, -(-len(jobs) // 8))
    # a job may use what is left when its turn comes; never beyond the tier's total
    deadline = t0 + total
    results = []

    def launch(spec):
        left = deadline - time.time()
        if left < 3:
            return dict(module=spec["module"], harness=spec["harness"], case=spec["case"], crash="not started: tier time budget used up")
        spec = dict(spec, budget=left * (0.9 if rounds == 1 else 0.7))
        return run_job(spec, left + 60)

    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(launch, jobs):
            results.append(r)
            if a.v:
                s = r.get("stats", {})
                print("  %s %s: paths=%s checks=%s unsat=%s viol=%d inconc=%s exh=%s solver=%ss wall=%ss%s" % (
                    r["harness"], r["case"], s.get("paths"), s.get("checks"), s.get("checks_unsat"), len(r.get("violations", [])), r.get("n_inconclusive"), r.get("exhausted"), r.get("solver_s"), r.get("wall_s"),
                    (" CRASH " + r["crash"][-600:]) if r.get("crash") else ""), flush=True)
                for x in r.get("inconclusive", [])[:4]:
                    print("      inconclusive:", x)
                if r.get("foreign"):
                    print("      foreign:", r["foreign"])
                if r.get("conc_sites"):
                    print("      concretised:", dict(sorted(r["conc_sites"].items(), key=lambda kv: -kv[1])[:6]))

    # ---- replay every counterexample, and a spread of the explored paths, on the real code
    cands, paths = [], []
    for r in results:
        for v in r.get("violations", []):
            cands.append(dict(module=prop, harness=r["harness"], case=r["case"], inputs=v["inputs"], label=v["label"], detail=v.get("detail", "")))
        pi = r.get("path_inputs", [])
        cap = 150 if a.tier == "quick" else 600
        step = max(1, len(pi) // cap)
        for x in pi[::step][:cap]:
            paths.append(dict(module=prop, harness=r["harness"], case=r["case"], inputs=x, label="(explored path)"))
    rep_c = pmap_replay(cands)
    rep_p = pmap_replay(paths)
    replay_broken = rep_c is None or rep_p is None
    rep_c, rep_p = rep_c or [], rep_p or []
    real, spurious = [], []
    for it, rr in list(zip(cands, rep_c)):
        if rr["status"] == "fail":
            real.append(dict(it, replayed=rr))
        else:
            spurious.append(dict(it, replayed=rr))
    mismatch = 0
    for it, rr in zip(paths, rep_p):
        if rr["status"] == "fail":
            mismatch += 1
            real.append(dict(it, replayed=rr, label=rr["label"]))
    if a.v:
        for s in spurious[:6]:
            print("  SPURIOUS", s["harness"], s["case"], s["label"], s["inputs"], s["replayed"], "\n", s["detail"])
    kfs = known_findings(prop)
    reported, known = [], {}
    for v in real:
        v["label"] = v["replayed"].get("label", v["label"])
        k = [f for f in kfs if matches(f, v)]
        if k:
            known[k[0]["what"]] = v
        else:
            reported.append(v)
    for f in kfs:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    seen = set()
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    vio_out = []
    for v in reported:
        key = (v["harness"], json.dumps(v["case"], sort_keys=True), v["label"])
        if key in seen:
            continue
        seen.add(key)
        if len(vio_out) >= 10:
            break
        rp = os.path.join(edir, "replay", "%s-%d.json" % (prop, len(vio_out)))
        with open(rp, "w") as fh:
            json.dump(dict(property=prop, module=prop, harness=v["harness"], case=v["case"], inputs=v["inputs"], label=v["label"], how="%s vx/replay.py %s  (cwd /verif)" % (PY, rp)), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("   %s %s: %s  inputs=%s" % (v["harness"], v["case"], v["label"], json.dumps(v["inputs"])[:400]))
        if v["replayed"].get("detail") and a.v:
            print(v["replayed"]["detail"])
        vio_out.append(dict(description="%s: %s" % (v["harness"], v["label"]), replay=rp))

    # ---- evidence
    lab = static_labels(path)
    reached = {}
    for r in results:
        for l, st in r.get("labels", {}).items():
            d = reached.setdefault((r["harness"], l), dict(reached=0, proved=0, trivial=0, sat=0, unknown=0))
            for k in d:
                d[k] += st[k]
    unreached = sorted("%s: %s" % (h["name"], l) for h in hs if not a.only or a.only == h["name"] for l in lab.get(h["name"], ()) if (h["name"], l) not in reached)
    tot = {}
    for r in results:
        for k, x in r.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + x
    crashes = ["%s %s: %s" % (r["harness"], r["case"], r["crash"][-400:]) for r in results if r.get("crash")]
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    inconc = sorted({"%s: %s" % (r["harness"], x) for r in results for x in r.get("inconclusive", [])})
    n_exh = sum(1 for r in results if r.get("exhausted"))
    foreign = {}
    for r in results:
        for k, x in r.get("foreign", {}).items():
            foreign[k] = foreign.get(k, 0) + x
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level="other",
        coverage=dict(
            explanation="Symbolic execution of the working tree's own functions: every feasible path inside the stated bounds is executed with z3 expressions for the inputs; each assertion is decided by an unsat/sat answer over all inputs of its path; counterexamples are replayed on the unmodified code before being reported.",
            harnesses=[dict(name=h["name"], bounds=h["bounds"], cases=len(h["thorough"] if a.tier == "thorough" and h["thorough"] is not None else h["quick"])) for h in hs],
            jobs=len(jobs), jobs_exhausted=n_exh, functions_encoded=len(funcs), functions=funcs,
            paths=tot.get("paths", 0), branch_decisions=tot.get("branches", 0), solver_queries=tot.get("queries", 0), assertions_decided=tot.get("checks", 0), assertions_proved_unsat=tot.get("checks_unsat", 0), assertions_concrete=tot.get("checks_trivial", 0),
            solver_s=round(sum(r.get("solver_s", 0) for r in results), 2),
            paths_replayed_on_real_code=len(rep_p), replay_disagreements=mismatch, counterexamples=len(cands), counterexamples_reproduced=len([1 for x in rep_c if x["status"] == "fail"]), counterexamples_not_reproduced=len(spurious),
            labels={"%s: %s" % k: v for k, v in sorted(reached.items())}, labels_unreached=unreached, inconclusive=inconc[:40], worker_failures=crashes[:20], concretised_calls=foreign,
        ),
        wall_s=round(time.time() - t0, 2), assumptions=ASSUMPTIONS, violations=vio_out,
    )
    with open(os.path.join(edir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: jobs=%d exhausted=%d paths=%d assertions=%d (unsat %d) queries=%d solver=%.1fs wall=%.1fs replayed=%d spurious=%d inconclusive=%d unreached=%d" % (
        prop, a.tier, len(jobs), n_exh, tot.get("paths", 0), tot.get("checks", 0), tot.get("checks_unsat", 0), tot.get("queries", 0), ev["coverage"]["solver_s"], ev["wall_s"], len(rep_p), len(spurious), len(inconc) + len(crashes), len(unreached)))
    if vio_out:
        return 1
    for x in unreached:
        print("UNREACHED %s" % x)
    for x in crashes[:5] + inconc[:5]:
        print("INCONCLUSIVE %s" % x)
    for x in spurious[:3]:
        print("INCONCLUSIVE counterexample not reproduced on the real code: %s %s: %s" % (x["harness"], x["case"], x["label"]))
    if replay_broken or not tot.get("paths"):
        print("ERROR property=%s nothing could be decided" % prop)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
