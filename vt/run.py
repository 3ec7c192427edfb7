"""Runs the check of one property.

  run.py ID [--tier quick|thorough] [--only SUBSTR]   exploration (exit 0 / 1 / 3)
  run.py --replay FILE                                 concrete replay of one counterexample
"""

import argparse
import faulthandler
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.environ.get("VT_OUT", ROOT)
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.setrecursionlimit(5000)

import warnings

warnings.filterwarnings("ignore")

from vt import engine, shim  # noqa: E402


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def setup(transform, pid=None):
    strings = False
    if transform:
        with open(os.path.join(HERE, "harness", f"{pid.lower()}.py")) as f:
            strings = any(line.startswith("STRINGS = True") for line in f)
    shim.install(transform, strings)
    import torch

    torch.set_num_threads(1)
    import megatron.energon  # noqa: F401


def run_instance(args):
    pid, tier, idx = args
    mod = importlib.import_module(f"vt.harness.{pid.lower()}")
    inst = mod.instances(tier)[idx]
    t0 = time.time()
    res = dict(name=inst["name"], status="ok", bounds=inst.get("bounds", ""))
    lim = inst.get("mem_gb", 6) * (1 << 30)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (max(lim, 24 << 30), resource.RLIM_INFINITY))
    except Exception:
        pass
    ex = engine.Explorer(
        inst["fn"], inst["name"], max_paths=inst.get("max_paths", 10**6),
        deadline=time.time() + min(inst.get("seconds", 600), float(os.environ.get("VT_SECONDS", 9999))),
        max_violations=inst.get("max_violations", 3),
        solver_timeout_ms=inst.get("solver_ms", 60000),
    )
    try:
        with shim.FunctionTrace() as ft:
            ex.explore()
        missing = [r for r in inst.get("reach", ()) if r not in ex.reached]
        if missing and not ex.violations:
            res["status"] = "error"
            res["error"] = f"reachability witnesses missing: {missing}"
    except engine.Inconclusive as e:
        res["status"] = "error"
        res["error"] = f"inconclusive: {e}"
    except BaseException as e:
        res["status"] = "error"
        res["error"] = "".join(traceback.format_exception(e))[-3000:]
    res["functions"] = sorted(ft.hit)
    res["stats"] = ex.stats
    res["reached"] = ex.reached
    res["violations"] = ex.violations
    res["samples"] = ex.samples
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def replay_many(items):
    """items: list of (property, tier, instance name, assignment). Runs on the plain code in this
    process. Returns a list of (ok, label, detail)."""
    out = []
    for pid, tier, name, asg in items:
        mod = importlib.import_module(f"vt.harness.{pid.lower()}")
        inst = [i for i in mod.instances(tier) if i["name"] == name]
        if not inst:
            out.append((None, "unknown instance", name))
            continue
        ctx = engine.ConcreteCtx(dict(asg))
        engine.set_current(ctx)
        try:
            inst[0]["fn"](ctx)
            out.append((True, "", ""))
        except engine.PathInfeasible:
            out.append((None, "assumption not met", ""))
        except engine.Violation as v:
            out.append((False, v.label, str(v.detail)))
        except Exception as e:
            last = [f for f in traceback.extract_tb(e.__traceback__)][-1]
            out.append((False, f"exception {type(e).__name__} in {last.name}",
                        "".join(traceback.format_exception(e))[-3000:]))
        finally:
            engine.set_current(None)
    return out


def replay_subprocess(items, timeout):
    """Replays on the untransformed code in a fresh interpreter."""
    if not items:
        return []
    cmd = [sys.executable, os.path.join(HERE, "run.py"), "--replay-batch"]
    p = subprocess.run(cmd, input=json.dumps(items), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=timeout)
    for line in p.stdout.splitlines():
        if line.startswith("@@REPLAY "):
            return json.loads(line[len("@@REPLAY "):])
    raise RuntimeError(f"replay process failed: {p.stdout[-2000:]} {p.stderr[-3000:]}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--replay-batch", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VT_JOBS", "8")))
    a = ap.parse_args()

    if a.replay_batch:
        items = json.load(sys.stdin)
        setup(False)
        print("@@REPLAY " + json.dumps(replay_many(items)))
        return 0
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        setup(False)
        ok, label, detail = replay_many(
            [(r["property"], r["tier"], r["instance"], r["assignment"])])[0]
        print(detail)
        if ok is False:
            print(f"REPRODUCED property={r['property']} instance={r['instance']}: {label}")
            return 1
        print("not reproduced", label)
        return 0

    pid = a.property
    t0 = time.time()
    faulthandler.enable()
    setup(True, pid)
    mod = importlib.import_module(f"vt.harness.{pid.lower()}")
    insts = mod.instances(a.tier)
    names = [i["name"] for i in insts]
    assert len(set(names)) == len(names), "duplicate instance names"
    idxs = [i for i, x in enumerate(insts) if a.only is None or a.only in x["name"]]
    # long ones first
    idxs.sort(key=lambda i: -insts[i].get("weight", 1))
    ctx = mp.get_context("fork")
    results = []
    with ctx.Pool(min(a.jobs, max(1, len(idxs))), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_instance, [(pid, a.tier, i) for i in idxs], chunksize=1):
            results.append(r)
            if a.only is not None or os.environ.get("VT_VERBOSE"):
                print(r["name"], r["status"], r["wall_s"], r["stats"],
                      [v["label"] for v in r["violations"]], r.get("error", ""), flush=True)
    results.sort(key=lambda r: names.index(r["name"]))

    # replay of counterexamples and of sample paths on the untransformed code
    items, tags = [], []
    for r in results:
        for v in r["violations"]:
            items.append((pid, a.tier, r["name"], v["assignment"]))
            tags.append(("violation", r, v))
        for s in r["samples"][:2]:
            items.append((pid, a.tier, r["name"], s))
            tags.append(("sample", r, s))
    errors = [f"{r['name']}: {r['error']}" for r in results if r["status"] != "ok"]
    validated = 0
    reported = []
    outs = []
    try:
        outs = replay_subprocess(items, timeout=600)
    except Exception as e:
        errors.append(f"replay: {e}")
    known = [k for k in load_known() if k["property"] == pid]
    known_hit = set()
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    nviol = 0
    for (kind, r, v), (ok, label, detail) in zip(tags, outs):
        if kind == "sample":
            if ok is True:
                validated += 1
            else:
                errors.append(f"{r['name']}: sample path fails on plain code: {label} {v} {detail}")
            continue
        k = [x for x in known if x["instance"] == r["name"] and x["label"] == v["label"]]
        if ok is not False:
            errors.append(
                f"{r['name']}: counterexample does not reproduce ({ok} {label}): {v}")
        elif k:
            known_hit.add(k[0]["id"])
        else:
            path = os.path.join(OUT, "replays", f"{pid}_{nviol}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=a.tier, instance=r["name"], label=v["label"],
                               replay_label=label, assignment=v["assignment"], detail=detail,
                               how="python vt/run.py --replay <this file>"), f, indent=1)
            nviol += 1
            reported.append((path, r["name"], v["label"], detail))

    for k in known:
        if k["id"] in known_hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            if not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r["functions"]))
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")),
        level="model_checking",
        coverage=dict(
            states=tot.get("paths", 0),
            transitions=tot.get("branches", 0) + tot.get("concretisations", 0),
            traces_validated_against_impl=validated,
            samples=[dict(instance=r["name"], assignment=s) for r in results
                     for s in r["samples"][:1]][:12],
            explanation="symbolic execution of the real functions: states = feasible path classes "
                        "explored to the end, transitions = solver-decided branch points and "
                        "exhaustive concretisations; traces_validated = path models re-run on the "
                        "untransformed code with the same outcome",
            instances=[dict(name=r["name"], bounds=r["bounds"], status=r["status"],
                            wall_s=r["wall_s"], reached=sorted(r["reached"]), **r["stats"])
                       for r in results],
            functions_encoded=funcs,
            queries=tot.get("queries", 0),
            assertions_checked=tot.get("checks", 0),
            assertions_discharged=tot.get("discharged", 0),
            solver_s=round(tot.get("solver_s", 0.0), 2),
            infeasible_paths=tot.get("infeasible", 0),
            errors=errors,
            exhaustive=not errors,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(reported),
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    if a.only is None:
        with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} [{a.tier}]: {len(results)} instances, {tot.get('paths', 0)} paths, "
          f"{tot.get('queries', 0)} queries, {tot.get('discharged', 0)}/{tot.get('checks', 0)} "
          f"assertions, {validated} traces validated, {wall:.1f}s")
    for path, name, label, detail in reported:
        d = detail[:700] if not label.startswith("exception") else detail.strip().rsplit("\n", 1)[-1]
        print(f"  counterexample in {name}: {label}\n    " + d.replace("\n", "\n    "))
        print(f"VIOLATION property={pid} replay={path}")
    for e in errors:
        print(f"ERROR {e}")
    if reported:
        return 1
    if errors:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
