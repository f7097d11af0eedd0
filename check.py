#!/usr/bin/env python3
"""Decide one property: check.py <PROPERTY> [--tier quick|thorough] [--task NAME]"""
import sys

sys.dont_write_bytecode = True
import argparse
import ast
import base64
import glob
import json
import multiprocessing as mp
import os
import pickle
import resource
import shutil
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
SCRATCH = tempfile.mkdtemp(prefix="recap-verif-")
os.environ["RECAP_HOME"] = os.path.join(SCRATCH, "home")
os.environ["VERIF_SCRATCH"] = SCRATCH
for k in list(os.environ):
    if k.upper().startswith("RECAP_URLS"):
        del os.environ[k]
os.chdir(SCRATCH)


def literals():
    """String and integer literals of the code under verification."""
    strs, ints = set(), set()
    for f in glob.glob(os.path.join(REPO, "recap/**/*.py"), recursive=True):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and len(n.value) <= 40 and "\n" not in n.value:
                    strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool):
                    ints.add(n.value)
    return sorted(strs), sorted(ints)


def analyse(task, rec, kind):
    """What one process found out, as plain data; counterexamples are replayed here."""
    from engine import contract as C, path as P

    found, n = None, 0
    refuted = []
    for r in rec.refs:
        d = {"obligation": f"{task.name}:{r.where}", "taints": sorted(r.path.taints),
             "approx": C.approximate(r.path, r.formula), "got": str(r.got)[:600], "want": str(r.want)[:600]}
        try:
            args = task.concretise(r.path, r.path.model)
            ok, msg = task.native(args)
            d["replay"] = msg if ok is False else f"did not replay ({msg or 'outcomes agree'}): {C.show(args, 600)}"
            if ok is False and found is None:
                found = pack(args, msg, f"counterexample of obligation {task.name}:{r.where}{kind}")
        except Exception as e:
            d["replay"] = f"concretisation failed: {e!r}"
        refuted.append(d)
    t0 = time.time()
    for p in rec.models:
        if found or time.time() - t0 > 20:
            break
        try:
            m = p.model
            if m is None:
                p.check(P.z3.BoolVal(True), full=True)
                m = p.model
            if m is None:
                continue
            args = task.concretise(p, m)
            ok, msg = task.native(args)
        except Exception:
            continue
        if ok is None:
            continue
        n += 1
        if ok is False:
            found = pack(args, msg, "model of an explored path" + kind)
    st = P.STATS
    return {"obs": rec.obs, "outcomes": rec.outcomes, "undecided": list(rec.undecided), "taints": set(rec.taints),
            "functions": set(rec.functions), "uses": dict(rec.contract_uses), "refuted": refuted, "found": found,
            "models": n, "trusted": set(rec.eng.trusted) if rec.eng else set(), "processes": 1,
            "stats": {k: getattr(st, k) for k in ("queries", "solver_s", "unknown", "paths", "fast", "reused")}}


def pack(args, msg, how):
    from engine import contract as C

    try:
        blob = base64.b64encode(pickle.dumps(args)).decode()
    except Exception:
        blob = None
    return {"how": how, "message": msg, "inputs": C.show(args, 4000), "pickle": blob, "failing_input": True}


def merge(a, b):
    if b is None:
        a["undecided"].append("a worker process died")
        return a
    for w, d in b["obs"].items():
        t = a["obs"].setdefault(w, {"proved": 0, "trivial": 0, "refuted": 0, "unknown": 0})
        for k, v in d.items():
            t[k] += v
    for key in ("outcomes", "uses", "stats"):
        for k, v in b[key].items():
            a[key][k] = a[key].get(k, 0) + v
    a["undecided"] += b["undecided"]
    for key in ("taints", "functions", "trusted"):
        a[key] |= b[key]
    a["refuted"] += b["refuted"]
    a["found"] = a["found"] or b["found"]
    a["models"] += b["models"]
    a["processes"] += b["processes"]
    return a


def prove(task, deadline, sem, bounded=None):
    """Verify a task, on as many processes as are free."""
    from engine import contract as C, fork

    fork.FORK = fk = fork.Forker(sem)
    sem.acquire()
    try:
        rec = task.verify(deadline, bounded=bounded)
    except Exception as e:
        rec = C.Record(task)
        rec.undecided.append("verifier failed: " + traceback.format_exc()[-600:])
    part = analyse(task, rec, " (bounded)" if bounded else "")
    for b in fk.collect():
        merge(part, b)
    if fk.is_child:
        fk.finish(part)
    fork.FORK = None
    part["total"] = sum(sum(d.values()) for d in part["obs"].values())
    part["discharged"] = sum(d["proved"] + d["trivial"] for d in part["obs"].values())
    return part


STATS0 = {"queries": 0, "solver_s": 0.0, "unknown": 0, "paths": 0, "fast": 0, "reused": 0}


def run_task(task, tier, seed, lits, sem):
    from engine import contract as C, path as P
    import contracts.speclib  # noqa: F401

    t0 = time.time()
    vsec = (task.budget or 200) * (1 if tier == "quick" else 5)
    ssec = (8 if tier == "quick" else 90)
    out = {"task": task.name, "note": task.note, "violation": None, "known": []}
    evals = {"models": 0, "random": 0, "inside": 0}
    if task.bounded_only:
        rec = {"models": 0, "refuted": [], "found": None, "undecided": ["bounded by design"], "stats": STATS0,
               "total": 0, "discharged": 0, "processes": 0, "outcomes": {}, "functions": set(), "uses": {},
               "taints": set(), "obs": {}, "trusted": set()}
    else:
        rec = prove(task, t0 + vsec, sem)
    evals["models"] += rec["models"]
    refuted, found = rec["refuted"], rec["found"]
    bounded = None
    if found is None and (rec["undecided"] or refuted):
        # bounded stand-in: lists of at most bounded_n elements
        b = prove(task, time.time() + min(vsec, 150 if tier == "quick" else 10**6), sem, bounded=task.bounded_n)
        bounded = {"bound": f"lists of at most {task.bounded_n} elements",
                   "obligations": b["total"], "discharged": b["discharged"],
                   "undecided": sorted(set(b["undecided"]))[:8], "outcomes": b["outcomes"],
                   "refuted": len(b["refuted"])}
        evals["models"] += b["models"]
        found = b["found"]
        if task.bounded_only:
            rec.update({k: b[k] for k in ("refuted", "functions", "uses", "stats", "taints")})
            refuted = b["refuted"]
        from engine import sorts as S
        S.BOUNDED["n"] = None
    if found is None and task.search:
        if tier == "quick" and not rec["undecided"] and not refuted:
            ssec = 3
        n, inside, hit = task.random_search(seed, ssec, lits=lits)
        evals["random"], evals["inside"] = n, inside
        if hit:
            found = pack(hit[0], hit[1], "bounded search")
    st = rec["stats"]
    out.update(
        obligations=rec["total"], discharged=rec["discharged"], processes=rec["processes"],
        solver_calls=st["queries"], solver_s=round(st["solver_s"], 3),
        solver_unknown=st["unknown"], paths=st["paths"], outcomes=rec["outcomes"],
        functions=sorted(rec["functions"]), contract_uses=rec["uses"],
        undecided=sorted(set(rec["undecided"]))[:20], n_undecided=len(rec["undecided"]),
        refuted=refuted[:20], bounded=bounded, evaluations=evals, taints=sorted(rec["taints"]),
        proved=bool(rec["total"] > 0 and rec["discharged"] == rec["total"] and not rec["undecided"]),
        by_obligation={k: v for k, v in sorted(rec["obs"].items())[:200]},
        trusted=sorted(rec["trusted"]),
    )
    if found is not None:
        out["violation"] = {**found, "refuted": refuted[:3]}
    elif refuted:
        clean = [d for d in refuted if not d["taints"]]
        exact = [d for d in clean if not d.get("approx")]
        if exact and not rec["undecided"] and not (bounded and bounded["refuted"] == 0 and not bounded["undecided"]):
            out["violation"] = {"how": "refuted obligation", "message": exact[0]["obligation"],
                                "failing_input": False, "refuted": exact[:3]}
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def worker(task, tier, seed, lits, conn, sem):
    os.setpgid(0, 0)
    me = os.getpid()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(6000)
    try:
        conn.send(run_task(task, tier, seed, lits, sem))
    except BaseException as e:
        if os.getpid() != me:
            os._exit(1)
        conn.send({"task": task.name, "crash": traceback.format_exc(), "obligations": 0,
                   "discharged": 0, "violation": None, "proved": False})
    finally:
        conn.close()


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        p.kill()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--task")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)

    from contracts import props

    mod = props.load(a.prop)
    strs, ints = literals()
    tasks = mod.tasks(tier) if hasattr(mod, "tasks") else []
    if a.task:
        tasks = [t for t in tasks if a.task in t.name]
    results, pending, running = [], list(tasks), []
    sem = mp.get_context("fork").Semaphore(a.jobs)
    hard = 780 if tier == "quick" else 5400
    while pending or running:
        while pending and len(running) < a.jobs:
            t = pending.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=worker, args=(t, tier, seed, (strs, ints), w, sem))
            p.start()
            w.close()
            running.append((t, p, r))
        for item in list(running):
            t, p, r = item
            if r.poll(0.02):
                try:
                    results.append(r.recv())
                except EOFError:
                    results.append({"task": t.name, "crash": "worker died", "obligations": 0,
                                    "discharged": 0, "violation": None, "proved": False})
                p.join()
                running.remove(item)
            elif not p.is_alive():
                results.append({"task": t.name, "crash": "worker died", "obligations": 0,
                                "discharged": 0, "violation": None, "proved": False})
                running.remove(item)
        if time.time() - t0 > hard:
            for t, p, r in running:
                stop(p)
                results.append({"task": t.name, "crash": "out of time", "obligations": 0,
                                "discharged": 0, "violation": None, "proved": False})
            running = []
            pending = []
        if results and any(x.get("violation") for x in results) and tier == "quick":
            for t, p, r in running:
                stop(p)
            running, pending = [], []

    # known findings: fixed witnesses that fail on the real code
    known_lines = []
    try:
        known = json.load(open(os.path.join(HERE, "known_findings.json")))
    except FileNotFoundError:
        known = {"findings": []}
    for k in known.get("findings", []):
        if k["property"] != a.prop:
            continue
        w = getattr(mod, "witnesses", {}).get(k["witness"])
        if w is None:
            continue
        try:
            failing = w()
        except Exception as e:
            failing = f"raises {e!r}"
        if failing:
            known_lines.append(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    extra = []
    for name, w in getattr(mod, "regressions", {}).items():
        # fixed defects: the failing input of each repair, re-run on the current tree
        try:
            msg = w()
        except Exception as e:
            msg = f"raises {e!r}"
        if msg:
            extra.append({"task": name, "violation": {"how": "witness of a repaired defect", "message": str(msg),
                          "failing_input": True, "inputs": name}, "obligations": 1, "discharged": 0, "proved": False})
    results.extend(extra)

    viol = [r for r in results if r.get("violation")]
    obligations = sum(r["obligations"] for r in results)
    discharged = sum(r["discharged"] for r in results)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    bounded = [r["task"] for r in results if not r.get("proved")]
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"python check.py {a.prop} --tier {tier}",
            "back_end": "z3 (sequences, integers, datatypes) over verification conditions generated from /repo by engine/",
            "trusted_base": [
                "engine/ (symbolic evaluator of the Python subset, loop-summary rule, frame rule)",
                "z3 solver", "CPython ast/inspect for reading /repo",
                *getattr(mod, "trusted", []),
                *sorted({x for r in results for x in r.get("trusted", [])}),
            ],
            "functions_under_contract": funcs,
            "tasks": [{k: v for k, v in r.items() if k not in ("functions", "violation", "by_obligation")} for r in results],
            "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
            "solver_calls": sum(r.get("solver_calls", 0) for r in results),
            "tasks_fully_proved": [r["task"] for r in results if r.get("proved")],
            "tasks_bounded_or_undecided": bounded,
            "cross_check_evaluations": sum(r.get("evaluations", {}).get("models", 0) + r.get("evaluations", {}).get("inside", 0) for r in results if r.get("evaluations")),
            "known_findings": known_lines,
        },
        "assumptions": list(getattr(mod, "assumptions", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(ev_dir, a.prop + ".json"), "w"), indent=1, default=str)
    for r in results:
        tag = "proved" if r.get("proved") else ("CRASH" if r.get("crash") else "bounded/undecided")
        print(f"{a.prop} {r['task']}: {tag} obligations={r['obligations']} discharged={r['discharged']}"
              f" paths={r.get('paths')} solver={r.get('solver_s')}s wall={r.get('wall_s')}s"
              + (f" undecided={r.get('undecided')[:3]}" if r.get("undecided") else "")
              + (f" refuted={[d['obligation'] for d in r['refuted']][:3]}" if r.get("refuted") else ""))
        if r.get("crash"):
            print(r["crash"])
        if a.verbose:
            print(json.dumps({k: v for k, v in r.items() if k != "by_obligation"}, indent=1, default=str)[:6000])
    for l in known_lines:
        print(l)
    code = 0
    if viol:
        best = sorted(viol, key=lambda r: not r["violation"]["failing_input"])[0]
        path = os.path.join(ev_dir, f"{a.prop}.replay.json")
        json.dump({"property": a.prop, "task": best["task"], **best["violation"]}, open(path, "w"), indent=1, default=str)
        line = f"VIOLATION property={a.prop} replay={path}"
        if not best["violation"]["failing_input"]:
            line += " no-failing-input-found"
        print(best["violation"]["message"][:2000])
        print(line)
        code = 1
    elif not results or (obligations == 0 and not ev["coverage"]["cross_check_evaluations"]):
        print("no obligations were generated")
        code = 2
    return code


if __name__ == "__main__":
    try:
        rc = main()
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
