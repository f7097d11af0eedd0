#!/usr/bin/env python3
"""Validate planted bugs in a scratch copy: tools/seed.py ID... [--check]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
check = "--check" in sys.argv
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else [])
for sid in ids:
    d = f"{HERE}/seeded/{sid}"
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = f"{w}/repo"
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), r, symlinks=True)
        dd = f"{w}/demo"
        shutil.copytree(d, dd)
        env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}
        def demo():
            return subprocess.run(["bash", f"{dd}/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        a = demo()
        ap = subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=r, capture_output=True, text=True)
        b = demo()
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "tests/unit", "-p", "no:cacheprovider"], cwd=r, env={**env, "PYTHONPATH": r}, capture_output=True, text=True)
        tail = t.stdout.strip().splitlines()[-1:] 
        ok = a.returncode == 0 and ap.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print(sid, "OK" if ok else "BAD", f"clean={a.returncode} apply={ap.returncode} patched={b.returncode} tests={tail}")
        if not ok:
            print(a.stdout[-500:], a.stderr[-800:], ap.stderr, b.stdout[-300:], t.stdout[-1500:])
        if check:
            pid = json.load(open(f"{d}/meta.json"))["property"]
            c = subprocess.run([PY, f"{HERE}/check.py", pid], env={**env, "VERIF_REPO": r, "VERIF_EVIDENCE": f"{w}/ev"}, capture_output=True, text=True)
            print("   check", pid, "rc", c.returncode, "|", *[l[:300] for l in c.stdout.splitlines()[-2:]], sep=" ")
    finally:
        shutil.rmtree(w, ignore_errors=True)
