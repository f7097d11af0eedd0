"""make(id, property, edits=[(file, old, new)], demo=python source, needs, breaks): writes seeded/<id>/."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export RECAP_HOME="$work/home" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
cd "$work" && /opt/venv/bin/python "$here/demo.py"
'''
def make(id, property, edits, demo, needs, breaks):
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), w + "/r"], check=True)
        for f, old, new in edits:
            p = f"{w}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w + "/r", capture_output=True, text=True, check=True).stdout
        d = f"{HERE}/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
