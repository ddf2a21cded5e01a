#!/opt/venv/bin/python
"""Development only: apply every planted change (or those named) to a scratch copy of /repo and run its property's check there.
try_seeds.py [--all] [ID ...]    with --all: every check"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "--all"]
for sid in args or sorted(os.listdir(V + "/seeded")):
    meta = json.load(open(f"{V}/seeded/{sid}/meta.json"))
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    subprocess.run(["git", "apply", f"{V}/seeded/{sid}/patch.diff"], cwd=d + "/repo", check=True)
    shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    ids = [f"C{i:02d}" for i in range(1, 39)] if "--all" in sys.argv else [meta["property"]]
    out = []
    for i in ids:
        r = subprocess.run(["/opt/venv/bin/python", "check.py", i], cwd=d + "/verif", env=dict(os.environ, VERIF_REPO=d + "/repo"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = r.stdout.decode()
        hit = r.returncode == 1 and f"VIOLATION property={i} " in text
        out.append((i, "caught" if hit else "MISSED" if r.returncode == 0 else f"rc {r.returncode}",
                    text.split("VIOLATION", 1)[1].splitlines()[1].strip()[:100] if hit else ""))
    shutil.rmtree(d)
    if "--all" in sys.argv:
        print(sid, meta["property"], "caught by", " ".join(i for i, x, _ in out if x == "caught"), "|", " ".join(f"{i}:{x}" for i, x, _ in out if x.startswith("rc")), flush=True)
    else:
        print(sid, *out[0], flush=True)
