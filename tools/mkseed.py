"""mkseed.py: (re)creates a seeded change from (file, old, new) replacements."""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"


def seed(id, prop, reps, needs, breaks, demo, extra=None):
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in reps:
        p = os.path.join(w, "neural_network_lyapunov", f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    o = os.path.join(V, id)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.py", "w").write(
        "import os\nimport sys\nsys.path.insert(0, os.getcwd())\n" +
        demo.lstrip("\n"))
    for n, t in (extra or {}).items():
        open(os.path.join(o, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print("seeded", id)
