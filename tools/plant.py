"""plant.py FILE: writes seeded/<id>/ (patch, demonstration, meta) for every entry of SEEDS in FILE.
An entry: id -> dict(prop, edits=[(file, old, new)], demo=python source, needs, breaks)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for k, s in ns["SEEDS"].items():
    if only and k not in only:
        continue
    d = tempfile.mkdtemp(prefix="plant")
    subprocess.run(["git", "-C", "/repo", "worktree", "list"], check=True, capture_output=True)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {d} && cd {d} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        assert t.count(old) == 1, (k, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True, check=True).stdout
    o = os.path.join(V, "seeded", k)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    open(os.path.join(o, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(o, "demo.sh"), "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    shutil.rmtree(d)
    print("planted", k)
