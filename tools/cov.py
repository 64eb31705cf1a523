"""cov.py IDS..: lines of the library no driver of the given properties (default: all) executes in the quick tier."""
import json, os, subprocess, sys, tempfile
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
if os.environ.get("VX_COVOUT") and __name__ == "__main__" and sys.argv[1] == "--drv":
    import runpy
    out, sys.argv = os.environ["VX_COVOUT"], sys.argv[2:]
    M, hit = sys.monitoring, set()
    M.use_tool_id(3, "cov")

    def line(code, n):
        if "/laplax/" in code.co_filename:
            hit.add((code.co_filename.split("/laplax/")[-1], n))
        return M.DISABLE
    M.register_callback(3, M.events.LINE, line)
    M.set_events(3, M.events.LINE)
    sys.path.insert(0, os.path.dirname(sys.argv[0]))
    try:
        runpy.run_path(sys.argv[0], run_name="__main__")
    finally:
        json.dump(sorted(hit), open(out, "w"))
    sys.exit()
import check as C
tmp = tempfile.mkdtemp(prefix="cov")
allhit = set()
import concurrent.futures as cf


def job(a):
    P, s, gen, pid = a
    o = os.path.join(tmp, f"{pid}-{s}.json")
    env = {**os.environ, "JAX_PLATFORMS": "cpu", "VX_COVOUT": o, "PYTHONDONTWRITEBYTECODE": "1", "TQDM_DISABLE": "1", "PYTHONHASHSEED": "0",
           "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false --xla_disable_hlo_passes=constant_folding intra_op_parallelism_threads=1",
           "PYTHONPATH": C.REPO + os.pathsep + os.path.join(HERE, "harness")}
    subprocess.run([C.PY, "-B", os.path.abspath(__file__), "--drv", f"{HERE}/harness/{P['driver']}.py", os.path.join(tmp, f"t{pid}{s}"), str(s), "8", "quick", "1", gen or "-"], cwd=tmp, env=env, capture_output=True)
    return o


jobs = []
for pid in sys.argv[1:] or sorted(C.PROPS):
    P = C.PROPS[pid]
    d = os.path.join(tmp, pid)
    os.mkdir(d)
    gen = C.run_gen(P["gen"], d, "quick", 1)[0]
    jobs += [(P, s, gen, pid) for s in range(8)]
with cf.ThreadPoolExecutor(8) as ex:
    for o in ex.map(job, jobs):
        if os.path.exists(o):
            allhit |= {tuple(x) for x in json.load(open(o))}
        else:
            print("no coverage from", o)
for root, _, fs in os.walk(C.REPO + "/laplax"):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.join(root, f)
        src = open(p).read()
        lines, todo = set(), [compile(src, p, "exec")]
        while todo:
            c = todo.pop()
            if c.co_name != "<module>":
                lines |= {n for _, _, n in c.co_lines() if n and n != c.co_firstlineno}
            todo += [k for k in c.co_consts if hasattr(k, "co_code")]
        r = os.path.relpath(p, C.REPO + "/laplax")
        for n in sorted(lines - {b for a, b in allhit if a == r}):
            print(f"{r}:{n}: {src.splitlines()[n - 1].strip()}")
