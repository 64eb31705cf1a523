#!/usr/bin/env python3
"""Runs one property check: check.py <ID> [--tier quick|thorough] [--replay FILE] [--keep].

1. TLC model-checks the design modules of the property.
2. TLC generates behaviours / configurations from the specification.
3. The driver replays them into the real code in /repo and records a trace.
4. TLC validates every recorded trace against the specification.
Exit 0: held; 1: VIOLATION; 2: the machinery itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks_registry import PROPS  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VX_REPO", "/repo")  # development only: checks run on /repo
FAILRE = re.compile(r'FAIL\|(\d+)\|([^|"]*)\|([^"]*)"')


class Machinery(Exception):
    pass


def tlc(mod, cfg, tmp, env=None, workers=1, mem="1500m", timeout=800, extra=()):
    meta = tempfile.mkdtemp(dir=tmp)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", f"-Xmx{mem}",
           f"-DTLA-Library={HERE}/spec", f"-Djava.io.tmpdir={tmp}", "-cp", JARS, "tlc2.TLC",
           "-config", f"{HERE}/spec/{cfg}", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", *extra, f"{HERE}/spec/{mod}.tla"]
    t = time.time()
    r = subprocess.run(cmd, cwd=tmp, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    o = r.stdout + r.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", ",")) or re.search(r"([\d,]+) states generated", o)
    gen = dist = 0
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o)
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    return dict(rc=r.returncode, out=o, gen=gen, distinct=dist, wall=round(time.time() - t, 2))


def sec(o, n=4000):
    return o[-n:]


def run_mc(job, tmp, tier):
    if job.get("tier") and job["tier"] != tier:
        return None
    extra = list(job.get("extra", ()))
    r = tlc(job["mod"], job.get("cfg_" + tier, job["cfg"]), tmp, workers=job.get("workers", 2), mem=job.get("mem", "3g"),
            timeout=job.get("timeout", 850 if tier == "quick" else 7200), extra=extra, env={"VTIER": tier})
    if r["rc"] != 0 or "Error:" in r["out"]:
        raise Machinery(f"design model {job['mod']} not accepted by TLC:\n{sec(r['out'])}")
    if job.get("min_distinct", 1) > r["distinct"] and not job.get("assume_only"):
        raise Machinery(f"design model {job['mod']}: only {r['distinct']} states")
    return dict(module=job["mod"], cfg=job.get("cfg_" + tier, job["cfg"]), states=r["distinct"], transitions=r["gen"], wall=r["wall"])


def run_gen(g, tmp, tier, seed):
    out = os.path.join(tmp, "gen.ndjson")
    extra = [str(x).replace("$SEED", str(seed)) for x in g.get("extra_" + tier, g.get("extra", ()))]
    r = tlc(g["mod"], g.get("cfg_" + tier, g["cfg"]), tmp, env={"OUT": out, "VTIER": tier}, mem="4g", extra=extra)
    if r["rc"] != 0 and "-simulate" not in extra:
        raise Machinery(f"generator {g['mod']} failed:\n{sec(r['out'])}")
    if not os.path.exists(out):
        rows = re.findall(r'^"?GEN\|(.*?)"?$', r["out"], re.M)
        if not rows:
            raise Machinery(f"generator {g['mod']} wrote nothing:\n{sec(r['out'])}")
        seen = []
        for x in rows:
            x = x.replace('\\"', '"').replace("\\\\", "\\")
            seen.append(x)
        with open(out, "w") as f:
            f.write("\n".join(dict.fromkeys(seen)) + "\n")
    return out, r


def run_driver(drv, tmp, shard, nsh, tier, seed, gen, only=None):
    out = os.path.join(tmp, f"trace{shard}.ndjson")
    cmd = [PY, "-B", f"{HERE}/harness/{drv}.py", out, str(shard), str(nsh), tier, str(seed), gen or "-"]
    if only is not None:
        cmd += ["--only", ",".join(map(str, only))]
    env = {**os.environ, "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "HOME": "/root",
           "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false --xla_disable_hlo_passes=constant_folding intra_op_parallelism_threads=1",
           "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TQDM_DISABLE": "1",
           "PYTHONPATH": REPO + os.pathsep + os.path.join(HERE, "harness"), "PYTHONHASHSEED": "0"}
    r = subprocess.run(cmd, cwd=tmp, env=env, capture_output=True, text=True, timeout=850 if tier == "quick" else 14000)
    if r.returncode != 0:
        raise Machinery(f"driver {drv} shard {shard}: exit {r.returncode}\n{sec(r.stdout)}\n{sec(r.stderr)}")
    st = json.loads(r.stdout.strip().splitlines()[-1])
    return out, st


def run_trace(mod, cfg, path, tmp, tier):
    n = sum(1 for _ in open(path))
    if n == 0:
        return dict(fails=[], events=0, gen=0, distinct=0)
    r = tlc(mod, cfg, tmp, env={"TRACE": path, "VTIER": tier}, mem="3g", timeout=880 if tier == "quick" else 7000)
    fails = [(int(a), b, c) for a, b, c in FAILRE.findall(r["out"])]
    consumed = r["distinct"] - 1
    if r["rc"] != 0 or consumed != n:
        # The trace is not a behaviour of the specification beyond event `consumed`.
        o = r["out"]
        if re.search(r"OutOfMemory|StackOverflow|Parsing or semantic analysis failed|could not be found|Unknown operator", o) or r["distinct"] == 0:
            raise Machinery(f"trace validation {mod} could not run:\n{sec(o)}")
        with open(path) as f:
            line = json.loads(f.readlines()[max(0, min(consumed, n - 1))])
        m = re.search(r"Error: (.*)", o)
        fails.append((line["sc"], line["ev"], "not-a-behaviour: " + (m.group(1)[:200] if m else f"stopped after {consumed} of {n} events")))
    return dict(fails=fails, events=n, gen=r["gen"], distinct=r["distinct"], wall=r["wall"])


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def check(pid, tier, seed, replay=None, keep=False):
    t0 = time.time()
    P = PROPS[pid]
    tmp = tempfile.mkdtemp(prefix=f"vx_{pid}_")
    try:
        nsh = P.get("shards", 8) if replay is None else 1
        only = None
        if replay:
            rp = json.load(open(replay))
            only, tier, seed = [rp["scenario"]], rp["tier"], rp["seed"]
        mc, stats, results = [], [], []
        with cf.ThreadPoolExecutor(10) as ex:
            mcf = [ex.submit(run_mc, j, tmp, tier) for j in ([] if replay else P.get("mc", []))]
            gen = None
            genstat = None
            if P.get("gen"):
                gen, genstat = run_gen(P["gen"], tmp, tier, seed)

            def one(s):
                o, st = run_driver(P["driver"], tmp, s, nsh, tier, seed, gen, only)
                return o, st, run_trace(P["trace"], P.get("trace_cfg", P["trace"] + ".cfg"), o, tmp, tier)
            for f in [ex.submit(one, s) for s in range(nsh)]:
                results.append(f.result())
            mc = [x for x in (f.result() for f in mcf) if x]
        scen = results[0][1]["scenarios"]
        events = sum(r[2]["events"] for r in results)
        fails = []
        evc, samples, scs_seen = {}, [], set()
        for o, st, tr in results:
            rows = [json.loads(x) for x in open(o)]
            for e in rows:
                evc[e["ev"]] = evc.get(e["ev"], 0) + 1
                scs_seen.add(e["sc"])
                if len(samples) < 3 and e["ev"] not in ("Begin", "Crash") and evc[e["ev"]] == 1:
                    samples.append(json.loads(json.dumps(e)[:3000]) if len(json.dumps(e)) < 3000 else {k: str(v)[:200] for k, v in e.items()})
            by = {}
            for e in rows:
                by.setdefault(e["sc"], []).append(e)
            for (sc, ev, clause) in tr["fails"]:
                label = next((e.get("label", "") for e in by.get(sc, []) if "label" in e), "")
                fails.append(dict(scenario=sc, ev=ev, clause=clause, label=label, trace=by.get(sc, [])))
        if events == 0 or (replay is None and len(scs_seen) < P.get("min_scenarios", 1)):
            raise Machinery(f"only {len(scs_seen)} scenarios recorded")
        known = [k for k in load_known() if k["property"] == pid]
        viol, kn = [], set()
        for f in fails:
            k = next((k for k in known if k["ev"] == f["ev"] and k["clause"] == f["clause"] and k["label"] == f["label"]), None)
            if k:
                kn.add(k["what"])
            else:
                viol.append(f)
        for w in sorted(kn):
            print(f"KNOWN-FINDING: property={pid} {w}")
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", violations=len(viol), wall_s=round(time.time() - t0, 1),
                  coverage=dict(
                      states=sum(m["states"] for m in mc) + (genstat["distinct"] if genstat else 0),
                      transitions=sum(m["transitions"] for m in mc) + (genstat["gen"] if genstat else 0),
                      traces_validated_against_impl=len(scs_seen),
                      events_validated=events, events_by_action=evc, models=mc,
                      generator=dict(module=P["gen"]["mod"], states=genstat["distinct"]) if genstat else None,
                      scenarios_available=scen, samples=samples),
                  assumptions=P.get("assumptions", []))
        if not replay and REPO == "/repo":
            os.makedirs(f"{HERE}/evidence", exist_ok=True)
            with open(f"{HERE}/evidence/{pid}.json", "w") as f:
                json.dump(ev, f, indent=1)
        print(f"{pid} {tier}: models={[(m['module'], m['states']) for m in mc]} traces={len(scs_seen)} events={events} "
              f"fails={len(viol)} wall={time.time() - t0:.1f}s")
        if viol:
            os.makedirs(f"{HERE}/replays", exist_ok=True)
            seen = set()
            first = None
            for f in viol:
                kk = (f["ev"], f["clause"])
                if kk in seen:
                    continue
                seen.add(kk)
                h = hashlib.sha1(json.dumps([f["scenario"], f["ev"], f["clause"]]).encode()).hexdigest()[:8]
                path = f"{HERE}/replays/{pid}-{h}.json"
                with open(path, "w") as g:
                    json.dump(dict(property=pid, tier=tier, seed=seed, **f, rerun=f"python3 check.py {pid} --replay {path}"), g, indent=1)
                first = first or path
                if len(seen) <= 12:
                    print(f"  rejected: scenario {f['scenario']} [{f['label']}] event {f['ev']} clause {f['clause']} -> {path}")
            print(f"VIOLATION property={pid} replay={first}")
            return 1
        return 0
    except Machinery as e:
        print(f"MACHINERY {pid}: {e}", file=sys.stderr)
        return 2
    finally:
        if keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    rp = a[a.index("--replay") + 1] if "--replay" in a else None
    sys.exit(check(a[0], tier, int(os.environ.get("VERIF_SEED", "1")), rp, "--keep" in a))
