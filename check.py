#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property on /repo's current working tree
   check.py --setup              build everything once (nothing later depends on it)
   check.py --list
Exit 0: held on everything explored; 1: VIOLATION (replayed natively); 2: nothing could be decided."""
import concurrent.futures as cf
import fcntl, json, os, re, resource, shlex, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
os.chdir(VERIF)
sys.path.insert(0, os.path.join(VERIF, "lib"))
import gen
import kanirun
from job import Job
from props import PROPS, LEVELS

BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


def log(*a):
    print(*a, flush=True)


def build(bins):
    """Regenerates the crates and builds the harness binaries; returns {bin: reason} of the ones that do not build."""
    gen.gen_deps()
    gen.gen_repo()
    bad = {}

    def one(side):
        cmd = ["cargo", "build", "--offline", "--release", "--keep-going", "--manifest-path",
               f"harness/{side}/Cargo.toml", "--target-dir", f"{BUILD}/target-{side}"]
        for b in bins:
            cmd += ["--bin", b]
        r = gen.run(cmd)
        if r.returncode == 0:
            return {}
        out = {}
        for b in bins:
            if re.search(r'could not compile `harness` \(bin "%s"\)' % b, r.stderr):
                out[b] = r.stderr
        if not out:
            out = {b: r.stderr for b in bins}
        return out

    with cf.ThreadPoolExecutor(2) as ex:
        for side, res in zip(("sym", "nat"), ex.map(one, ("sym", "nat"))):
            for b, e in res.items():
                errs = re.findall(r"^error.*(?:\n.*){0,6}", e, re.M)
                bad[b] = f"{side}: " + (errs[0] if errs else e[-600:])
    return bad


STOP = threading.Event()
PROCS = set()
LOCK = threading.Lock()


def popen(cmd, timeout, slow=True):
    if STOP.is_set():
        return None, "", "stopped"
    env = dict(gen.env(), **({} if slow else {"VP_NO_SLOW": "1"}))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    with LOCK:
        PROCS.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", "timeout"
    finally:
        with LOCK:
            PROCS.discard(p)


def stop_all():
    STOP.set()
    with LOCK:
        for p in PROCS:
            p.kill()


def replay_cmd(job, only, path):
    c = [f"{BUILD}/target-nat/release/{job.bin}"] + job.args()
    if only:
        c += ["--only", only]
    return c + ["--replay", path]


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def replay(job, only, inputs, path, slow=True):
    with open(path, "w") as f:
        f.write("# replay: python3 check.py --replay %s\n" % os.path.relpath(path, VERIF))
        f.write("# args: %s %s %s\n" % (job.bin, " ".join(job.args()), ("--only " + only) if only else ""))
        for k, v in inputs.items():
            f.write(f"{k} {v}\n")
    # The crate's own slow assertions compare heights with no allowance for the numeric solver's
    # accuracy; outside the exact encoding they only count when the solver found the failure.
    env = dict(os.environ, **({} if slow else {"VP_NO_SLOW": "1"}))
    try:
        r = subprocess.run(replay_cmd(job, only, path), capture_output=True, text=True, timeout=60, env=env, preexec_fn=limit_memory)
    except subprocess.TimeoutExpired:
        return 3, "does not return within 60 s"
    return r.returncode, (r.stdout.strip().splitlines() or [""])[-1] + (" " + r.stderr.strip()[-200:] if r.returncode not in (0, 1, 2) else "")


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == pid:
                    out.append(d)
    return out


def main():
    if sys.argv[1] == "--list":
        for k, v in PROPS.items():
            log(k, v["title"])
        return 0
    lock = open(os.path.join(VERIF, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if sys.argv[1] == "--setup":
        bins = sorted({j.bin for p in PROPS.values() for t in ("quick", "thorough") for j in p["jobs"](t)})
        bad = build(bins)
        for b, e in bad.items():
            log("NOTE:", b, "does not build:", e)
        return 0
    if sys.argv[1] == "--replay":
        lines = open(sys.argv[2]).read().splitlines()
        a = [l for l in lines if l.startswith("# args: ")][0][8:].split()
        if a[0] == "kani":
            return kanirun.replay(sys.argv[2])
        build([a[0]])
        try:
            return subprocess.run([f"{BUILD}/target-nat/release/{a[0]}"] + a[1:] + ["--replay", sys.argv[2]], timeout=60, preexec_fn=limit_memory).returncode
        except subprocess.TimeoutExpired:
            log("FAILED returns (no result within 60 s)")
            return 1
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(f"replay-{pid}-"):
            os.remove(os.path.join(EVID, f))
    jobs = prop["jobs"](tier)
    kjobs = prop.get("kani", lambda t: [])(tier)
    only = ",".join(prop.get("only", []))
    bad = build(sorted({j.bin for j in jobs})) if jobs else {}
    t_build = time.time() - t0
    for b, e in bad.items():
        log(f"NOTE: harness {b} does not build against this tree and is skipped: {e[:800]}")
    run = sorted([j for j in jobs if j.bin not in bad], key=lambda j: -j.secs)
    known = known_findings(pid)
    res, violations, unconfirmed, known_hit, notes = [], [], [], [], []
    validated = [0, 0]
    nrep = [0]

    def is_known(job, label, inputs):
        for k in known:
            if label.startswith("panic: "):
                if k.get("label") != "panic" or k["panic"] not in label:
                    continue
                label = "panic"
            if k.get("job", job.name) == job.name and k.get("label") == label and all(inputs.get(a) == b for a, b in k.get("inputs", {}).items()):
                return k
        return None

    def failed_labels(out):
        return [out[7:]] if out.startswith("FAILED panic") else out[7:].split(",") if out.startswith("FAILED ") else ["panic"]

    def work(job):
        if STOP.is_set():
            return
        cmd = [f"{BUILD}/target-sym/release/{job.bin}"] + job.args() + ["--all", "--seconds", str(job.secs), "--seed", str(job.seed * seed)]
        if only:
            cmd += ["--only", only]
        cmd += shlex.split(job.opts)
        rc, o, e = popen(cmd, job.secs * 2 + 90, job.slow)
        if STOP.is_set():
            return
        try:
            d = json.loads(o)
        except Exception:
            with LOCK:
                notes.append(f"{job.name}: no result ({e.strip()[-300:]})")
            return
        # a run that was cut off: the native code has to return on its inputs
        for s in ([d["stuck"]] if "stuck" in d else d["cut_off"]):
            with LOCK:
                nrep[0] += 1
                path = os.path.join(EVID, f"replay-{pid}-{nrep[0]}.txt")
            rc, out = replay(job, only, s, path, slow=False)
            if rc == 3 or rc < 0:
                with LOCK:
                    violations.append({"job": job.name, "label": "returns", "detail": "the code does not return", "inputs": s, "native": out, "replay": os.path.relpath(path, VERIF)})
                stop_all()
                return
            os.remove(path)
        if "stuck" in d:
            with LOCK:
                notes.append(f"{job.name}: a run took too long; natively it returns")
            return
        vs = d.pop("violations")
        # engine validation: sampled paths are run natively too
        for s in d["samples"][:4]:
            with LOCK:
                nrep[0] += 1
                path = os.path.join(EVID, f"replay-{pid}-{nrep[0]}.txt")
            rc, out = replay(job, only, s, path, slow=False)
            with LOCK:
                validated[0] += 1
            if rc == 0 or rc == 2:
                validated[1] += rc == 0
                os.remove(path)
            elif rc == 1 and all(is_known(job, l, s) for l in failed_labels(out)):
                os.remove(path)
            elif rc == 1:
                vs.append({"label": "native", "detail": "sampled path fails natively: " + out, "inputs": s})
                os.remove(path)
        for v in vs:
            slow = v["label"] != "native" and job.slow
            if STOP.is_set():
                return
            with LOCK:
                nrep[0] += 1
                path = os.path.join(EVID, f"replay-{pid}-{nrep[0]}.txt")
            rc, out = replay(job, only, v["inputs"], path, slow)
            ent = {"job": job.name, "label": v["label"], "detail": v["detail"][:300], "inputs": v["inputs"], "native": out}
            k = is_known(job, v["label"] + ": " + v["detail"] if v["label"] == "panic" else v["label"], v["inputs"])
            with LOCK:
                if rc == 0 or rc == 2:
                    unconfirmed.append(ent)
                    os.remove(path)
                elif k is not None and all(is_known(job, l, v["inputs"]) for l in failed_labels(out)):
                    known_hit.append(k)
                    os.remove(path)
                else:
                    ent["replay"] = os.path.relpath(path, VERIF)
                    violations.append(ent)
        with LOCK:
            res.append((job, d))
        if violations:
            stop_all()

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        futs = [ex.submit(work, j) for j in run]
        kres = []
        for kj in kjobs:
            r = kanirun.run(kj, pid, tier)
            kres.append(r)
            if r["violation"]:
                violations.append(r["violation"])
                stop_all()
                break
        for f in futs:
            f.result()

    for k in known:
        log(f"KNOWN-FINDING: property={pid} {k['what']}")
    decided = [r for r in res] + [k for k in kres if k["ok"] is not None]
    agg = {}
    for _, d in res:
        for k in ("paths", "assumed_away", "flip_queries", "assert_queries", "trivial_asserts", "diverged", "pending", "unknown",
                  "rounded_ops", "nonlinear_ops", "concretized"):
            agg[k] = agg.get(k, 0) + d.get(k, 0)
    solver = sum(d["solver_s"] for _, d in res) + sum(k["seconds"] for k in kres)
    fams = []
    for j, d in sorted(res, key=lambda x: x[0].name):
        fams.append({"family": j.name, "exhausted": bool(d["complete"]), "paths": d["paths"], "pending": d["pending"],
                     "assumed_away": d["assumed_away"], "solver_queries": d["flip_queries"] + d["assert_queries"],
                     "solver_s": d["solver_s"], "slowest_query_s": d["slowest_query_s"], "diverged": d["diverged"],
                     "unknown": d["unknown"], "engine_limits": d["engine_limits"], "covers": d["covers"], "inputs": d["inputs"],
                     "assertions_checked": d["checks"]})
    vac = [f["family"] for f in fams if not any(v for v in f["covers"].values())]
    samples = [{"family": j.name, "inputs": d["samples"][0]} for j, d in res if d["samples"]][:6]
    cov = {
        "states": agg.get("paths", 0) + sum(k["harnesses"] for k in kres),
        "transitions": agg.get("flip_queries", 0) + agg.get("assert_queries", 0) + sum(k["checks"] for k in kres),
        "traces_validated_against_impl": validated[1] + sum(k.get("validated", 0) for k in kres),
        "samples": samples + [k["name"] for k in kres],
        "explanation": "states = path classes of the real code explored by the symbolic engine (plus Kani harnesses); "
                       "transitions = solver queries (branch feasibility and assertion queries, Kani checks); "
                       "traces = sampled path models re-run in the unmodified natively compiled code with the same verdict.",
        "functions_encoded": prop["encodes"],
        "bounds": prop["bounds"],
        "families": fams,
        "kani": kres,
        "families_exhausted": sum(f["exhausted"] for f in fams),
        "families_total": len(jobs),
        "not_run": [j.name for j in jobs if j.bin in bad] + notes,
        "vacuous_families": vac,
        "solver_s": round(solver, 3),
        "totals": agg,
        "unconfirmed_counterexamples": unconfirmed[:20],
        "build_s": round(t_build, 1),
        "known_findings_met": len(known_hit),
        "violation_details": violations[:10],
    }
    if LEVELS.get(pid, "model_checking") == "exploration":
        cov["evaluations"] = agg.get("paths", 0)
        cov["distinct_nontrivial"] = agg.get("assert_queries", 0)
        cov["rule"] = ("one case per path class of the real code reached by symbolic execution; non-trivial: its assertions needed a solver query")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVELS.get(pid, "model_checking"), "coverage": cov,
          "assumptions": prop["assumes"], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for f in fams:
        log(f"  {'exhausted' if f['exhausted'] else 'partial  '} {f['family']}: {f['paths']} paths, {f['solver_queries']} queries, {f['solver_s']:.1f} s solver, pending {f['pending']}, covers {f['covers']}")
    for k in kres:
        log(f"  kani {k['name']}: ok={k['ok']} {k['checks']} checks {k['seconds']} s {k.get('note','')}")
    for n in notes:
        log("NOTE:", n)
    if vac:
        log("NOTE: families that reached no witness:", vac)
    if unconfirmed:
        log(f"NOTE: {len(unconfirmed)} symbolic counterexamples did not reproduce natively (not reported)")
    if violations:
        for v in violations[:6]:
            log(f"  {v['job']}: {v['label']} {v['detail'][:200]} inputs={v['inputs']} native: {v['native']}")
        log(f"VIOLATION property={pid} replay={violations[0]['replay']}")
        return 1
    if not decided:
        log("ERROR: nothing could be decided")
        return 2
    log(f"OK {pid} {prop['title']} ({tier}, {time.time()-t0:.0f} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
