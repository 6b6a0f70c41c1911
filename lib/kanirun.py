"""Runs Kani (CBMC) harnesses of /verif/kani on the current tree and replays counterexamples natively."""
import os, re, subprocess, sys, time
import gen

KDIR = os.path.join(gen.VERIF, "kani")
TGT = os.path.join(gen.BUILD, "kani")
EVID = os.path.join(gen.VERIF, "evidence")


def kani(harness, extra, timeout):
    e = gen.env()
    e.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["cargo", "kani", "--lib", "--target-dir", TGT, "--harness", harness, "--exact"] + extra
    try:
        r = subprocess.run(cmd, cwd=KDIR, env=e, capture_output=True, text=True, timeout=timeout)
        return r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return None


def checks(out):
    """[(status, description, location)]"""
    res = []
    for m in re.finditer(r"^Check \d+: (\S+)\n\t - Status: (\w+)\n\t - Description: \"((?:.|\n)*?)\"(?:\n\t - Location: (.*))?$", out, re.M):
        res.append((m.group(2), m.group(3), m.group(4) or "", m.group(1)))
    return res


def relevant(c):
    """Our assertions, and panics in the code under test; float-to-NaN and overflow notes are not errors in Rust."""
    st, desc, loc, name = c
    if st != "FAILURE":
        return False
    if re.search(r"NaN on|arithmetic overflow on floating|unwinding assertion", desc):
        return False
    return True


def run(harness, pid, tier):
    t0 = time.time()
    res = {"name": harness, "ok": None, "checks": 0, "harnesses": 1, "seconds": 0, "violation": None, "note": ""}
    gen.gen_deps()
    gen.gen_repo()
    out = kani(harness, [], 400 if tier == "quick" else 1500)
    if out is None:
        res["note"] = "time limit"
        return res
    cs = checks(out)
    res["checks"] = len([c for c in cs if ".cover." not in c[3]])
    res["seconds"] = round(time.time() - t0, 1)
    if not cs:
        res["note"] = "does not build: " + "; ".join(re.findall(r"^error.*(?:\n.*){0,4}", out, re.M)[:2] or [out[-400:]])
        return res
    covers = [c for c in cs if ".cover." in c[3]]
    res["covers_satisfied"] = sum(c[0] == "SATISFIED" for c in covers)
    bad = [c for c in cs if ".cover." not in c[3] and relevant(c)]
    unwind = [c for c in cs if c[0] == "FAILURE" and "unwinding assertion" in c[1]]
    if not bad:
        und = [c for c in cs if ".cover." not in c[3] and c[0] == "UNDETERMINED"]
        if unwind or und:
            res["note"] = "unwinding bound reached" if unwind else "undetermined checks"
            return res
        if covers and not res["covers_satisfied"]:
            res["note"] = "vacuous"
            return res
        res["ok"] = True
        return res
    out2 = kani(harness, ["-Z", "concrete-playback", "--concrete-playback=print"], 800) or ""
    path = os.path.join(EVID, f"replay-{pid}-kani-{harness}.txt")
    for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[((?:.|\n)*?)\n    \];", out2):
        vals = re.findall(r"vec!\[([^\]]*)\]", blk)
        os.makedirs(EVID, exist_ok=True)
        with open(path, "w") as f:
            f.write(f"# args: kani {harness}\n" + "".join(v + "\n" for v in vals))
        rc, o = native(path)
        if rc == 1:
            res["ok"] = False
            res["violation"] = {"job": "kani " + harness, "label": bad[0][1][:200], "detail": bad[0][2][:200], "inputs": vals,
                                "native": o.strip()[-300:], "replay": os.path.relpath(path, gen.VERIF)}
            return res
        os.remove(path)
    res["note"] = "counterexample did not reproduce natively: " + bad[0][1][:200]
    return res


def native(path):
    a = [l for l in open(path).read().splitlines() if l.startswith("# args: ")][0].split()
    b = gen.run(["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(KDIR, "Cargo.toml"),
                 "--target-dir", os.path.join(gen.BUILD, "kreplay")])
    if b.returncode:
        return 3, b.stderr[-300:]
    r = subprocess.run([os.path.join(gen.BUILD, "kreplay", "release", "kreplay"), a[3], path], capture_output=True, text=True)
    return r.returncode, r.stdout


def replay(path):
    gen.gen_deps()
    gen.gen_repo()
    rc, o = native(path)
    print(o)
    return rc
