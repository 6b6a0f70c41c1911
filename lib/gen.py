"""Regenerates, from /repo's current working tree, the crates that the checks run.

  build/gen/sym/{polycool,kurbo,linesweeper}  f64 -> symf::S (symbolic execution)
  build/gen/nat/linesweeper                   untouched arithmetic, private items made public
                                              (used to replay counterexamples natively)
"""
import glob, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GEN = os.path.join(BUILD, "gen")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
HOOKS = ["intersect_cubics", "y_subsegment"]


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, env=env(), text=True, capture_output=True, **kw)


def xform_bin():
    b = os.path.join(BUILD, "xform", "release", "xform")
    src = os.path.join(VERIF, "xform", "src", "main.rs")
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        r = run(["cargo", "build", "--offline", "--release", "--manifest-path",
                 os.path.join(VERIF, "xform", "Cargo.toml"), "--target-dir", os.path.join(BUILD, "xform")])
        if r.returncode:
            sys.stderr.write(r.stderr[-4000:])
            raise SystemExit(3)
    return b


def registry(name):
    c = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/" + name)))
    if not c:
        raise SystemExit(f"{name} is not in the cargo registry cache")
    return c[0]


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


KURBO_PATCHES = {
    "arc.rs": [("use core::{\n    f64::consts::{FRAC_PI_2, PI},\n", "use core::f64::consts::{FRAC_PI_2, PI};\nuse core::{\n")],
    "circle.rs": [("use core::{\n    f64::consts::{FRAC_PI_2, PI},\n", "use core::f64::consts::{FRAC_PI_2, PI};\nuse core::{\n")],
    "stroke.rs": [("use core::{borrow::Borrow, f64::consts::PI};", "use core::borrow::Borrow;\nuse core::f64::consts::PI;")],
    "triangle.rs": [],
    "offset.rs": [],
}


def kurbo_src():
    """A copy of the kurbo source with a few `use`/const items put in a form xform understands."""
    src = os.path.join(registry("kurbo-0.12.0"), "src")
    dst = os.path.join(GEN, "src-kurbo")
    for f in sorted(os.listdir(src)):
        t = open(os.path.join(src, f)).read()
        for a, b in KURBO_PATCHES.get(f, []):
            assert a in t, (f, a)
            t = t.replace(a, b)
        if f == "triangle.rs":
            # drop a const that needs const float arithmetic
            t = re.sub(r"pub const EQUILATERAL: Self = Self::from_coords\((?:.|\n)*?\n    \);", "", t)
        if f == "offset.rs":
            t = t.replace("const A_WEIGHTS: [f64; N_LSE] = mk_a_weights(false);", "const A_WEIGHTS: [f64; N_LSE] = [0.0; N_LSE];")
            t = t.replace("const B_WEIGHTS: [f64; N_LSE] = mk_a_weights(true);", "const B_WEIGHTS: [f64; N_LSE] = [0.0; N_LSE];")
        write(os.path.join(dst, f), t)
    return dst


PKG = """[package]
name = "{name}"
version = "{version}"
edition = "2021"
[workspace]
[features]
default = ["std"]
std = []
slow-asserts = []
[dependencies]
{deps}
"""


def gen_deps():
    x = xform_bin()
    stamp = os.path.join(GEN, "deps.stamp")
    key = VERIF + str(os.path.getmtime(x)) + str(os.path.getmtime(__file__))
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    d = os.path.join(GEN, "sym")
    symf = os.path.join(VERIF, "symf")
    for name, ver, src, deps in [
        ("polycool", "0.4.0", os.path.join(registry("polycool-0.4.0"), "src"), ""),
        ("kurbo", "0.12.0", kurbo_src(), 'smallvec = "1"\npolycool = { path = "../polycool" }\n'),
    ]:
        r = run([x, "--sym", src, os.path.join(d, name, "src")])
        if r.returncode:
            raise SystemExit(r.stderr)
        write(os.path.join(d, name, "Cargo.toml"), PKG.format(
            name=name, version=ver,
            deps='arrayvec = { version = "0.7.6", default-features = false }\n' + f'symf = {{ path = "{symf}" }}\n' + deps))
    write(stamp, key)


def clean_stale(src, dst):
    for root, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, dst)
            if f != "__hooks.rs" and not os.path.exists(os.path.join(src, rel)):
                os.remove(p)


def gen_repo():
    x = xform_bin()
    symf = os.path.join(VERIF, "symf")
    src = os.path.join(REPO, "src")
    out = {}
    for mode in ("sym", "nat"):
        d = os.path.join(GEN, mode, "linesweeper")
        cmd = [x] + (["--sym"] if mode == "sym" else [])
        if mode == "sym":
            for h in HOOKS:
                cmd += ["--hook", h]
        tmp = os.path.join(GEN, "tmp-" + mode)
        shutil.rmtree(tmp, ignore_errors=True)
        r = run(cmd + [src, tmp])
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise SystemExit(3)
        out[mode] = r.stdout
        files = [os.path.join(a, f) for a, _, fs in os.walk(tmp) for f in fs]
        # formatting only makes panic locations readable; failure to format is harmless
        run(["rustfmt", "--edition", "2021"] + [f for f in files if os.path.basename(f) != "lib.rs"])
        for f in files:
            write(os.path.join(d, "src", os.path.relpath(f, tmp)), open(f).read())
        clean_stale(src, os.path.join(d, "src"))
        shutil.rmtree(tmp, ignore_errors=True)
        readme = os.path.join(REPO, "README.md")
        write(os.path.join(d, "README.md"), open(readme).read() if os.path.exists(readme) else "")
        if mode == "sym":
            write(os.path.join(d, "src", "__hooks.rs"), open(os.path.join(VERIF, "harness", "hooks.rs")).read())
            deps = ('arrayvec = { version = "0.7.6", default-features = false, features = ["std"] }\n'
                    f'symf = {{ path = "{symf}" }}\n'
                    'kurbo = { path = "../kurbo" }\npolycool = { path = "../polycool" }\n')
        else:
            deps = 'arrayvec = { version = "0.7.6", features = ["serde"] }\nkurbo = { version = "0.12.0", features = ["serde"] }\npolycool = "0.4.0"\n'
        write(os.path.join(d, "Cargo.toml"), PKG.format(name="linesweeper", version="0.1.2", deps=deps))
    return out


if __name__ == "__main__":
    gen_deps()
    print(gen_repo())
