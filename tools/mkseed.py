#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: writes /verif/seeded/<id>/ from a small spec and
confirms it (unchanged: demo 0; patched: builds, demo fails; --tests: the
stable tests still pass).  A spec sets ID, PROP, NEEDS, BREAKS, EDITS =
[(file, old, new)], MAIN (main.rs of the demonstration; panic = failure)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'
DEMO_PY = r'''import glob, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
STUB = {
 "pow10_div_pow2_lut": """pub const CHUNK_SIZE: u32 = 1;\npub const CHUNK_BASE: u64 = 1;\npub const CHUNK_CUTOFF: u32 = 1;
pub const COMPRESSION_RATE: u32 = 1;\npub const SHIFT: i32 = 1;
pub fn get_pow10_div_pow2_params(_e: i32) -> (usize, (u32, i32)) { panic!() }
pub fn lookup_pow10_div_pow2(_a: usize, _b: usize) -> (u128, u128, u128) { panic!() }\n""",
 "pow2_div_pow10_lut": """pub fn get_pow2_div_pow10_params(_e: i32) -> (usize, (u32, u32)) { panic!() }
pub fn lookup_pow2_div_pow10(_a: usize, _b: usize) -> (u128, u128, u128) { panic!() }\n""",
 "pow2_div_pow5_lut": "pub fn lookup_pow2_div_pow5(_i: usize) -> (u128, u128, u128, u128) { panic!() }\n",
 "pow5_div_pow2_lut": "pub fn lookup_pow5_div_pow2(_i: usize) -> (u128, u128, u128, u128) { panic!() }\n",
}
T = tempfile.mkdtemp()
rc = 2
try:
    repo = os.getcwd()
    def rustc(*a):
        p = subprocess.run(["rustc", "--edition", "2021", "-Awarnings", "-O", "-Cdebuginfo=0", "--out-dir", T, "-L", T] + list(a),
                           cwd=T, capture_output=True, text=True)
        if p.returncode:
            sys.exit("rustc failed\n" + p.stderr[-2000:])
    ext = []
    for n, t in STUB.items():
        src = os.path.join(repo, n, "src", "lib.rs")
        if not os.path.exists(src):
            src = os.path.join(T, n + ".rs")
            open(src, "w").write(t)
        rustc("--crate-type", "lib", "--crate-name", "f256_" + n, src)
        ext += ["--extern", "f256_%s=%s/libf256_%s.rlib" % (n, T, n)]
    rustc("--crate-type", "lib", "--crate-name", "f256", "--cfg", 'feature="std"', *ext, os.path.join(repo, "src", "lib.rs"))
    rustc("--crate-name", "demo", "--extern", "f256=%s/libf256.rlib" % T, os.path.join(HERE, "main.rs"))
    p = subprocess.run([os.path.join(T, "demo")], timeout=200)
    rc = 1 if p.returncode else 0
finally:
    shutil.rmtree(T, ignore_errors=True)
sys.exit(rc)
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def main(spec, tests):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(DEMO_PY)
    open(d + "/main.rs", "w").write(g["MAIN"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        r = w + "/repo"
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        p0 = sh([d + "/demo.sh"], r)
        print(g["ID"], "unchanged:", p0.returncode, p0.stderr[-600:])
        for f, o, n in g["EDITS"]:
            s = open(r + "/" + f).read()
            assert s.count(o) == 1, (f, o, s.count(o))
            open(r + "/" + f, "w").write(s.replace(o, n))
        diff = sh(["git", "diff"], r).stdout
        open(d + "/patch.diff", "w").write(diff)
        p1 = sh([d + "/demo.sh"], r)
        print(g["ID"], "patched:", p1.returncode, p1.stderr[-400:])
        ok = p0.returncode == 0 and p1.returncode == 1
        if ok and tests:
            ws = w + "/ws"
            os.mkdir(ws)
            for n in os.listdir(r):
                if n.startswith(".") or n in ("target", "Cargo.lock"):
                    continue
                if n.endswith("_lut") and not os.path.exists(r + "/" + n + "/src"):
                    os.makedirs(ws + "/" + n + "/src")
                    for m in os.listdir(r + "/" + n):
                        os.symlink(r + "/" + n + "/" + m, ws + "/" + n + "/" + m)
                    shutil.copy("/opt/vp/stubs/f256_%s.rs" % n, ws + "/" + n + "/src/lib.rs")
                else:
                    os.symlink(r + "/" + n, ws + "/" + n)
            shutil.copy("/opt/vp/work/ws/Cargo.lock", ws)
            env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR="/tmp/seedtarget", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
            with open("/tmp/seed_t.log", "w") as lf:
                b = subprocess.run("cargo test --workspace --all-features --release --no-fail-fast --offline -- --test-threads 8",
                                   shell=True, cwd=ws, env=env, stdout=lf, stderr=subprocess.STDOUT)
            sh(["python3", "/opt/vp/results.py", "/tmp/seed_t.json", "cargo:/tmp/seed_t.log"], "/tmp")
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base['stable']
            res = json.load(open("/tmp/seed_t.json"))
            passed = set(res.get("passed", []))
            miss = [n for n in names if n not in passed]
            print(g["ID"], "build", b.returncode, "stable tests failing:", len(miss), miss[:4])
            ok = ok and not miss
        print(g["ID"], "OK" if ok else "REJECTED")
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    t = "--tests" in sys.argv
    for s in sys.argv[1:]:
        if not s.startswith("--"):
            main(s, t)
