"""Run Kani harnesses over the proof mirror and collect the obligations."""
import json, os, re, signal, subprocess, time

BASE = ["cargo", "kani", "-p", "f256", "--lib", "--features", "num-traits", "--output-format", "terse",
        # obligations of CBMC that have no counterpart in safe Rust semantics;
        # overflow, index and debug_assert panics of rustc stay on, and so do
        # the unwinding and the undefined-function checks
        "--no-memory-safety-checks", "--no-overflow-checks", "--no-assertion-reach-checks",
        "-Z", "unstable-options", "-Z", "stubbing"]


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


class Result:
    def __init__(self):
        self.built = False
        self.out = ""
        self.wall = 0.0
        self.h = {}             # harness -> dict(status, failed[], checks, covers, solver_s)
        self.cmd = ""


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def run(mirror, target, harnesses, budget, jobs=8, linger=15, logf=None, extra=(), hto=None):
    """harnesses: list of `--harness` filters. budget: seconds for everything.
    Ends `linger` seconds after the first failing harness."""
    js = os.path.join(target, "kani_out.json")
    os.makedirs(target, exist_ok=True)
    if os.path.exists(js):
        os.unlink(js)
    hto = hto or budget
    cmd = BASE + ["--target-dir", target, "-j", str(jobs), "--harness-timeout", "%ds" % hto, "--export-json", js]
    for h in harnesses:
        cmd += ["--harness", h]
    cmd += list(extra)
    res = Result()
    res.cmd = " ".join(cmd)
    t0 = time.time()
    logf = logf or os.path.join(target, "kani.log")
    with open(logf, "w") as lf:
        p = subprocess.Popen(cmd, cwd=mirror, env=env(), stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        first_fail = None
        while p.poll() is None:
            time.sleep(0.3)
            txt = open(logf, errors="replace").read()
            if first_fail is None and re.search(r"VERIFICATION:- FAILED", txt) and _real_fail(txt):
                first_fail = time.time()
            if first_fail and time.time() - first_fail > linger:
                _kill(p)
                break
            if time.time() - t0 > budget + 20:
                _kill(p)
                break
        p.wait()
        _kill(p)
    res.wall = time.time() - t0
    res.out = open(logf, errors="replace").read()
    _parse(res, js)
    return res


def _real_fail(txt):
    return bool(re.search(r"^(Thread \d+: )?Failed Checks: ", txt, re.M)) or "Failed Checks:" in txt


def _parse(res, js):
    txt = res.out
    res.built = "Checking harness" in txt or os.path.exists(js)
    # stdout: with -j the lines are prefixed "Thread N: "
    cur = {}
    names = {}
    for line in txt.splitlines():
        m = re.match(r"(?:Thread (\d+): )?(.*)", line)
        th, rest = m.group(1) or "0", m.group(2)
        m = re.match(r"Checking harness ([\w:]+)\.\.\.", rest)
        if m:
            cur[th] = m.group(1)
            names[m.group(1)] = {"status": "unknown", "failed": [], "checks": 0, "ok": 0, "covers": {}, "solver_s": None}
            last = th
            continue
        # the report block of a harness follows "Thread N:" on its own lines
        if re.match(r"Thread \d+:\s*$", line):
            last = th
            continue
        h = cur.get(th if line.startswith("Thread ") else locals().get("last", "0"))
        if h is None:
            continue
        if rest.startswith("Failed Checks: "):
            names[h]["failed"].append(rest[15:])
        elif "VERIFICATION:- SUCCESSFUL" in rest:
            names[h]["status"] = "success"
        elif "VERIFICATION:- FAILED" in rest:
            names[h]["status"] = "failed" if names[h]["failed"] else "undecided"
        elif "timed out" in rest:
            names[h]["status"] = "timeout"
        m = re.match(r"Verification Time: ([\d.]+)s", rest)
        if m:
            names[h]["solver_s"] = float(m.group(1))
    res.h = names
    if not os.path.exists(js):
        return
    try:
        d = json.load(open(js))
    except Exception:
        return
    for r in d.get("verification_results", {}).get("results", []):
        h = r.get("harness_id") or r.get("harness")
        e = names.setdefault(h, {"status": "unknown", "failed": [], "checks": 0, "ok": 0, "covers": {}, "solver_s": None})
        fails, und = [], 0
        e["checks"] = e["ok"] = 0
        for c in r.get("checks", []):
            st, cat, desc = c.get("status", "").lower(), c.get("category", ""), c.get("description", "")
            if cat == "cover" or st in ("satisfied", "unsatisfiable"):
                e["covers"][desc] = st
                continue
            e["checks"] += 1
            if st in ("success", "unreachable"):
                e["ok"] += 1
            elif st in ("failure", "failed"):
                loc = c.get("location") or {}
                fails.append("%s (%s:%s)" % (desc, os.path.basename(str(loc.get("file", "?"))), loc.get("line", "?")))
            else:
                und += 1
        st = r.get("status", "").lower()
        e["solver_s"] = (r.get("duration_ms") or 0) / 1000.0
        if st == "success":
            e["status"] = "success"
        elif fails:
            e["status"], e["failed"] = "failed", fails
        elif e["status"] != "timeout":
            e["status"] = "timeout" if not r.get("checks") else "undecided"


def playback(mirror, target, harness, budget):
    """bytes of the counterexample of one failing harness: list of ints with widths"""
    cmd = BASE + ["--target-dir", target, "--harness", harness, "--exact", "-Z", "concrete-playback",
                  "--concrete-playback=print", "--harness-timeout", "%ds" % budget]
    try:
        p = subprocess.run(cmd, cwd=mirror, env=env(), capture_output=True, text=True, timeout=budget + 60)
    except subprocess.TimeoutExpired:
        return None, ""
    vals = []
    for m in re.finditer(r"^\s*vec!\[([\d, ]*)\],?$", p.stdout, re.M):
        bs = bytes(int(x) for x in m.group(1).split(",") if x.strip())
        vals.append((int.from_bytes(bs, "little"), len(bs)))
    return vals, p.stdout
