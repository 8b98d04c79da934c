#!/usr/bin/env python3
"""check.py <property>  [--replay FILE]

Decides one property on /repo's current working tree.

 1. mirror /repo, build the driver (real crate, overflow checks on)
 2. verify the property's harnesses / contracts (Kani; Verus for the contracts
    of the primitives) on the mirrored sources
 3. concurrently search witnesses with the exact oracle
 4. failed obligation -> replay the verifier's counterexample on the real code
exit 0: held;  exit 1: VIOLATION line;  exit 2: the check itself failed.
"""
import itertools, json, os, random, re, shutil, subprocess, sys, threading, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import mirror, kanirun, search as S, oracle as O
from props import PROPS
try:
    import verusrun
except ImportError:
    verusrun = None

WORK = os.path.join(V, ".work")
EVID = os.path.join(V, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
HARD = 820 if TIER == "quick" else 6 * 3600


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def left():
    return HARD - (time.time() - T0)


def build_driver():
    m = os.path.join(WORK, "repo")
    mirror.make(m)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(WORK, "target"))
    env.pop("RUSTFLAGS", None)
    for cmd in (["cargo", "build", "--offline", "--profile", "checked"],):
        p = subprocess.run(cmd, cwd=os.path.join(V, "harness", "driver"), env=env, capture_output=True, text=True)
        if p.returncode:
            print(p.stderr[-3000:])
            return None
    return os.path.join(WORK, "target", "checked", "driver")


# ---------------------------------------------------------------- witnesses
def candidates(vals):
    """256-bit data and small integers out of a Kani counterexample"""
    big, small = [], []
    for i, (v, w) in enumerate(vals):
        if w == 16 and i + 1 < len(vals) and vals[i + 1][1] == 16:
            big.append((v << 128) | vals[i + 1][0])
        if w <= 4:
            small.append(v)
        if w == 16:
            small.append(v)
    out = []
    for b in big:
        for x in (b, b ^ O.SIGN):
            if x not in out:
                out.append(x)
    return out, small


def replay_lines(prop, vals):
    big, small = candidates(vals)
    cases = []
    for nm in prop["ops"]:
        if nm in ("mulp2", "divp2"):
            for b in big:
                for n in small:
                    cases.append((nm, (b, n & 0xffffffff)))
        elif nm in ("ff32", "ff64"):
            for n in small:
                cases.append((nm, (n & (0xffffffff if nm == "ff32" else (1 << 64) - 1),)))
        elif re.match(r"f[ui]\d+$", nm):
            bits = int(nm[2:])
            for n in small:
                n &= (1 << bits) - 1
                if nm[1] == "i" and n >> (bits - 1):
                    n -= 1 << bits
                cases.append((nm, (n,)))
        elif nm == "enc":
            for b in big:
                for n in small:
                    t = n - (1 << 32) if n >> 31 & 1 else n
                    c = b % (1 << 237)
                    if O.TMIN <= t <= O.EMAX - 1 - O.BIAS - 236:
                        cases.append((nm, (0, t, c)))
        elif nm in ("parse", "junk", "radix"):
            pass
        else:
            k = {"eq": 2, "tcmp": 2, "pcmp": 2, "max": 2, "min": 2, "add": 2, "sub": 2, "mul": 2, "div": 2, "rem": 2,
                 "sos": 2, "sqadd": 2, "vsq": 2, "atan2": 2, "log": 2, "fma": 3, "clamp": 3,
                 "vadd": 2, "vsub": 2, "vmul": 2, "vdiv": 2, "vrem": 2}.get(nm, 1)
            n = 0
            for t in itertools.product(big, repeat=k):
                if nm == "clamp" and (O.isnan(t[1]) or O.isnan(t[2]) or S.vcmp(t[1], t[2]) > 0):
                    continue
                if nm == "dec" and not (t[0] & O.ABS) < O.INF:
                    continue
                cases.append((nm, t))
                n += 1
                if n > 3000:
                    break
    return cases


# ---------------------------------------------------------------- main
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.p = PROPS[pid]
        self.bad = []           # witnesses
        self.failed = []        # failed obligations (named)
        self.undecided = []
        self.harn = {}
        self.known = {}
        self.kf = []
        self.evals = 0
        self.per_op = {}
        self.verus = []
        self.notes = []
        self.kani_cmd = ""
        self.build_lost = None
        self.cap = 0
        self.stop_search = threading.Event()

    # -- search in slices, in a thread
    def searcher(self, drv):
        i = 0
        try:
            while not self.stop_search.is_set() and not self.bad:
                r = S.search(drv, SEED * 1000 + i, 2.5, self.p["ops"])
                i += 1
                self.evals += r["evals"]
                for k, v in r["known"].items():
                    self.known[k] = self.known.get(k, 0) + v
                for k, v in r["per_op"].items():
                    self.per_op[k] = self.per_op.get(k, 0) + v
                if r["bad"]:
                    self.bad += r["bad"]
                    log("witness:", json.dumps(r["bad"][0])[:400])
        except Exception:
            self.notes.append("search: " + traceback.format_exc())

    def kani(self):
        p = self.p
        mods = p.get("mods", [])
        if not mods:
            return
        m = os.path.join(WORK, "pm_" + self.pid)
        t = os.path.join(WORK, "pt_" + self.pid)
        ml = [("verif_spec", V + "/kani/spec.rs")]
        if p.get("hooks"):
            ml.append(("verif_hooks", V + "/kani/hooks.rs"))
        ml += [("verif_" + x.split("@")[0], V + "/kani/%s.rs" % x.split("@")[0], x.split("@")[1] if "@" in x else "lib.rs")
               for x in mods]       # "p23@math/mod.rs": loaded as a child of that module
        try:
            mirror.make(m, modules=ml, hooks=p.get("hooks", []))
        except mirror.LostAnchor as e:
            self.build_lost = "lost anchor: %s" % e
            return
        hs = list(p["quick"]) + (list(p.get("thorough", [])) if TIER == "thorough" else [])
        budget = self.cap or min(p.get("budget", 600) if TIER == "quick" else p.get("tbudget", 3600), max(60, left() - 60))
        kf = p.get("kf")
        allh = hs + ([kf["correct"], kf["listed"]] if kf else [])
        r = self._run(m, t, allh, budget, kf)
        self.kani_cmd = r.cmd
        if not r.built:
            self.build_lost = "the proof build failed: " + r.out[max(0, r.out.find("error")):][:1500]
            return
        self.harn = r.h
        self._judge(r, kf)
        fb = p.get("fallback")
        if fb and not self.cap and any(fb["if"] in u for u in self.undecided) and not self.failed and left() > 200:
            r2 = self._run(m, t, fb["run"], left() - 60, None)
            ok = r2.h and all(v["status"] == "success" for v in r2.h.values())
            self.harn.update(r2.h)
            if ok:
                self.undecided = [u for u in self.undecided if fb["if"] not in u]
            else:
                self._judge(r2, None)
        self.mirror_dir, self.target_dir = m, t

    def _run(self, m, t, hs, budget, kf):
        log("kani:", len(hs), "filters, budget %ds" % budget)
        # harnesses that are expected to fail (known finding) run on their own
        if kf:
            reg = [h for h in hs if "_kf_" not in h]
            r = kanirun.run(m, t, reg, budget, linger=self.p.get("linger", 20))
            if r.built:
                r2 = kanirun.run(m, t, [h for h in hs if "_kf_" in h], min(300, max(60, left() - 60)), linger=1e9)
                r.h.update(r2.h)
                r.wall += r2.wall
            return r
        return kanirun.run(m, t, hs, budget, linger=self.p.get("linger", 20))

    def _judge(self, r, kf):
        for h, v in sorted(r.h.items()):
            s = h.split("::")[-1]
            if kf and "_kf_" in s:
                continue
            st = v["status"]
            real = [f for f in v["failed"] if not self._soft(f)]
            if st == "success":
                unc = [c for c, x in v["covers"].items() if x not in ("satisfied", "success")]
                if unc:
                    self.undecided.append("%s: vacuity guard not satisfied: %s" % (s, unc))
                elif not v["checks"]:
                    self.undecided.append(s + ": no obligations generated")
            elif st == "failed" and real:
                self.failed.append((h, real))
            elif st == "failed":
                self.undecided.append("%s: %s" % (s, v["failed"][:2]))
            else:
                self.undecided.append("%s: %s" % (s, st))
        if kf:
            def grp(pre):
                x = [v["status"] for h, v in r.h.items() if pre in h]
                return "none" if not x else "success" if all(s == "success" for s in x) else \
                    "failed" if any(s == "failed" for s in x) else "undecided"
            c, l = grp(kf["correct"]), grp(kf["listed"])
            log("known finding: correct", c, "listed", l)
            if c == "success":
                pass
            elif l == "success":
                self.kf.append(kf["text"])
            elif c == "failed" and l == "failed":
                for h, v in r.h.items():
                    if kf["listed"] in h and v["status"] == "failed":
                        self.failed.append((h, v["failed"]))
            else:
                self.undecided.append("known finding harnesses: correct %s, listed %s" % (c, l))

    @staticmethod
    def _soft(f):
        return "UNDECIDED:" in f or "unwinding assertion" in f or "is not currently supported" in f or "recursion" in f

    def run_verus(self):
        if verusrun is None:
            return
        for name in self.p.get("verus", []):
            r = verusrun.run(name, os.path.join(WORK, "verus_" + self.pid), TIER)
            self.verus.append(r)
            log("verus", name, r["status"], "verified %s errors %s %.1fs" % (r.get("verified"), r.get("errors"), r.get("wall_s", 0)))
            if r["status"] == "failed":
                self.failed.append(("verus:" + name, r["failed"]))
            elif r["status"] != "success":
                self.undecided.append("verus %s: %s" % (name, r["status"] + " " + str(r.get("why", ""))[:300]))

    def main(self):
        drv = build_driver()
        if drv is None:
            print("driver does not build")
            return 2
        log("driver built")
        # witness search first for a moment: a gross violation ends the run
        r = S.search(drv, SEED, 4.0 if TIER == "quick" else 60, self.p["ops"])
        self.evals, self.known, self.per_op = r["evals"], r["known"], r["per_op"]
        self.bad += r["bad"]
        log("search", r["evals"], "evaluations,", len(r["bad"]), "bad")
        if self.bad and TIER == "quick":
            # the verdict is clear; give the verifier a while to name the obligation
            self.cap = 90
        th = threading.Thread(target=self.searcher, args=(drv,), daemon=True)
        th.start()
        vt = threading.Thread(target=self.run_verus, daemon=True)
        vt.start()
        self.kani()
        vt.join()
        log("failed %d, undecided %d" % (len(self.failed), len(self.undecided)))
        if self.failed and not self.bad:
            if self.p.get("mods"):
                self.counterexample(drv)
            # directed search some more
            t = time.time()
            while not self.bad and time.time() - t < min(60, left() - 40):
                time.sleep(0.5)
        elif self.bad and not self.failed:
            self.failed.append(("witness search", ["the witness contradicts the oracle of %s; the verifier had not refuted an obligation within its cap" % self.pid]))
        elif (self.undecided or self.build_lost) and not self.bad:
            # out of the verifier's reach: bounded stand-in
            n = 90 if TIER == "quick" else 900
            t = time.time()
            log("bounded stand-in search for %d s" % n)
            while not self.bad and time.time() - t < min(n, left() - 40):
                time.sleep(0.5)
        self.stop_search.set()
        th.join(60)
        return self.report(drv)

    def counterexample(self, drv):
        for h, f in self.failed[:3]:
            if h.startswith("verus:") or left() < 120:
                continue
            v = self.harn.get(h, {})
            vals, out = kanirun.playback(self.mirror_dir, self.target_dir, h, int(min(200, left() - 60)))
            if not vals:
                log("no concrete counterexample from", h)
                continue
            cases = replay_lines(self.p, vals)
            bad, known = [], {}
            if cases:
                S.evaluate(drv, cases, bad, known)
            log("counterexample of %s: %d replays, %d fail" % (h, len(cases), len(bad)))
            self.evals += len(cases)
            if bad:
                self.bad += bad
                return
            # neighbourhood
            r = random.Random(SEED)
            big, small = candidates(vals)
            if big:
                for _ in range(20):
                    nb = []
                    for x, w in vals:
                        if w == 16 and r.randrange(2):
                            x ^= 1 << r.randrange(128)
                        nb.append((x, w))
                    S.evaluate(drv, replay_lines(self.p, nb)[:4000], bad, known)
                    if bad:
                        self.bad += bad
                        return
                    if left() < 60:
                        break

    def report(self, drv):
        p = self.p
        os.makedirs(EVID, exist_ok=True)
        viol = bool(self.bad or self.failed)
        hv = [(h, v) for h, v in self.harn.items() if "_kf_correct" not in h]
        obl = sum(max(v["checks"], 1) for _, v in hv) + sum(r.get("verified", 0) + r.get("errors", 0) for r in self.verus)
        dis = sum(v["ok"] if v["status"] == "success" else max(0, v["ok"] - (v["status"] != "failed")) for _, v in hv) + \
            sum(r.get("verified", 0) for r in self.verus)
        bounded = []
        if self.build_lost:
            bounded.append("proof not run (%s): only the bounded witness search below" % self.build_lost[:600])
        bounded += ["undecided: " + u for u in self.undecided]
        cov = {
            "obligations": obl, "discharged": min(dis, obl) if not bounded else min(dis, max(0, obl - 1)),
            "checker_cmd": self.kani_cmd or "; ".join(r.get("cmd", "") for r in self.verus) or "none",
            "trusted_base": p.get("trusted", []) + TRUSTED,
            "functions_under_contract": p.get("fns", []),
            "harnesses": {h.split("::")[-1]: {"status": v["status"], "obligations": v["checks"], "discharged": v["ok"],
                                              "covers": v["covers"], "backend": "Kani/CBMC + SAT", "solver_s": v["solver_s"]}
                          for h, v in sorted(self.harn.items())},
            "verus": [{k: r.get(k) for k in ("name", "status", "verified", "errors", "wall_s", "functions", "cmd", "drops", "trusted")} for r in self.verus],
            "bounded_or_undecided": bounded,
            "evaluations": self.evals,
            "witness_search": {"evaluations": self.evals, "per_operation": self.per_op, "seed": SEED,
                               "rule": "directed random inputs of lib/gen.py, compared with the exact integer oracle of lib/oracle.py; supplementary, decides nothing when all obligations are discharged"},
        }
        if self.known or self.kf:
            cov["known_findings"] = {"evaluations_showing_it": self.known, "text": self.kf}
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "proof", "coverage": cov, "assumptions": p.get("assume", []) + ASSUME,
              "wall_s": round(time.time() - T0, 1), "violations": int(viol)}
        if not hv and not self.verus:
            ev["level"] = "exploration"
            cov.setdefault("distinct_nontrivial", self.evals)
            cov.setdefault("rule", cov["witness_search"]["rule"])
            cov.setdefault("samples", [b["line"] for b in self.bad][:3] or [S.ops[n].line(n, S.ops[n].gen(random.Random(SEED))) for n in p["ops"][:3]])
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        for u in bounded:
            log("undecided/bounded:", u[:300])
        if not viol:
            kfs = list(self.kf)
            if p.get("kf") and self.known and not kfs:
                kfs.append(p["kf"]["text"])
            for t in kfs:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
            log("property %s held; %d obligations, %d discharged" % (self.pid, obl, cov["discharged"]))
            return 0
        rp = os.path.join(EVID, "replay-%s.json" % self.pid)
        json.dump({"property": self.pid, "failed_obligations": [{"harness": h, "obligations": f} for h, f in self.failed],
                   "witnesses": self.bad[:20],
                   "replay": "python3 check.py %s --replay %s" % (self.pid, rp),
                   "verifier_output": self._vout()}, open(rp, "w"), indent=1)
        for h, f in self.failed:
            print("failed obligation: %s: %s" % (h, "; ".join(f[:4])))
        for b in self.bad[:3]:
            print("witness: %s\n   got      %s\n   expected %s" % (b["line"][:400], b["got"], b["expected"]))
        print("VIOLATION property=%s replay=%s%s" % (self.pid, rp, "" if self.bad else " no-failing-input-found"))
        return 1

    def _vout(self):
        try:
            t = open(os.path.join(WORK, "pt_" + self.pid, "kani.log"), errors="replace").read()
        except OSError:
            t = ""
        return t[-6000:] + "\n".join(r.get("out", "")[-4000:] for r in self.verus if r["status"] == "failed")


TRUSTED = ["rustc/Kani 0.68 translation to GOTO and CBMC 6.x with its SAT back ends",
           "the mirror of /repo (lib/mirror.py): symlinks plus appended mod lines; placeholder src for the four *_lut crates whose src is not in the repository"]
ASSUME = ["placeholder *_lut crates: only the to-string code uses them, it is not on the path of this property",
          "Kani --no-memory-safety-checks: pointer validity of the safe-Rust code is not re-checked; panics, overflow and index checks are"]


def replay(pid, f):
    drv = build_driver()
    d = json.load(open(f))
    rc = 0
    for b in d["witnesses"]:
        g = S.run(drv, [b["line"]])[0]
        print(b["line"], "\n  now", g, "\n  was", b["got"], "\n  expected", b["expected"])
        rc |= g == b["got"]
    return rc


if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(replay(pid, sys.argv[3]))
    try:
        sys.stdout.flush()
        rc = Check(pid).main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
