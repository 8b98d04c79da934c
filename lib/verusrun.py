"""Runs Verus on functions extracted from /repo on this run.

A unit is a Python module /verif/verus/<unit>.py with a function build(X) that
returns the text of one Verus file; X (class Extract) pulls function texts out
of /repo/src and inserts contracts and proof hints at given positions.  What
the extraction changes in the text:
  * doc comments, attributes and comments are dropped;
  * debug_assert!/debug_assert_eq!/debug_assert_ne! statements are dropped
    (the Kani harnesses run with them on);
  * `(a, b) = e;` becomes `let (t0, t1) = e; a = t0; b = t1;`
  * type parameters are substituted by the concrete type (monomorphised);
  * contracts, invariants and ghost statements are inserted.
Everything else is the text of /repo.
"""
import importlib.util, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import rustlex
from mirror import REPO, LostAnchor

VERUS = "verus"


def strip_comments(s):
    m = rustlex.mask(s)
    out = []
    i = 0
    while i < len(s):
        if s.startswith("//", i) and m[i] == " ":
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def split_stmts(body):
    """top-level statements of `{ ... }` (text without the braces)"""
    m = rustlex.mask(body)
    res, i, start = [], 0, 0
    n = len(body)
    while i < n:
        c = m[i]
        if c in "([{":
            j = rustlex.match_close(m, i)
            if c == "{":
                # block-like statement ends at `}` unless an expression goes on
                k = j
                while k < n and m[k].isspace():
                    k += 1
                head = m[start:i].lstrip()
                blk = re.match(r"(if|while|for|loop|match|unsafe|\{)", head) or head == ""
                rest = m[k:k + 4]
                if blk and not rest.startswith("else") and not (k < n and m[k] in ".?;") :
                    if not re.match(r"let\b", head):
                        res.append(body[start:j])
                        start = j
            i = j
            continue
        if c == ";":
            res.append(body[start:i + 1])
            start = i + 1
        i += 1
    tail = body[start:]
    if tail.strip():
        res.append(tail)
    return [r.strip() for r in res]


_T = [0]


def desugar(st):
    """`(a, b) = e;` -> let / assignments, at any depth"""
    cnt = 1
    while cnt:
        st, cnt = re.subn(r"([;{}]\s*)(\([\w.,\s]+\)\s*=(?![=>])\s*[^;{}]*;)", lambda m: m.group(1) + desugar1(m.group(2)), st)
    return desugar1(st)


def desugar1(st):
    m = re.match(r"\(([^()]*)\)\s*=(?!=)\s*(.*);$", st, re.S)
    if not m:
        return st
    names = [x.strip() for x in m.group(1).split(",") if x.strip()]
    _T[0] += 1
    tmp = ["vt%d_%d" % (_T[0], i) for i in range(len(names))]
    pat = ", ".join(t if n != "_" else "_" for t, n in zip(tmp, names))
    return "let (%s) = %s; " % (pat, m.group(2)) + " ".join("%s = %s;" % (n, t) for n, t in zip(names, tmp) if n != "_")


class Extract:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.cache = {}
        self.used = []
        self.trusted = []

    def find(self, path, name, header=None):
        if path not in self.cache:
            p = os.path.join(self.repo, path)
            if not os.path.exists(p):
                raise LostAnchor(path)
            self.cache[path] = rustlex.fns(open(p).read())
        r = [f for f in self.cache[path] if f.name == name and (header is None or re.search(header, f.header))]
        if len(r) != 1:
            raise LostAnchor("%s::%s (%s): %d matches" % (path, name, header, len(r)))
        return r[0]

    def fn(self, path, name, header=None, ret="r", spec="", at=None, loops=None, subst=(), sig=None, stmts=None, rename=None,
           nloops=None, ghosts=False, hints=()):
        """extracted function text.
        ret: name of the result; spec: requires/ensures text;
        at: {statement index: ghost text inserted before it} (-1: before the last one / tail expression);
            "<regex" / ">regex": before / after the first statement matching
        hints: [(regex, ghost text)] the text is put behind the match (anywhere in the body, exactly one match)
        loops: {loop number: invariant text}; subst: [(regex, replacement)] type substitutions"""
        f = self.find(path, name, header)
        h = re.sub(r"\s*\bwhere\b.*", "", f.header or "", flags=re.S)
        u = "%s (%s)" % (name, path + (": " + h if h else ""))
        if u not in self.used:
            self.used.append(u)
        m = rustlex.mask(f.text)
        k = f.body - f.start
        head = f.text[:k]
        body = strip_comments(f.text[k:]).strip()
        assert body[0] == "{" and body[-1] == "}"
        head = strip_comments(head)
        head = re.sub(r"^(pub(\([a-z]+\))?\s+)?", "", head.strip())
        head = re.sub(r"\bwhere\b.*$", "", head, flags=re.S).strip()
        if rename:
            head = re.sub(r"\bfn\s+" + name, "fn " + rename, head)
        mm = re.search(r"\)\s*->\s*(.*)$", head, re.S)
        if mm:
            head = head[:mm.start()] + ") -> (%s: %s)" % (ret, mm.group(1).strip())
        sts = [desugar(s) for s in split_stmts(body[1:-1]) if not re.match(r"debug_assert(_eq|_ne)?!", s)]
        if stmts is not None and len(sts) != stmts:
            raise LostAnchor("%s: %d statements instead of %d" % (name, len(sts), stmts))
        if loops is not None:
            sts, cnt = self._loops(sts, loops)
            if nloops is not None and cnt != nloops:
                raise LostAnchor("%s: %d loops instead of %d" % (name, cnt, nloops))
        at = dict(at or {})
        out = []
        seen = {}
        for i, s in enumerate(sts):
            for key in (i, i - len(sts)):
                if key in at:
                    out.append(at.pop(key))
            for key in [k for k in at if isinstance(k, str) and k[0] == "<" and re.match(k[1:], s)]:
                out.append(at.pop(key))
            out.append(s)
            if ghosts:
                out += self._ghosts(s, seen)
            for key in [k for k in at if isinstance(k, str) and k[0] == ">" and re.match(k[1:], s)]:
                out.append(at.pop(key))
        if "end" in at:
            out.append(at.pop("end"))
        if at:
            raise LostAnchor("%s: no statement for hints %s" % (name, sorted(map(str, at))))
        txt = "    ".join(["\n"] + [o + "\n" for o in out])
        for a, b in hints:
            txt, cnt = re.subn(a, lambda m: m.group(0) + " " + b + " ", txt)
            if cnt != 1:
                raise LostAnchor("%s: %d matches of %s" % (name, cnt, a))
        for a, b in subst:
            head, txt = re.sub(a, b, head), re.sub(a, b, txt)
        if sig:
            head = sig
        return "%s\n%s\n{%s}\n" % (head, spec, txt)

    @staticmethod
    def _ghosts(st, seen):
        """`let ghost x_k = x;` after the k-th top-level binding of x"""
        out = []
        for m in re.finditer(r"(?:^|;)\s*let\s+([^=]*?)(?::[^=]*)?=(?!=)", st.split("{")[0] if not st.startswith("let") else st):
            for n in re.findall(r"[a-z]\w*", re.sub(r"\bmut\b|:.*", "", m.group(1))):
                if n == "_" or n.startswith("vt"):
                    continue
                seen[n] = seen.get(n, 0) + 1
                out.append("let ghost %s_%d = %s;" % (n, seen[n], n))
        return out

    def _loops(self, sts, loops):
        n = 0
        res = []
        for s in sts:
            m = rustlex.mask(s)
            i = 0
            out = ""
            last = 0
            for k in re.compile(r"\b(while|for|loop)\b").finditer(m):
                j, depth = k.end(), 0
                while not (depth == 0 and m[j] == "{"):
                    if m[j] in "([":
                        depth += 1
                    elif m[j] in ")]":
                        depth -= 1
                    j += 1
                if n in loops:
                    out += s[last:j] + loops[n] + " "
                    last = j
                n += 1
            res.append(out + s[last:])
        return res, n

    Lost = LostAnchor

    def expand(self, path, macro, arm, inv, subs):
        """expands one arm of a macro_rules! item of /repo for the invocation
        `inv` (which must be there); returns a virtual path for fn()"""
        s = open(os.path.join(self.repo, path)).read()
        m = rustlex.mask(s)
        i = s.find("macro_rules! %s {" % macro)
        if i < 0 or inv not in s:
            raise LostAnchor("%s / %s" % (macro, inv))
        k = s.find(arm + " =>", i)
        if k < 0:
            raise LostAnchor("%s %s" % (macro, arm))
        j = m.index("{", k)
        txt = s[j + 1:rustlex.match_close(m, j) - 1]
        for a in sorted(subs, key=len, reverse=True):
            txt = txt.replace("$" + a, subs[a])
        v = "%s %s" % (path, inv)
        self.cache[v] = rustlex.fns(txt)
        return v

    def const(self, path, regex):
        s = open(os.path.join(self.repo, path)).read()
        m = re.search(regex, s)
        if not m:
            raise LostAnchor(regex)
        return m


def mods(txt):
    """`//@mod name` lines open nested modules (smaller solver contexts, one
    thread each); they are closed in front of main"""
    txt, n = re.subn(r"^//@mod (\w+)$", r"mod \1 { use super::*; use vstd::prelude::*;", txt, flags=re.M)
    i = txt.rindex("fn main()")
    return txt[:i] + "}" * n + "\n" + txt[i:]


def load(unit):
    p = os.path.join(V, "verus", unit + ".py")
    sp = importlib.util.spec_from_file_location("vu_" + unit, p)
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    return mod


def run(unit, work, tier="quick", repo=None):
    os.makedirs(work, exist_ok=True)
    res = {"name": unit, "verified": 0, "errors": 0, "wall_s": 0.0, "status": "undecided", "failed": [],
           "drops": "comments, attributes, visibility, top-level debug_assert statements (Kani proves those); destructuring assignments and range loops desugared; "
                    "type parameters monomorphised; operators on references written as calls of the same functions; integer constants evaluated from their definitions"}
    X = Extract(repo)
    t0 = time.time()
    try:
        mod = load(unit)
        txt = mods(mod.build(X))
    except (LostAnchor, AssertionError, ValueError, IndexError, FileNotFoundError) as e:
        res["why"] = "extraction: %s" % e
        return res
    f = os.path.join(work, unit + ".rs")
    open(f, "w").write(txt)
    res["functions"] = X.used
    res["trusted"] = sorted(set(re.findall(r"assume_specification[^;]*?\[\s*([^\]]*)\]", txt))) + \
        ["external_body: " + x for x in re.findall(r"#\[verifier::external_body\]\s*(?:pub )?(?:proof |exec |broadcast )?fn (\w+)", txt)]
    cmd = [VERUS, f, "--num-threads", "6", "--rlimit", str(getattr(mod, "RLIMIT", 30)), "--multiple-errors", "1"]
    res["cmd"] = " ".join(cmd)
    late = False
    with open(f + ".out", "w+") as fo:
        p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, cwd=work, start_new_session=True)
        try:
            p.wait(getattr(mod, "TIMEOUT", 400))
        except subprocess.TimeoutExpired:
            late = True
        finally:
            try:
                os.killpg(p.pid, 9)     # the solver processes as well
            except ProcessLookupError:
                pass
            p.wait()
        fo.seek(0)
        out = fo.read()
    res["wall_s"] = round(time.time() - t0, 1)
    res["out"] = out
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    errs = re.findall(r"^error(?:\[\w+\])?: (.*)\n\s*--> ([^\n]*)", out, re.M)
    if late:        # obligations refused before the time ran out still count
        res["why"] = "timeout"
        if not errs:
            return res
    elif not m:
        res["why"] = "verus: " + (re.findall(r"^error.*", out, re.M) or [out[-300:]])[0]
        return res
    if m:
        res["verified"], res["errors"] = int(m.group(1)), int(m.group(2))
    if not late and res["errors"] == 0 and p.returncode == 0:
        if res["verified"] < getattr(mod, "MIN_OBLIGATIONS", 1):
            res["why"] = "only %d obligations" % res["verified"]
        else:
            res["status"] = "success"
        return res
    if not errs:
        res["why"] = "verus error"
        return res
    txtl = txt.split("\n")
    for e, loc in errs:
        mm = re.search(r":(\d+):\d+", loc)
        ln = txtl[int(mm.group(1)) - 1].strip() if mm else ""
        fn = ""
        if mm:
            for k in range(int(mm.group(1)) - 1, -1, -1):
                q = re.search(r"\bfn (\w+)", txtl[k])
                if q:
                    fn = q.group(1)
                    break
        res["failed"].append("%s in %s at `%s`" % (e, fn, ln[:120]))
    soft = re.compile(r"resource limit|rlimit|timed? ?out|not supported|does not yet support|cannot find|mismatched types")
    if all(soft.search(e) for e, _ in errs):
        res["why"] = "; ".join(res["failed"][:3])
        return res
    res["status"] = "failed"
    return res


if __name__ == "__main__":
    import json
    r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/tmp/v")
    print(r.get("out", "")[:6000])
    r.pop("out", None)
    r.pop("functions", None)
    print(json.dumps(r, indent=1))
