"""Build a cargo-visible mirror of /repo.

/repo's manifest names four `*_lut` path dependencies whose `src` directories
are not part of the repository as shipped here; cargo refuses to load them.
The mirror holds symlinks to everything in /repo, resolved at build time, and
  * replaces a *missing* lut `src` by a placeholder whose functions panic,
  * (proof builds only) copies src/lib.rs and appends `mod` lines that load the
    contract modules of /verif/kani under cfg(kani),
  * (proof builds only) for the functions named in HOOKS, copies the file and
    inserts one cfg(kani) statement at the start of the function body, which
    lets a harness substitute the function's contract (havoc + assume) for its
    body.  No other character of /repo/src is altered.
"""
import os, shutil, sys

REPO = os.environ.get("F256_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rustlex

# hook name -> (predicate on rustlex.Fn, statement)
HOOKS = {
    "wm": (lambda f: f.name == "widening_mul" and " for UInt<" in f.header,
           "if let Some(r) = crate::verif_hooks::wm(self, {0}) {{ return r; }}", 1),
    "divrem": (lambda f: f.name == "div_rem" and "DivRem<&SubUInt> for &UInt<" in f.header,
               "if let Some(r) = crate::verif_hooks::divrem(self, {0}) {{ return r; }}", 1),
}


class LostAnchor(Exception):
    pass


def rs_files(d):
    for r, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.endswith(".rs"):
                yield os.path.join(r, f)


def param_names(sig):
    """names of the non-self parameters of a signature"""
    a = sig.index("(")
    b = rustlex.match_close(sig, a)
    res, depth, cur = [], 0, ""
    for c in sig[a + 1:b - 1] + ",":
        if c in "(<[":
            depth += 1
        elif c in ")>]":
            depth -= 1
        if c == "," and depth == 0:
            if ":" in cur:
                res.append(cur.split(":")[0].replace("mut ", "").strip())
            cur = ""
        else:
            cur += c
    return res


def _wipe(dst):
    if os.path.islink(dst):
        os.unlink(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)


def make(dst, repo=None, modules=(), hooks=()):
    repo = repo or REPO
    os.makedirs(dst, exist_ok=True)
    for e in os.listdir(dst):
        p = os.path.join(dst, e)
        if os.path.islink(p) or e.endswith("_lut") or e == "src":
            _wipe(p)
    for e in sorted(os.listdir(repo)):
        src = os.path.join(repo, e)
        d = os.path.join(dst, e)
        if e in ("target", "Cargo.lock", ".git", "tests", "analysis"):
            continue
        if e == "src" and (modules or hooks):
            continue
        if e.endswith("_lut") and not os.path.exists(os.path.join(src, "src")):
            os.makedirs(os.path.join(d, "src"))
            for f in os.listdir(src):
                os.symlink(os.path.join(src, f), os.path.join(d, f))
            shutil.copy(os.path.join(HERE, "lut_stubs", e + ".rs"),
                        os.path.join(d, "src", "lib.rs"))
            continue
        os.symlink(src, d)
    if modules or hooks:
        _proof_src(dst, repo, modules, hooks)
    return dst


def _proof_src(dst, repo, modules, hooks):
    srcdir = os.path.join(repo, "src")
    out = os.path.join(dst, "src")
    edits = {}          # path -> [(pos, text)]
    for h in hooks:
        pred, stmt, cnt = HOOKS[h]
        found = 0
        for p in rs_files(srcdir):
            s = open(p).read()
            for f in rustlex.fns(s):
                if pred(f):
                    found += 1
                    a = param_names(f.sig)
                    edits.setdefault(p, []).append(
                        (f.body + 1, " #[cfg(kani)] { " + stmt.format(*a) + " } "))
        if found != cnt:
            raise LostAnchor("hook %s: %d matching functions" % (h, found))
    for p in rs_files(srcdir):
        d = os.path.join(out, os.path.relpath(p, srcdir))
        os.makedirs(os.path.dirname(d), exist_ok=True)
        s = open(p).read()
        if p in edits:
            for pos, t in sorted(edits[p], reverse=True):
                s = s[:pos] + t + s[pos:]
        here = [m for m in modules if (m[2] if len(m) > 2 else "lib.rs") == os.path.relpath(p, srcdir)]
        if here:
            for m in here:
                s += '\n#[cfg(kani)] #[path = "%s"] mod %s;' % (m[1], m[0])
            s += "\n"
        elif p not in edits:
            os.symlink(p, d)
            continue
        open(d, "w").write(s)


if __name__ == "__main__":
    make(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
