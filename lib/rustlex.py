"""Minimal Rust source scanner: finds items by impl header / name and returns
spans, ignoring comments, strings and char literals.  Used for the mechanical
extraction of functions and for the insertion of contract hooks."""
import re


def mask(src):
    """Copy of `src` with comments, strings and chars blanked (same length)."""
    out = list(src)
    i, n = 0, len(src)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"' or (c in "rb" and re.match(r'(?:b|r|br)#*"', src[i:i + 12])
                          and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_"))):
            m = re.match(r'(b?r)(#*)"', src[i:])
            if m:
                end = '"' + m.group(2)
                j = src.find(end, i + m.end())
                j = n if j < 0 else j + len(end)
            else:
                j = src.index('"', i) + 1
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            blank(i, j)
            i = j
        elif c == "'":
            m = re.match(r"'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])'", src[i:i + 16])
            if m:
                blank(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def match_close(m, i):
    """Index just after the bracket closing the one at m[i]."""
    pairs = {"{": "}", "(": ")", "[": "]"}
    st = []
    while i < len(m):
        c = m[i]
        if c in pairs:
            st.append(pairs[c])
        elif c in "})]":
            if not st or st.pop() != c:
                raise ValueError("unbalanced")
            if not st:
                return i + 1
        i += 1
    raise ValueError("unbalanced")


class Fn:
    def __init__(self, src, start, name, sig_end, end, header):
        self.start, self.name, self.body, self.end = start, name, sig_end, end
        self.header = header            # enclosing impl / trait header or ""
        self.sig = " ".join(src[start:sig_end].split())
        self.text = src[start:end]


def blocks(m, lo, hi):
    """Top-level (relative to lo..hi) `impl`/`trait`/`mod` blocks."""
    i = lo
    while i < hi:
        k = re.compile(r"\b(impl|trait|mod)\b").search(m, i, hi)
        if not k:
            return
        # must be at depth 0 within lo..hi and at item position
        j = k.end()
        depth = 0
        while j < hi and not (depth == 0 and m[j] in "{;"):
            if m[j] in "([":
                depth += 1
            elif m[j] in ")]":
                depth -= 1
            j += 1
        if j >= hi or m[j] == ";":
            i = k.end()
            continue
        e = match_close(m, j)
        yield k.group(1), " ".join(m[k.start():j].split()), j + 1, e - 1
        i = e


def fns(src, skip_tests=True):
    m = mask(src)
    res = []

    def scan(lo, hi, header):
        i = lo
        spans = []
        for kind, hd, a, b in item_blocks(m, lo, hi):
            spans.append((a, b))
            if kind == "mod":
                pre = m[max(lo, a - 400):a]
                if skip_tests and (re.search(r"#\[cfg\(test\)\]\s*(pub(\([a-z]+\))?\s+)?mod[^{}]*\{$", pre)):
                    continue
                scan(a, b, header)
            else:
                scan(a, b, hd)
        for k in re.compile(r"\bfn\s+([A-Za-z_0-9]+)").finditer(m, lo, hi):
            if any(a <= k.start() < b for a, b in spans):
                continue
            j, depth = k.end(), 0
            while j < hi and not (depth == 0 and m[j] in "{;"):
                if m[j] in "([":
                    depth += 1
                elif m[j] in ")]":
                    depth -= 1
                j += 1
            if j >= hi or m[j] == ";":
                continue
            # start of the item: after the previous `;`, `{` or `}`
            s = max(m.rfind(ch, lo, k.start()) for ch in ";{}")
            s = lo if s < 0 else s + 1
            # skip attributes
            t = s
            while True:
                mm = re.compile(r"\s*#\s*\[").match(m, t, k.start())
                if not mm:
                    break
                t = match_close(m, mm.end() - 1)
            t += len(m[t:k.start()]) - len(m[t:k.start()].lstrip())
            res.append(Fn(src, t, k.group(1), j, match_close(m, j), header))

    def item_blocks(m, lo, hi):
        i = lo
        pat = re.compile(r"(?:^|[;{}\]\)]|\bunsafe|\bpub|\))\s*\b(impl|trait|mod)\b")
        while i < hi:
            k = pat.search(m, i, hi)
            if not k:
                return
            st = k.start(1)
            j, depth = k.end(1), 0
            while j < hi and not (depth == 0 and m[j] in "{;"):
                if m[j] in "([":
                    depth += 1
                elif m[j] in ")]":
                    depth -= 1
                if depth < 0:
                    break
                j += 1
            if j >= hi or m[j] != "{":
                i = k.end(1)
                continue
            e = match_close(m, j)
            yield k.group(1), " ".join(m[st:j].split()), j + 1, e - 1
            i = e - 1 if e - 1 > i else e
    scan(0, len(src), "")
    return res


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        for f in fns(open(p).read()):
            print(p, "|", f.header[:70], "|", f.sig[:110])
