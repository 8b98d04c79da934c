"""Values of the integer constants at the top of /repo/src/lib.rs, evaluated
from their text (python integers; every result is checked against its type)."""
import re
W = {"u32": (0, 32), "u128": (0, 128), "i32": (1, 32), "u64": (0, 64)}


def consts(text):
    env = {}
    for m in re.finditer(r"^\s*(?:pub(?:\(crate\))? )?const (\w+): (u32|u128|i32|u64) =\s*([^;{]*);", text, re.M):
        n, ty, e = m.groups()
        e = re.sub(r"//[^\n]*", "", e)
        e = re.sub(r"(?<=\d)_?(u32|u128|i32|u64|usize)\b", "", e)
        e = re.sub(r"\s+as\s+\w+", "", e)
        e = e.replace("u128::BITS", "128").replace("u32::BITS", "32").replace("/", "//")
        e = re.sub(r"!\s*(\w+)", lambda k: "(%d ^ %s)" % ((1 << W[ty][1]) - 1, k.group(1)), e)
        try:
            v = eval(e, {"__builtins__": {}}, {k: x for k, (_, x) in env.items()})
        except Exception:
            continue
        if n in env:
            continue
        s, b = W[ty]
        lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
        if isinstance(v, int) and lo <= v <= hi:
            env[n] = (ty, v)
    return env


if __name__ == "__main__":
    for k, (t, v) in consts(open("/repo/src/lib.rs").read()).items():
        print(k, t, hex(v))
