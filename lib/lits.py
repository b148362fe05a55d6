"""A fuzzing dictionary: the strings and numbers the code itself mentions.

A value that code compares with is one that random data hardly ever hits.  The
dictionary only ever chooses inputs; no oracle looks at it.  lits.json lists what
the code mentioned when it was last looked through (tools/mklits.py writes it);
whatever has come up since is tried more often."""
import json, os, re

PAT = re.compile(r"(//[^\n]*|/\*.*?\*/)|b?\"((?:\\.|[^\"\\])*)\"|b?'((?:\\(?:x..|u\{[^}]*\}|.)|[^\\'\n]))'|\b(0x[0-9a-fA-F_]+|0o[0-7_]+|0b[01_]+|[0-9][0-9_]*)", re.S)

EXPR = re.compile(r"\b(0x[0-9a-fA-F_]+|[1-9][0-9_]*)(?:_?[ui](?:8|16|32|64|size))?\s*(<<|\*)\s*(0x[0-9a-fA-F_]+|[1-9][0-9_]*)\b")


def decode(t):
    t = re.sub(r"\\\n\s*", "", t)
    t = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int(m.group(1).replace("_", ""), 16)), t)
    try:
        return re.sub(r"\\(x[0-9a-fA-F]{2}|.)", lambda m: {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(m.group(1)) or (chr(int(m.group(1)[1:], 16)) if len(m.group(1)) == 3 else m.group(1)), t)
    except ValueError:
        return ""


def harvest(root):
    strs, ints = set(), set()
    for top in ("sudo_pair/src", "sudo_plugin/src"):
        for dp, _, fs in os.walk(os.path.join(root, top)):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                with open(os.path.join(dp, f), "rb") as h:
                    s = h.read().decode("utf-8", "replace")
                for x, op, y in EXPR.findall(re.sub(r"//[^\n]*", "", s)):
                    x, y = (int(n.replace("_", ""), 0) for n in (x, y))
                    if op == "*" or y < 64:
                        ints.add(x * y if op == "*" else x << y)
                for m in PAT.finditer(s):
                    if m.group(1):
                        continue
                    t = m.group(2) if m.group(2) is not None else m.group(3)
                    if t is not None:
                        t = decode(t)
                        if len(t) <= 40 and "{}" not in t:
                            strs.add(t)
                    else:
                        x = m.group(4).replace("_", "")
                        ints.add(int(x, 0) if x[:2] in ("0x", "0o", "0b") else int(x))
    return sorted(strs), sorted(n for n in ints if n < 1 << 64)


def load(root):
    strs, ints = harvest(root)
    try:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lits.json")) as f:
            old = json.load(f)
    except FileNotFoundError:
        old = {"strings": strs, "numbers": ints}
    return more(strs or [""], set(strs) - set(old["strings"])), ints or [0], sorted(set(ints) - set(old["numbers"]))


def more(pool, new):
    """the pool, with the new ones making up a third of it"""
    new = sorted(new)
    return pool + new * (len(pool) // (2 * len(new)) + 1) if new else pool


def near(ns):
    return sorted({m for n in ns for m in (n - 1, n, n + 1) if m >= 0})


STRS, INTS, NEW = load(os.environ.get("SUDO_PAIR_REPO", "/repo"))
NOSTR = [s for s in STRS if "\0" not in s]
WORDS = [s for s in STRS if re.fullmatch(r"[A-Za-z0-9_#-]{1,20}", s)] or ["x"]
BYTES = [s.encode("latin-1") if max(s, default="a") < "\u0100" else s.encode("utf-8", "replace") for s in STRS]
NEAR = more(near(INTS), near(NEW))
IDS = [n for n in NEAR if n < 4294967295]       # as user, group or process ids
SIZES = [n for n in NEAR if n <= 1 << 17]       # as lengths
COUNTS = [n for n in NEAR if n <= 5000]         # as numbers of things
