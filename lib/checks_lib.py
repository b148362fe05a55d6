"""The sudo_plugin library on its own, driven through its C entry points by /verif/harness:
C15 C16 C17 C19 C20 C21 C22 C24 C31, and the library half of C18."""
import json, os, random, re, shutil, subprocess, tempfile
import build, gen, hcase, lits, model
from framework import Violation, expect
from hcase import Big, HCase, HView, NAMES, PLUGINS, HONOURS, DEFINES, KINDS, ERROR, INFO, need, text
from registry import check
from sim import Env, hx, kv

HARN = "trace monitor over the real library called through its C function table (harness crate, libc's own vsnprintf behind sudo's printf); "


def inv_env(g, printf=True):
    i = gen.Inv("/x")
    i.user.update(user=gen.word(g), uid=gen.ids(g), gid=gen.ids(g), euid=gen.ids(g), egid=gen.ids(g), groups=",".join(map(str, gen.grouplist(g))), host=gen.word(g), pid=g.randrange(1 << 31))
    i.cmd.update(command=g.choice(gen.CMDS), runas_uid=gen.ids(g), runas_gid=gen.ids(g), runas_groups=",".join(map(str, gen.grouplist(g))))
    for k in KINDS:
        i.cmd["iolog_" + k] = g.choice([True, True, False, None, "yes", ""])
    i.argv = [g.choice(gen.CMDS)] + [gen.text(g).encode() for _ in range(g.randrange(5))]
    i.user_env = {gen.word(g): gen.text(g) for _ in range(g.randrange(4))}
    i.opt = {gen.word(g): gen.text(g) for _ in range(g.randrange(4))}
    return i


def spoil(g, e):
    """makes open fail, or not run a command"""
    k = g.randrange(4)
    if k == 0:
        e.ver = g.choice([0, 1, 8, 9, 65535, 1 << 16, (1 << 16) + 8, (1 << 16) + g.randrange(9), g.randrange(65536)])
    elif k == 1:
        key = g.choice(model.USER_ORDER + model.SETTINGS_REQ)
        n = "user_info" if key in model.USER_ORDER else "settings"
        v = [x for x in getattr(e, n) if not x.startswith(key.encode() + b"=")]
        if g.random() < .6:
            v.insert(g.randrange(len(v) + 1), key.encode() + b"=" + g.choice([b"\xff", b"\xc3", b"a\x80b"] + ([b"", b"x", b"-", b"99999999999", b"1,", b" 1"] if key not in ("cwd", "host", "user", "plugin_dir", "plugin_path", "progname") else [])))
        setattr(e, n, v)
    elif k == 2:
        setattr(e, g.choice(["settings", "user_info"]), g.choice([None, []]))
    else:
        e.command_info = g.choice([None, [], [x for x in e.command_info if not x.startswith(b"command=")], [b"command="]])
        if g.random() < .5:
            e.argv, e.argc = None, 0
    return e


def make_env(g, p_bad=.0):
    e = inv_env(g).env()
    if g.random() < p_bad:
        spoil(g, e)
    return e


def datum(g, big=.05):
    x = g.random()
    if x < .1:
        return b""
    if x < .1 + big:
        return g.randbytes(g.choice([255, 256, 4095, 4096, 4097, 65535, 65536, 100000]))
    return g.randbytes(g.randrange(1, 40))


MSGS = ["plain", "100%", "%s%n%d", "%", "", "two\nlines", "caf\u00e9", "a: b", "\x1b[31m", " ", "x" * 500, "%%", "%1$s", "tab\there"]


def msgs(g, mx=4):
    return [(g.choice(MSGS) if g.random() < .6 else gen.text(g).replace("\0", "")).encode() for _ in range(g.randrange(1, mx + 1))]


STATUS = [(1, 1), (0, 1), (-1, 0), (-2, -1), (-1, -1), (0, 0), (1, -1), (-2, 0)]


def err_act(g, modes=(0,), mx=4):
    o, l = g.choice(STATUS)
    return ["err", str(o), str(l), str(g.choice(modes))] + msgs(g, mx)


PANICS = ["panic", "panicint", "panicbomb", "index", "unwrap"]


def a_log(g, kind=None, big=.05):
    if kind is None and g.random() < .15:
        return ("winsize", g.choice([0, 1, 24, 65535, 65536, 2147483648, 4294967295, g.randrange(1 << 32)]), g.choice([0, 1, 80, 65535, 4294967295, g.randrange(1 << 32)]))
    return ("log", kind or g.choice(KINDS), datum(g, big))


def history(g, plugin, nops=12, p_bad=.3, p_act=.3, modes=(0,), panics=True, big=.03):
    """a random life of a plugin table, well or badly behaved"""
    c = HCase(plugin)
    c.conv = g.choice(STATUS)
    envs = [make_env(g, p_bad) for _ in range(g.randrange(1, 4))]
    for e in envs:
        c.env(e, printf=g.random() > .04)
    c.keys = [k.partition(b"=")[0] for e in envs for n in ("user_env", "plugin_options") for k in (getattr(e, n) or [])][:4] + [b"user", b"nosuch", b"command"]
    for _ in range(g.randrange(2, nops + 1)):
        x = g.random()
        if x < .2:
            c.op("open", g.randrange(len(envs)))
        elif x < .35:
            c.op("close", g.choice([0, 1, 256, -1, 2147483647, -2147483648, 139]), g.choice([0, 1, 2, 13, -1]))
        elif x < .42:
            c.op("version", g.choice([0, 1, 2, -1]))
        else:
            c.op(*a_log(g, big=big))
    if g.random() < .7:
        c.ops.insert(0, ("open", 0))
    own = PLUGINS[plugin] == "Own"
    for m in ("open",) + KINDS + ("winsize", "close", "version", "drop"):
        for _ in range(8):
            if g.random() < p_act * (.5 if m == "open" else 1):
                if m == "drop":
                    c.act(m, "ok")
                elif m == "version":
                    c.act(m, "panic" if panics and g.random() < .3 else "ok")
                elif panics and g.random() < .4:
                    c.act(m, g.choice(PANICS if m == "open" or m == "close" else PANICS[:3] + ["unwrap"]))
                elif m == "close":
                    c.act(m, "ok")
                else:
                    c.act(m, *err_act(g, (0,) if own else modes))
            else:
                c.act(m, "ok")
    if g.random() < .08:
        c.pffail = [g.randrange(12) for _ in range(3)]
        c.pferrno = g.choice([5, 9, 32, 28])
    return c


def witness(c, r=None):
    w = {"case": c.text(0), "harness": "build/harness-rel/debug/harness run FILE"}
    if r is not None:
        w["events"] = r.ev[:200]
        if r.crash is not None:
            w["crash"], w["stderr"] = str(r.crash), r.stderr
    return w


def drive(ctx, cases, judge, cmd=None, own=None, **kw):
    """Runs the cases and judges each; a verdict must come out twice."""
    cmd = cmd or [build.harness()]
    res = hcase.run_all(cmd, cases, jobs=ctx.jobs, **kw)
    hangs = 0
    for c, r in zip(cases, res):
        if r is None:
            ctx.incon("not run")
            continue
        try:
            judge(c, r)
        except Violation as v:
            if len(ctx.viol) >= 20:
                continue
            hung = r.crash == "timeout"
            if hung and hangs:
                continue
            hangs += hung
            again = hcase.run_some(cmd, [(0, c)], **dict({k: x for k, x in kw.items() if k in ("env", "preexec", "timeout", "wrap")}, **({"timeout": 100} if hung and "timeout" not in kw else {}))).get(0)
            try:
                judge(c, again)
            except Violation as v2:
                ctx.violate(v2.what, witness(c, again), v2.sig)
                continue
            if hung:
                ctx.incon("slow")
                continue
            # in company it failed, alone it did not: state carried over from an earlier case is a finding, too
            ctx.violate("%s (only after other sessions in the same process)" % v.what, witness(c, r), v.sig)


def only(ctx, tags, cov=True):
    """A judge that reports what concerns this property, and any crash."""
    def judge(c, r):
        try:
            hcase.check_case(c, r, ctx.count if cov else None)
        except hcase.V as v:
            if v.tag in tags or v.tag == "crash":
                raise
            ctx.count("of another property: " + v.tag)
            return
        shape = [c.plugin, [o[:2] if o[0] == "log" else o[0] for o in c.ops], [a[:2] for a in c.acts if a[1] != "ok"], [bool(e.ver) for e in c.envs]]
        ctx.saw(shape, {"ops": [str(o)[:60] for o in c.ops][:8], "plugin": PLUGINS[c.plugin]})
    return judge


# ---------------------------------------------------------------- C15
HOWS = ["write", "write_all", "line", "fmt", "two", "flush", "error"]


def print_case(g, k=0):
    c = HCase(g.choice([0, 1, 4]))
    c.env(inv_env(g).env(), printf=g.random() > .05)
    c.envs[0].command_info = [x for x in c.envs[0].command_info if not x.startswith(b"iolog_ttyin=")] + [b"iolog_ttyin=true"]
    c.op("open", 0)
    for _ in range(g.randrange(1, 5)):
        x = g.random()
        if x < .35:
            d = b"".join(g.choice([b"%s", b"%n", b"%d", b"%", b"%%", b"%999999999d", b"%1$s", b"%hhn", b"%.100000f", b"a", b"\n", b"%c", b"%ls", b"% ", b"%*d", b"%m"]) for _ in range(g.randrange(1, 12)))
        elif x < .55:
            d = bytes(g.randrange(1, 256) for _ in range(g.randrange(1, 200)))
        elif x < .65:
            d = b""
        elif x < .75:
            d = bytes(g.randrange(1, 256) for _ in range(g.choice([1023, 1024, 4095, 4096, 8192, 65536, 200000])))
        elif x < .9:
            d = gen.text(g, 40).encode()
        else:
            d = bytearray(g.randrange(1, 256) for _ in range(g.randrange(1, 60)))
            d[g.randrange(len(d))] = 0
            d = bytes(d)
        how = g.choice(HOWS)
        c.act("ttyin", "printown", g.choice(["stdout", "stderr"]), how, d)
        c.op("log", "ttyin", b"x")
    c.op("version", 0)
    c.op("close", 0, 0)
    if g.random() < .15:
        c.pffail = [g.randrange(8)]
        c.pferrno = g.choice([5, 9, 32, 28, 105])
    return c


def tiny_cases(g):
    """every message of one byte, and every byte before and after another, through every writer"""
    texts = [bytes([b]) for b in range(256)] + [bytes([b, 65]) for b in range(256)] + [bytes([65, b]) for b in range(256)]
    for how in HOWS:
        for where in ("stdout", "stderr"):
            for k in range(0, len(texts), 48):
                c = HCase(0)
                c.env(inv_env(g).env(), printf=True)
                c.envs[0].command_info = [x for x in c.envs[0].command_info if not x.startswith(b"iolog_ttyin=")] + [b"iolog_ttyin=true"]
                c.op("open", 0)
                for d in texts[k:k + 48]:
                    c.act("ttyin", "printown", where, how, d)
                    c.op("log", "ttyin", b"x")
                c.op("close", 0, 0)
                yield c


def lossy(d):
    return d.decode("utf-8", "replace").encode()      # Rust's and Python's replacement policies are the same


def judge_print(ctx):
    def judge(c, r):
        ops = r.by_op()
        if r.crash is not None:
            raise Violation("the process died (%s) while printing\n%s" % (r.crash, r.stderr[-800:]), "crash")
        acts = list(c.acts)
        name = NAMES[c.plugin]
        for i, o in enumerate(c.ops):
            evs = ops.get(i, [])
            for e in evs:
                if e["e"] == "printf":
                    expect(e["level"] in (ERROR, INFO), "message at level %r" % e["level"], "level")
                    expect("badformat" not in e, "vsnprintf rejected the format", "format")
            if o[0] == "version":
                if c.plugin == 1 and c.envs[0].printf and not any(e.get("fail") for e in evs):
                    expect(text(evs) == b"p%s one plugin to log them all I/O plugin version 7.7-%d\n", lambda: "version printed as %r" % text(evs), "version")
                continue
            if o[0] != "log":
                continue
            a = acts.pop(0)
            where, how, d = a[2], a[3], a[4]
            level = INFO if where == "stdout" else ERROR
            w = [e for e in evs if e["e"] == "wrote"]
            expect(len(w) == 1, "the writer did not return", "no result")
            w = w[0]
            pf = [e for e in evs if e["e"] == "printf"]
            out = text(evs)
            expect(all(e["level"] == level for e in pf), "%s printed at level %r" % (where, [e["level"] for e in pf]), "level")
            if how in ("fmt", "error"):
                d = lossy(d) if how == "fmt" else d
            full = {"line": name + b": " + d + b"\n"}.get(how, d)
            if how == "error":
                full = b"\n" + b"".join(name + b": " + lossy(m) + b"\n" for m in d.split(b"\n"))
            if not c.envs[0].printf:
                if full or how == "write":
                    expect("err" in w and not pf, "without sudo's printf a write gave %r" % w, "no printf")
                ctx.count("no printf")
            elif any(e.get("fail") for e in pf):
                expect("err" in w, "a failing printf gave %r" % w, "failing printf")
                expect(pf[-1].get("fail"), "printf was called again after it failed", "printing after a failure")
                expect(full.startswith(out), lambda: "%r printed before the failure" % out, "printed before a failure")
                ctx.count("printf failed")
            elif b"\0" in full:
                expect("err" in w, "a message with a NUL byte gave %r" % w, "NUL accepted")
                expect(full[:full.index(b"\0")].startswith(out) and (how not in ("write", "write_all", "flush") or not out), lambda: "a message with a NUL byte printed %r" % out, "NUL printed")
                ctx.count("NUL")
            else:
                expect("ok" in w, "a write of %r failed: %r" % (d[:80], w), "write failed")
                expect(out == full, lambda: "%r was printed as %r" % (full[:300], out[:300]), "not literal")
                if how == "write":
                    expect(w["ok"] == str(len(d)), "write returned %r for %d bytes" % (w["ok"], len(d)), "write count")
                ctx.count(how)
            ctx.saw([how, where, d[:64].hex(), len(d), c.plugin], {"how": how, "text": repr(d[:40]), "printed": repr(out[:60])}, nontrivial=b"%" in d or len(d) > 1000 or b"\0" in d)
    return judge


@check("C15", "A plugin writing hostile texts (format directives, arbitrary bytes, 200 kB, NUL bytes) through the library's writers to a printf that really formats, with printf failing or absent. Non-trivial: the text has a % or NUL, or is long; distinct (writer, text). Every one-byte text, and every byte before and after a letter, through every writer.",
       HARN + "oracle: literal equality of what vsnprintf made of each call; the AddressSanitizer build runs a part of the cases",
       "printf results other than a byte count or -1 are not tried (sudo returns none).")
def c15(ctx):
    j = judge_print(ctx)
    drive(ctx, list(tiny_cases(ctx.sub("t", 0))), j, chunk=32)
    drive(ctx, [print_case(ctx.sub("p", i)) for i in range(ctx.n(3000, 120000))], j, chunk=ctx.n(150, 400))
    drive(ctx, [print_case(ctx.sub("a", i)) for i in range(ctx.n(400, 10000))], j, cmd=[build.harness_asan()], env=asan_env(), chunk=50)
    # errors and their causes are printed literally, too
    def err_case(g):
        c = HCase(g.choice([0, 1]))
        c.env(inv_env(g).env())
        c.act("open", *err_act(g))
        c.op("open", 0)
        return c
    drive(ctx, [err_case(ctx.sub("e", i)) for i in range(ctx.n(500, 5000))], only(ctx, ("C15",)))


# ---------------------------------------------------------------- C16
def unicode_text(g, n=8):
    return "".join(g.choice("abz019,:=/ .-+\u00e9\u4e2d\U0001f600TtrueFals") for _ in range(g.randrange(n + 1)))


def value(g):
    x = g.random()
    if x < .2:
        b = g.choice([0, 1, 7, 8, 15, 16, 31, 32, 63, 64])
        v = (1 << b) + g.choice([-2, -1, 0, 1])
        s = str(v if g.random() < .6 else -v)
        return (g.choice(["", "", "", "0", "+", "000", " ", "+0"]) + s).encode()
    if x < .3:
        return g.choice([b"true", b"false", b"True", b"TRUE", b"true ", b" true", b"1", b"0", b"yes", b"", b"tru", b"truee", b"false\n", b"on"])
    if x < .45:
        return ",".join(str(g.choice([0, 1, 255, 256, -1, 127, 128, 65535, 4294967295, 4294967296, 2147483648, 18446744073709551615])) for _ in range(g.randrange(0, 5))).encode()
    if x < .55:
        return g.choice([b"1,,2", b",1", b"1,", b",", b"1, 2", b"1;2", b"1,2,3", b"3,2,1,1,2", b"a,b,c", b"/a,/b", b"1,x,3"])
    if x < .65:
        ips = ["127.0.0.1", "255.255.255.0", "0.0.0.0", "::1", "fe80::1", "2001:db8::ff00:42:8329", "256.0.0.1", "1.2.3", "::ffff:1.2.3.4", "ffff:ffff:ffff:ffff::", "", "x"]
        return " ".join(g.choice(ips) + g.choice(["/", "/", "/", "", "//"]) + g.choice(ips) for _ in range(g.randrange(1, 4))).encode()
    if x < .75:
        return g.choice([b"0x10", b"1e3", b"1.0", b"--1", b"+-1", b"-", b"+", b"-0", b"+0", b"\xd9\xa1", "\u0661".encode(), b"1_000", b"9" * 40, b"0" * 300 + b"7", b"-" + b"0" * 30 + b"128"])
    if x < .78:
        return g.choice(lits.BYTES) if g.random() < .7 else str(g.choice(lits.NEAR)).encode()
    if x < .8:
        return b",".join([str(g.choice(lits.NEAR + [7])).encode()] * (g.choice(lits.COUNTS) % 600))
    if x < .88:
        return gen.rbytes(g, g.randrange(1, 6), b"\xff\xc3\xa9\x80a=,1")
    return unicode_text(g, 12).encode()


EDGES = [b"/", b" ", b",", b"\n", b"\t", b"0", b"x", b";", b".", b"-", b"+", b"=", b":", b"'", b"\"", b"\xff", b"\r", b"_", b"%", b"e", b"\xc2\xa0", b"true", b"1", b"//", b" 1", b"\\"]


def spice(g, v):
    """a value nearly right: something in front, behind or in between"""
    x = g.random()
    if x < .4: return v + g.choice(EDGES)
    if x < .7: return g.choice(EDGES) + v
    if x < .9:
        k = g.randrange(len(v) + 1)
        return v[:k] + g.choice(EDGES) + v[k:]
    return v.swapcase() if v != v.swapcase() else v + v


def entry(g, keys):
    x = g.random()
    k = g.choice(keys) if g.random() < .95 else g.choice(lits.BYTES).replace(b"\0", b"")
    if x < .7:
        v = value(g).replace(b"\0", b"")
        return k + b"=" + (v if g.random() > .15 else spice(g, v))
    if x < .8:
        return k
    if x < .85:
        return b""
    if x < .9:
        return b"=" + value(g)
    return gen.rbytes(g, g.randrange(1, 30), b"ab=\xff,1\x01")


INTS = {"i8": (8, True), "u8": (8, False), "i16": (16, True), "u16": (16, False), "i32": (32, True), "u32": (32, False), "i64": (64, True), "u64": (64, False)}
NO = object()


def ip(s):
    import ipaddress
    if not s or "%" in s:
        return None
    try:
        return ipaddress.ip_address(s)
    except ValueError:
        return None


def net(s):
    a, sep, k = s.partition("/")
    a, k = ip(a), ip(k)
    return NO if a is None or k is None else (a, k)


def show_net(x):
    return x


def typed(kind, s):
    """value of that type, or NO"""
    if kind == "bool":
        return {"true": True, "false": False}.get(s, NO)
    if kind in INTS:
        v = model.p_int(s, *INTS[kind])
        return NO if v is None else v
    if kind in ("string", "path"):
        return s.encode().hex()
    if kind == "net":
        return net(s)
    f, k = kind.split("_")
    out = [typed(k, x) for x in s.split(" " if k == "net" else ",")]
    if any(x is NO for x in out):
        return NO
    return out if f == "v" else set(out)


def path_parts(h):
    """what std::path::Path compares: no repeated or trailing slash, and no `.` but the first part of a relative path"""
    p = bytes.fromhex(h).split(b"/")
    root = len(p) > 1 and p[0] == b""
    return (root,) + tuple(c for k, c in enumerate(p) if c and (c != b"." or k == 0 and not root))


def same(kind, got, want):
    import ipaddress
    if kind == "net":
        a, k = got.split("/")
        return (ipaddress.ip_address(a), ipaddress.ip_address(k)) == want
    if kind == "v_net":
        return len(got) == len(want) and all(same("net", x, y) for x, y in zip(got, want))
    if kind == "h_path":       # two spellings that Path takes for the same make one member
        n = [path_parts(x) for x in got]
        return len(n) == len(set(n)) and set(got) <= want and set(n) == {path_parts(x) for x in want}
    if kind.startswith("h_"):
        return len(got) == len(set(got)) and set(got) == want
    return type(got) == type(want) and got == want


KINDS_T = ["bool"] + list(INTS) + ["string", "path", "net"] + ["v_" + k for k in INTS] + ["v_path", "v_net", "h_u32", "h_i64", "h_path"]


def map_case(g):
    c = HCase(0)
    base = [gen.word(g, 4).encode() for _ in range(g.randrange(1, 4))] + [b"k", b"\xff", "\u00e9".encode()]
    n = g.choice([0, 1, 2, 5, 20]) if g.random() < .98 else g.choice([100, 300, 1100, g.choice(lits.COUNTS)])
    e = Env(settings=None if g.random() < .03 else [entry(g, base).replace(b"\0", b"") for _ in range(n)])
    c.env(e)
    ks = set(base) | {b"", b"nosuch", b"k=", b"K"}
    for x in e.settings or []:
        ks |= {x, x.partition(b"=")[0], x.partition(b"=")[2], x.partition(b"=")[0] + b" ", x.rpartition(b"=")[0]}
    c.keys = g.sample(sorted(ks), min(len(ks), 8))
    if n > 50:
        c.keys += [x.partition(b"=")[0] for x in (e.settings or [b""])[-3:]]
    c.op("map")
    return c


def judge_map(ctx):
    def judge(c, r):
        if r.crash is not None:
            raise Violation("the process died (%s) reading options\n%s" % (r.crash, r.stderr[-800:]), "crash")
        m = model.parse_map(c.envs[0].settings)
        looks = [e for e in r.ev if e["e"] == "look"]
        expect(len(looks) == len(c.keys), "lookups didn't finish (a panic?): %d of %d" % (len(looks), len(c.keys)), "unfinished")
        for e in looks:
            k = bytes.fromhex(e["k"])
            raw = m.get(k)
            expect(e["bytes"] == (None if raw is None else raw.hex()), lambda: "get_bytes(%r) of %r gave %r" % (k, c.envs[0].settings, e["bytes"]), "get_bytes")
            if "str" not in e:
                continue
            s = model.utf8(raw)
            expect(e["str"] == (None if s is None else s.encode().hex()), lambda: "get_str(%r) of %r gave %r" % (k, raw, e["str"]), "get_str")
            for t in KINDS_T:
                got = e[t]
                if s is None:
                    # absent, or there but not text
                    kinds = ("missing",) if raw is None else ("missing", "invalid")
                    expect("ok" not in got and got["kind"] in kinds and got["key"] == e["k"], lambda: "get::<%s>(%r) of %r gave %r" % (t, k, raw, got), "get of no text as " + t)
                    continue
                want = typed(t, s)
                if want is NO:
                    expect("ok" not in got and got["kind"] == "invalid" and got["key"] == e["k"] and got["value"] == s.encode().hex(),
                           lambda: "get::<%s>(%r) of %r gave %r" % (t, k, raw, got), "get of an unusable value as " + t)
                else:
                    expect("ok" in got and same(t, got["ok"], want), lambda: "get::<%s>(%r) of %r gave %r, not %r" % (t, k, raw, got, want), "get of a value as " + t)
                    ctx.count(t)
            ctx.saw([k.hex(), None if raw is None else raw.hex()], {"key": repr(k), "value": repr(raw)[:80]}, nontrivial=raw is not None)
    return judge


@check("C16", "Random option vectors (duplicates, no '=', several '=', not UTF-8, NULL and empty arrays) in exactly sized heap blocks, looked up by present, absent and nearly present keys as every type the library converts to. Non-trivial: the key is there; distinct (key, value).",
       HARN + "oracle: an independent parser in Python (strings, booleans, eight integer widths, addresses, lists, sets); over-reads: AddressSanitizer build",
       "A list entry that isn't UTF-8 may be reported as missing or as invalid.")
def c16(ctx):
    j = judge_map(ctx)
    drive(ctx, [map_case(ctx.sub("m", i)) for i in range(ctx.n(6000, 250000))], j)
    drive(ctx, [map_case(ctx.sub("a", i)) for i in range(ctx.n(1000, 20000))], j, cmd=[build.harness_asan()], env=asan_env(), chunk=150)


# ---------------------------------------------------------------- C17
def jval(v):
    """a model value as the harness writes it"""
    if isinstance(v, bytes):
        return v.hex()
    if isinstance(v, str):
        return v.encode().hex()
    if isinstance(v, (list, tuple)):
        return [jval(x) for x in v]
    return v


FIELDS = {
    "settings": model.SETTINGS_REQ + model.SETTINGS_OPT_STR + list(model.SETTINGS_OPT_U64) + model.SETTINGS_BOOL + ["network_addrs"],
    "user": model.USER_ORDER + ["umask", "cols", "lines", "sid", "tcpgid", "tty"],
    "command": ["command", "cwd", "runas_gid", "runas_uid", "runas_egid", "runas_euid", "umask", "umask_override", "preserve_fds", "runas_groups"] + model.CMD_OPT_STR
               + list(model.CMD_OPT_U64) + list(model.CMD_BOOL),
}


def raw_key(which, f):
    if which == "settings":
        return model.KEYS.get(f) or model.SETTINGS_OPT_U64.get(f) or f
    if which == "command":
        return model.CMD_OPT_U64.get(f) or f
    return f


def plausible(g, which, f):
    b = model.SETTINGS_BOOL + list(model.CMD_BOOL) + ["umask_override"]
    if f in b:
        return g.choice([b"true", b"false", b"true", b"TRUE", b"", b"1", b"false "])
    if f in ("groups", "runas_groups", "preserve_fds"):
        return g.choice([b"1,2,3", b"0", b"", b"5,", b"4294967295", b"4294967296", b"-1", b"1 2", b"7,7", b"0,00,+3"])
    if f == "network_addrs":
        return g.choice([b"127.0.0.1/255.0.0.0", b"1.2.3.4/255.255.255.0 fe80::1/ffff::", b"", b"x", b"1.2.3.4"])
    if f == "umask":
        return g.choice([b"0022", b"022", b"22", b"0", b"0777", b"8", b"0o22", b"077777777777", b"-1", b"", b"\xff"])
    if f in ("cwd", "command", "tty", "user", "host", "chroot", "prompt", "progname"):
        return g.choice([b"", b"/x", b"/caf\xe9", "/caf\u00e9".encode(), b"a b", b"%s", b"x" * 300, b"=", b"a=b"])
    if f in model.USER_REQ or f in model.CMD_OPT_U64 or f in model.SETTINGS_OPT_U64 or f in ("cols", "lines", "sid", "tcpgid") or f.startswith("runas_") and which == "command":
        return g.choice([b"0", b"1", b"1000", b"2147483647", b"2147483648", b"4294967295", b"4294967296", b"-1", b"-2147483648", b"-2147483649", b"18446744073709551615",
                         b"18446744073709551616", b"", b" 5", b"5 ", b"+5", b"007", b"0x1", b"\xff", b"five"])
    return value(g).replace(b"\0", b"")


def view_case(g, which):
    c = HCase(0)
    ents = []
    for f in FIELDS[which]:
        x = g.random()
        p = .04 if f in model.SETTINGS_REQ or f in model.USER_ORDER else .5
        if x < p:
            continue
        k = raw_key(which, f).encode()
        req = f in model.SETTINGS_REQ or f in model.USER_ORDER
        if req and g.random() < .93:
            v = g.choice([b"1", b"4711", b"2147483647"]) if f not in ("cwd", "host", "user", "groups") else g.choice([b"7", b"4294967295", b"0"])
        else:
            v = plausible(g, which, f)
        if g.random() < (.02 if req else .12):
            v = spice(g, v)
        ents.append(k + b"=" + v)
        if g.random() < .05:
            ents.append(k + b"=" + plausible(g, which, f))
        if g.random() < .02:
            ents.append(k)
    for _ in range(g.randrange(3)):
        ents.append(entry(g, [b"other", b"bsd_auth_type", b"close_from", b"exec_fd", b"User", b"uid "]))
    if g.random() < .7:
        g.shuffle(ents)
    c.env(Env(settings=ents if g.random() > .01 else None))
    c.keys = [b"user", b"cwd", b"other", b"umask"]
    c.op("view", which)
    c.which = which
    return c


def judge_view(ctx, own=(0, 0)):
    fn = {"settings": model.settings, "user": model.user_info, "command": lambda m: model.command_info(m, *own)}

    def judge(c, r):
        if r.crash is not None:
            raise Violation("the process died (%s) building the %s view\n%s" % (r.crash, c.which, r.stderr[-800:]), "crash")
        m = model.parse_map(c.envs[0].settings)
        e = [x for x in r.ev if x["e"] == "view"]
        expect(len(e) == 1 and not e[0].get("panicked"), lambda: "building the %s view of %r panicked" % (c.which, c.envs[0].settings), "panic")
        e = e[0]
        try:
            want = fn[c.which](m)
        except model.Bad:
            bad = [k for k in (model.SETTINGS_REQ if c.which == "settings" else model.USER_ORDER)
                   if (model.USER_REQ[k] if c.which == "user" else model.p_str)(model.utf8(m.get(k.encode()))) is None]
            expect("err" in e, lambda: "a %s view was built although %r is unusable" % (c.which, bad), "view of unusable data")
            k = bytes.fromhex(e["err"]["key"]).decode()
            expect(k in bad and k.encode() in bytes.fromhex(e["err"]["text"]), lambda: "the %s view was refused for %r, unusable are %r" % (c.which, e["err"], bad), "wrong entry named")
            ctx.count("refused")
            ctx.saw([c.which, "refused", bad])
            return
        expect("ok" in e, lambda: "a %s view was refused: %r" % (c.which, e.get("err")), "view refused")
        for f in FIELDS[c.which]:
            if f == "network_addrs":
                w, gt = want[f], e["ok"][f]
                ok = len(gt) == len(w) and all(same("net", x, (ip(y[0]), ip(y[1]))) for x, y in zip(gt, w))
            else:
                w, gt = jval(want[f]), e["ok"][f]
                ok = gt == w and (not isinstance(w, bool) or isinstance(gt, bool))
            raw = m.get(raw_key(c.which, f).encode())
            sig = "%s.%s" % (c.which, f)
            if not ok and sig == "command.nice" and raw is not None and re.fullmatch(rb"-0*[1-9][0-9]*", raw):
                sig = "never"
            expect(ok, lambda: "%s.%s of %r is %r, not %r" % (c.which, f, raw, gt, w), sig)
            if sig == "command.nice" and raw is not None and re.fullmatch(rb"-(0*[1-9]|1[0-9]|20)", raw) and gt is None:
                ctx.violate("a negative priority (nice=%s) is read as if none was given" % raw.decode(), witness(c, r), "a negative priority (nice=-N) is read as if none was given")
            if raw is not None:
                ctx.count("%s.%s" % (c.which, f))
        for k, x in zip(c.keys, e["raw"]):
            expect(x == (None if m.get(k) is None else m[k].hex()), "raw[%r] is %r" % (k, x), "raw data")
        ctx.saw([c.which, [x.hex() for x in c.envs[0].settings or []]], {"view": c.which, "entries": [repr(x)[:40] for x in (c.envs[0].settings or [])[:6]]}, nontrivial=bool(c.envs[0].settings))
    return judge


def copied_harness(ctx):
    """The harness where other users can run it."""
    p = os.path.join(ctx.scratch.base, "harness")
    if not os.path.exists(p):
        shutil.copy(build.harness(), p)
        os.chmod(p, 0o755)
    return p


def as_user(ruid, euid, rgid, egid):
    def f():
        os.setgroups([])
        os.setresgid(rgid, egid, egid)
        os.setresuid(ruid, euid, euid)
    return f


@check("C17", "Random settings, user and command vectors: every field absent, well-formed, at the edges of its type, malformed or not UTF-8, in any order. Non-trivial: the vector isn't empty; distinct vectors.",
       HARN + "oracle: an independent model of every field (type, entry name, default); run as root and, for the defaults that depend on it, under real ids that differ from the effective ones",
       "Entry names and forms are those of sudo_plugin(5) and of the installed sudo binary. A negative nice value is a known finding.")
def c17(ctx):
    n = ctx.n(2500, 90000)
    for w in ("settings", "user", "command"):
        drive(ctx, [view_case(ctx.sub(w, i), w) for i in range(n)], judge_view(ctx))
    exe = copied_harness(ctx)
    for ruid, euid, rgid, egid in ((1000, 1001, 1002, 1003), (0, 77, 0, 78), (65534, 5, 6, 65533)):
        drive(ctx, [view_case(ctx.sub("ids", ruid, i), "command") for i in range(ctx.n(300, 4000))], judge_view(ctx, (euid, egid)), cmd=[exe], preexec=as_user(ruid, euid, rgid, egid))
    nice = HCase(0)
    nice.env(Env(settings=[b"command=/bin/ls", b"nice=-5"]))
    nice.keys, nice.which = [b"nice"], "command"
    nice.op("view", "command")
    drive(ctx, [nice], judge_view(ctx))
    # what a plugin sees in open is the same
    cases = []
    for i in range(ctx.n(600, 8000)):
        g = ctx.sub("open", i)
        c = HCase(g.choice([0, 1, 2]))
        v = view_case(g, "command").envs[0].settings or []
        e = inv_env(g).env()
        if g.random() < .7:
            e.command_info = [b"command=/bin/ls"] + [x for x in v if not x.startswith(b"command")]
        if g.random() < .5:
            e.settings = [x for x in view_case(g, "settings").envs[0].settings or []]
        c.env(e)
        c.dump = True
        c.op("open", 0)
        cases.append(c)

    def judge(c, r):
        v = HView(c.envs[0])
        o = [e for e in r.ev if e["e"] == "call" and e["m"] == "open"]
        if r.crash is not None:
            raise Violation("the process died (%s)\n%s" % (r.crash, r.stderr[-800:]), "crash")
        if not v.ok:
            return
        expect(len(o) == 1, "open did not reach the plugin", "open")
        for part, want in (("settings", v.settings), ("uinfo", v.user_info), ("cinfo", v.cmd)):
            for f, w in want.items():
                if f != "network_addrs":
                    expect(o[0][part][f] == jval(w), lambda: "in open, %s.%s is %r, not %r" % (part, f, o[0][part][f], jval(w)), "%s.%s" % (part, f))
        ctx.saw(["open"] + [x.hex() for x in c.envs[0].command_info])
        ctx.count("opened")
    drive(ctx, cases, judge)


# ---------------------------------------------------------------- C18 (library half)
def versions(ctx):
    """Called by C18's check: every boundary version and a random sample, refused or accepted."""
    vs = set()
    for hi in list(range(0, 12)) + [255, 256, 32767, 32768, 65534, 65535]:
        for lo in list(range(0, 20)) + [255, 256, 265, 32767, 32768, 65534, 65535]:
            vs.add(hi << 16 | lo)
    vs |= {ctx.rng.randrange(1 << 32) for _ in range(ctx.n(1500, 60000))} | {1 << 16 | x for x in range(0, 65536, ctx.n(97, 1))}
    vs |= {x << 16 | y for x in range(0, 65536, ctx.n(331, 7)) for y in (0, 8, 9, 10)}
    cases = []
    for v in sorted(vs):
        g = ctx.sub("v", v)
        c = HCase(g.randrange(5))
        e = inv_env(g).env()
        e.ver = v
        c.env(e)
        c.dump = True
        c.op("open", 0)
        c.op("log", "stdout", b"x")
        cases.append(c)
    for i in range(ctx.n(2500, 40000)):
        g = ctx.sub("bad", i)
        c = HCase(g.randrange(5))
        c.env(spoil(g, inv_env(g).env()))
        c.dump = True
        c.op("open", 0)
        c.op("log", g.choice(KINDS), b"x")
        cases.append(c)
    base = only(ctx, ("C18", "C19"), cov=False)

    def judge(c, r):
        base(c, r)
        v = HView(c.envs[0])
        for e in r.ev:
            if e["e"] == "call" and e["m"] == "open":
                expect(e["ver"] == v.ver and e["apiver"] == "%d.%d" % v.version, "version %#x reaches the plugin as %r, shown as %r" % (v.ver, e["ver"], e["apiver"]), "version")
        ctx.count("library: old version" if v.badver else "library: unusable entry" if v.bad else "library: accepted")
    drive(ctx, cases, judge)


# ---------------------------------------------------------------- C19
def failing_case(g, i):
    """every method in turn, failing in every way"""
    p = g.choice([0, 0, 0, 1, 4])
    c = HCase(p)
    own = PLUGINS[p] == "Own"
    c.conv = g.choice(STATUS)
    e = inv_env(g).env()
    e.command_info = [x for x in e.command_info if not x.startswith(b"iolog_")] + [("iolog_%s=true" % k).encode() for k in KINDS]
    c.env(e)
    bad = lambda m: [g.choice(PANICS if m in ("open", "close") else ["panic", "panicint", "panicbomb", "unwrap"])] if g.random() < .4 else err_act(g, (0,) if own else (0, 0, 0, 1, 2, 3, 4), 6)
    if g.random() < .35:
        c.act("open", *bad("open"))
        c.op("open", 0)
        c.op(*a_log(g))
        if g.random() < .5:
            c.op("open", 0)
            c.act("open", "ok")
            c.op(*a_log(g))
        c.op("close", 0, 0)
        return c
    c.op("open", 0)
    for _ in range(g.randrange(1, 7)):
        o = a_log(g)
        m = o[1] if o[0] == "log" else "winsize"
        c.act(m, *(bad(m) if g.random() < .7 else ["ok"]))
        c.op(*o)
    if g.random() < .5:
        c.op("version", 1)
        if own:
            c.act("version", "panic")
    if g.random() < .6:
        c.act("close", g.choice(PANICS))
    if g.random() < .3:
        c.act("drop", "panic") if not any(a[0] == "close" and a[1] != "ok" for a in c.acts) else None
    c.op("close", 1, 2)
    c.op(*a_log(g))
    c.op("open", 0)
    c.op(*a_log(g))
    return c


def chain_case(g, n):
    c = HCase(g.choice([0, 1]))
    c.env(inv_env(g).env())
    o, l = g.choice(STATUS)
    ms = [("cause %d %%s" % k).encode() for k in range(n)]
    if g.random() < .5:
        c.act("open", "err", str(o), str(l), "0", *ms)
        c.op("open", 0)
    else:
        c.op("open", 0)
        c.act("winsize", "err", str(o), str(l), "0", *ms)
        c.op("winsize", 1, 1)
    return c


@check("C19", "Plugins whose methods return errors (with up to 400 causes, every mapping of statuses), panic with every kind of payload (one whose destructor panics included), or hand over an error that panics when shown, converted or dropped. Non-trivial: all; distinct (calls, behaviours).",
       HARN + "oracle: return value and printed text of every call; an abort, a foreign unwind or an endless stream of messages is seen as the end of the process",
       "A plugin that panics while it is already unwinding aborts any Rust program and is left out, as are messages with a NUL byte (C15).")
def c19(ctx):
    j = only(ctx, ("C19", "C15"))
    out = subprocess.run([build.harness(), "abi"], stdout=subprocess.PIPE, check=True).stdout.decode().split("\n")
    st = {e["name"]: e["v"] for e in map(json.loads, filter(None, out)) if e["e"] == "status"}
    for w in ("ok", "thread_ok", "err", "error", "panic", "thread_err", "thread_panic"):    # an outcome as a status
        for k, good, bad in (("open", 1, -1), ("log", 1, 0)):
            n = k + "_of_" + w
            ctx.count("outcome as a status")
            if st.get(n) != (good if w.endswith("ok") else bad):
                ctx.violate("%s: an outcome converts into status %r" % (n, st.get(n)), {"of": n}, "conversion " + n)
    drive(ctx, [failing_case(ctx.sub("f", i), i) for i in range(ctx.n(6000, 200000))], j)
    drive(ctx, [chain_case(ctx.sub("c", n), n) for n in list(range(1, 40)) + [100, 256, 400] * ctx.n(1, 20)], j)
    drive(ctx, [history(ctx.sub("h", i), i % 5, p_act=.5, modes=(0, 1, 2, 3, 4)) for i in range(ctx.n(2000, 50000))], j)


# ---------------------------------------------------------------- C20
@check("C20", "Sessions of every kind of plugin (methods defined or not, hints honoured or not), all combinations of the five hints, buffers of every length up to 100 kB and of some up to 4 GiB - 1, every window size. Non-trivial: all; distinct (plugin, hints, calls).",
       HARN + "oracle: each call reaches the method of its name once with exactly its bytes, unless the hint says otherwise",
       "")
def c20(ctx):
    cases = []
    for i in range(ctx.n(6000, 200000)):
        g = ctx.sub("d", i)
        c = HCase(i % 5)
        e = inv_env(g)
        hints = (i // 5) % 243
        for k in KINDS:
            e.cmd["iolog_" + k] = [True, False, None][hints % 3]
            hints //= 3
        c.env(e.env())
        c.op("open", 0)
        for k in g.sample(KINDS, 5) if i % 3 else [g.choice(KINDS) for _ in range(6)]:
            c.op(*a_log(g, k, big=.08))
            if g.random() < .3:
                c.op("winsize", g.randrange(1 << 32), g.randrange(1 << 32))
        c.op("close", g.randrange(256), 0)
        cases.append(c)
    drive(ctx, cases, only(ctx, ("C20", "C21")))
    # every length around the powers of two
    g = ctx.sub("len")
    cases = []
    for n in [x + y for x in (1 << 20, 1 << 22) for y in (-1, 0, 1)] + [3000001]:
        for k in KINDS[n % 2::2]:
            c = HCase(1)
            e = inv_env(g)
            e.cmd["iolog_" + k] = True
            c.env(e.env())
            c.op("open", 0)
            c.op("log", k, g.randbytes(n))
            cases.append(c)
    drive(ctx, cases, only(ctx, ("C20", "C21")), chunk=2)
    # every width a length may be cut down to
    c = HCase(1)
    e = inv_env(g)
    for k in KINDS:
        e.cmd["iolog_" + k] = True
    c.env(e.env())
    c.op("open", 0)
    for i, n in enumerate([10 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 100000000, (1 << 28) + 3, (1 << 31) - 1, 1 << 31, (1 << 31) + 9, (1 << 32) - 1]):
        for k in KINDS if n < 1 << 28 else [KINDS[(i + x) % 5] for x in range(ctx.n(2, 5))]:
            c.op("log", k, Big(n))
    drive(ctx, [c], only(ctx, ("C20", "C21")))
    cases = []
    for n in list(range(0, 300)) + [x + y for x in (512, 1024, 4096, 8192, 65536, 131072) for y in (-1, 0, 1)]:
        c = HCase(1)
        c.env(inv_env(g).env())
        c.op("open", 0)
        for k in KINDS:
            c.op("log", k, g.randbytes(n))
        cases.append(c)
    # every byte alone and beside others, the same call over and over
    for k in KINDS:
        for part in range(4):
            c = HCase(1)
            e = inv_env(g)
            for x in KINDS:
                e.cmd["iolog_" + x] = True
            c.env(e.env())
            c.op("open", 0)
            for b in range(256):
                c.op("log", k, [bytes([b]), bytes([b, 65]), bytes([65, b]), bytes([b, b])][part])
            cases.append(c)
    for _ in range(ctx.n(100, 1000)):
        c = HCase(1)
        e = inv_env(g)
        for x in KINDS:
            e.cmd["iolog_" + x] = True
        c.env(e.env())
        c.op("open", 0)
        for _ in range(g.randrange(2, 6)):
            d = g.randbytes(g.randrange(4))
            for _ in range(g.randrange(2, 6)):
                c.op("log", g.choice(KINDS), d)
            size = g.choice([0, 24, 80, 1 << 16]), g.choice([0, 24, 80, 1 << 31])
            for _ in range(g.randrange(3)):
                c.op("winsize", *size)
        cases.append(c)
    drive(ctx, cases, only(ctx, ("C20", "C21")), chunk=40)


# ---------------------------------------------------------------- C21
@check("C21", "Random histories of open, callbacks, version and close over up to three sets of arguments, opens refused by the library or by the plugin, sessions never closed, calls before, between and after. Non-trivial: all; distinct histories.",
       HARN + "oracle: a reference state machine (who is called, with what, who is destroyed when); the AddressSanitizer build catches a plugin outliving the environment it borrows",
       "Plugin destructors that panic are only tried in close.")
def c21(ctx):
    j = only(ctx, ("C21",))
    drive(ctx, [history(ctx.sub("h", i), i % 5, nops=ctx.n(14, 30)) for i in range(ctx.n(8000, 250000))], j)
    drive(ctx, [history(ctx.sub("a", i), i % 5, nops=14) for i in range(ctx.n(800, 20000))], j, cmd=[build.harness_asan()], env=asan_env(), chunk=100)
    # exhaustively: every short history of one table
    import itertools
    alpha = [("open", 0), ("open", 1), ("open", 2), ("log", "stdout", b"ab"), ("winsize", 3, 4), ("close", 5, 6), ("version", 0)]
    cases = []
    for n in range(1, ctx.n(4, 5) + 1):
        for seq in itertools.product(alpha, repeat=n):
            g = ctx.sub("x")
            c = HCase(0)
            good = inv_env(g)
            good.cmd["iolog_stdout"] = True
            c.env(good.env())
            b = good.env()
            b.user_info = [x for x in b.user_info if not x.startswith(b"uid=")]
            c.env(b)
            good.user["user"] = "someone-else"
            c.env(good.env())
            c.act("open", "ok").act("open", *["err", "-1", "0", "0", b"no"])
            for o in seq:
                c.op(*o)
            cases.append(c)
    ctx.extra["exhaustive_histories"] = len(cases)
    drive(ctx, cases, j)
    import checks_session
    checks_session.several(ctx, ctx.n(1200, 30000))


# ---------------------------------------------------------------- C32
def side_by_side(g, nops):
    """Lives of several tables of one library, and what becomes of each without the others."""
    tables = g.sample(range(6), g.choice([2, 2, 3, 4]))
    if g.random() < .3:
        tables = [0, 5] + [t for t in tables if t not in (0, 5)][:1]        # two of one type
    c = HCase(tables[0])
    c.conv, c.dump = g.choice(STATUS), g.random() < .3
    lives = []
    for t in tables:
        h = history(g, t % 5, nops=nops, p_act=g.choice([0, .2, .5]))
        n = len(c.envs)
        c.envs += h.envs
        c.keys += [k for k in h.keys if k not in c.keys][:5]
        c.acts += [("%d.%s" % (t, a[0]),) + a[1:] for a in h.acts]
        if g.random() < .4:
            same = g.randrange(n + 1)           # the same arguments as another's
            ops = [("open", min(same + o[1], len(c.envs) - 1)) if o[0] == "open" else o for o in h.ops]
        else:
            ops = [("open", n + o[1]) if o[0] == "open" else o for o in h.ops]
        lives.append([("@%d" % t,) + o for o in ops + [("close", 3, 4), ("log", "stdout", b"late")]])
    at, alone = [0] * len(lives), [[] for _ in lives]
    left = [k for k, l in enumerate(lives) for _ in l]
    if g.random() < .7:
        g.shuffle(left)
    for k in left:
        alone[k].append(c.op(*lives[k][at[k]]))
        at[k] += 1
    out = []
    for k, l in enumerate(lives):
        a = HCase(tables[k])
        a.conv, a.dump, a.envs, a.keys, a.acts = c.conv, c.dump, c.envs, c.keys, c.acts
        for o in l:
            a.op(*o)
        out.append(a)
    return c, out, alone


@check("C32", "Interleaved lives (opens accepted and refused, callbacks, failures, panics, version, close, a second open without one) of two to four plugins declared in one library, two of them of one type, some given the same arguments. Non-trivial: at least two plugins were open at once; distinct histories.",
       HARN + "oracle: differential - every call of each plugin's life returns, prints, and reaches plugin code exactly as in the same life without the other plugins",
       "A table's state must be closed at the end of a case; what an abandoned table does later belongs to C21.")
def c32(ctx):
    def seen(evs):
        return [{k: v for k, v in e.items() if k != "op"} for e in evs or []]

    def run(N, sub, nops, chunk, **kw):
        sets = [side_by_side(ctx.sub(sub, i), nops) for i in range(N)]
        where = {}
        for c, alone, at in sets:
            where[id(c)] = (alone, at)
        cmd = kw.pop("cmd", None) or [build.harness()]
        singles = hcase.run_all(cmd, [a for _, alone, _ in sets for a in alone], jobs=ctx.jobs, chunk=chunk, **kw)
        of = dict(zip([id(a) for _, alone, _ in sets for a in alone], singles))

        def judge(c, r):
            alone, at = where[id(c)]
            ops = r.by_op()
            for a, idx in zip(alone, at):
                ref = of[id(a)]
                if ref is None or ref.crash is not None:
                    ctx.count("a life that fails by itself")
                    return
                mine = ref.by_op()
                for j, i in enumerate(idx):
                    need("crash", i in ops or r.crash is None, lambda: "the process died (%s) with several plugins in it, and not with %s alone\n%s" % (r.crash, a.ops[0][0], r.stderr[-1500:]), "crash")
                    x, y = seen(ops.get(i)), seen(mine.get(j))
                    if x != y:
                        k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                        raise Violation("%r beside other plugins: %s; alone: %s" % (c.ops[i], str(x[k:k + 2])[:700], str(y[k:k + 2])[:700]), "%s differs beside others" % c.ops[i][1])
            need("crash", r.crash is None, lambda: "the process died (%s) with several plugins in it\n%s" % (r.crash, r.stderr[-1500:]), "crash")
            up, most = set(), 0
            for i, o in enumerate(c.ops):
                rv = [e["v"] for e in ops.get(i, []) if e["e"] == "ret"]
                if o[1] == "open" and rv == [1]: up.add(o[0])
                if o[1] in ("open", "close") and rv != [1]: up.discard(o[0])
                most = max(most, len(up))
            ctx.count("open at once: %d" % most)
            if most > 1:
                ctx.saw([c.ops, [a[:2] for a in c.acts]], {"ops": [str(o)[:60] for o in c.ops][:12]})
        drive(ctx, [c for c, _, _ in sets], judge, cmd=cmd, chunk=chunk, **kw)
    run(ctx.n(2500, 60000), "h", 10, 200, timeout=90)
    run(ctx.n(200, 5000), "a", 8, 40, cmd=[build.harness_asan()], env=asan_env(), timeout=90)


# ---------------------------------------------------------------- C22
def asan_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1"
    return e


def odd_env(g):
    """conforming, but at the edges: NULL or empty optional arrays, huge strings, no argv"""
    e = make_env(g, .15)
    for n in ("user_env", "plugin_options"):
        x = g.random()
        if x < .2:
            setattr(e, n, None)
        elif x < .3:
            setattr(e, n, [])
        elif x < .4:
            setattr(e, n, [b"", b"=", b"x" * 70000, b"\xff" * 9])
    if g.random() < .1:
        e.argv, e.argc = None, 0
    elif g.random() < .1:
        e.argv = []
    elif g.random() < .1:
        e.argv = [b"", b"a" * 5000, b""]
    if g.random() < .1:
        e.settings = (e.settings or []) + [gen.rbytes(g, g.randrange(1, 9), b"a=\xff") for _ in range(60)]
    return e


def wild(g, p, big=.08):
    c = history(g, p, nops=10, p_bad=.1, p_act=.15, modes=(0, 0, 1, 2, 3), big=big)
    c.envs = []
    for _ in range(3):
        c.env(odd_env(g), printf=g.random() > .05)
    c.ops = [("open", g.randrange(3)) if o[0] == "open" else o for o in c.ops]
    return c


def judge_mem(ctx, what):
    def judge(c, r):
        if r.crash is not None:
            raise Violation("%s: the process ended with %s\n%s" % (what, r.crash, r.stderr[-3000:]), "%s: %s" % (what, crash_line(r.stderr)))
        ctx.count(what + " calls", len(c.ops))
        ctx.saw([what, c.plugin, [str(o)[:30] for o in c.ops], [len(e.argv or []) for e in c.envs]], {"with": what, "ops": [str(o)[:40] for o in c.ops][:6]})
    return judge


def crash_line(s):
    for l in s.split("\n"):
        if "ERROR: AddressSanitizer" in l or "error: Undefined Behavior" in l or l.startswith("error:") or "Invalid" in l:
            return re.sub(r"0x[0-9a-f]+|==\d+==|alloc\d+|<\d+>", "", l)[:160]
    return "crash"


@check("C22", "Random sessions with exactly sized, freed-and-poisoned argument blocks, edge-of-page vectors, no argv, huge and empty strings: under AddressSanitizer (library and whole plugin), Miri (tree borrows) and guard pages. Non-trivial: all; distinct (tool, calls).",
       "AddressSanitizer (nightly, harness crate; whole plugin in an instrumented host), Miri with tree borrows over the library, guard pages with poisoned memory over the whole plugin; oracle: the tools' reports and crashes",
       "Miri runs fewer cases (seconds per case) and only the library; borrows are judged by tree borrows, not stacked borrows; leaks are not counted.")
def c22(ctx):
    asan = build.harness_asan()
    cases = [wild(ctx.sub("w", i), i % 5) for i in range(ctx.n(2500, 80000))]
    cases += [map_case(ctx.sub("m", i)) for i in range(ctx.n(800, 20000))]
    for w in ("settings", "user", "command"):
        cases += [view_case(ctx.sub(w, i), w) for i in range(ctx.n(200, 6000))]
    cases += [print_case(ctx.sub("p", i)) for i in range(ctx.n(300, 6000))]
    drive(ctx, cases, judge_mem(ctx, "asan"), cmd=[asan], env=asan_env(), chunk=120)
    miri(ctx)
    import checks_mem
    checks_mem.whole_plugin(ctx)


def miri(ctx):
    cmd, env = build.harness_miri()
    cases = []
    for i in range(ctx.n(64, 1600)):
        g = ctx.sub("miri", i)
        c = history(g, i % 5, nops=7, p_bad=.15, p_act=.2, modes=(0, 3), big=0)
        c.envs = []
        for _ in range(2):
            e = odd_env(g)
            e.user_env = (e.user_env or [])[:2] if e.user_env else e.user_env
            if e.user_env:
                e.user_env = [x[:40] for x in e.user_env]
            if e.plugin_options:
                e.plugin_options = [x[:40] for x in e.plugin_options]
            e.argv = [x[:40] for x in e.argv] if e.argv else e.argv
            # Miri has no geteuid: never leave it to the defaults
            e.command_info = [b"runas_uid=0", b"runas_gid=0"] + list(e.command_info or [])
            c.env(e, printf=g.random() > .05)
        c.ops = [("open", g.randrange(2)) if o[0] == "open" else ("log", o[1], o[2][:64]) if o[0] == "log" else o for o in c.ops]
        c.acts = [tuple(x[:60] if isinstance(x, bytes) else x for x in a) for a in c.acts]
        cases.append(c)
    for i in range(ctx.n(16, 400)):
        c = map_case(ctx.sub("mm", i))
        c.keys = c.keys[:2]
        cases.append(c)
    for i in range(ctx.n(16, 400)):
        c = print_case(ctx.sub("mp", i))
        c.acts = [tuple(x[:60] if isinstance(x, bytes) else x for x in a) for a in c.acts]
        cases.append(c)
    drive(ctx, cases, judge_mem(ctx, "miri"), cmd=cmd, env=env, chunk=max(4, len(cases) // 8 // ctx.n(1, 8)), timeout=ctx.n(420, 800))


# ---------------------------------------------------------------- C24
C_PROBE = r'''
#include <stddef.h>
#include <stdio.h>
#include <sys/types.h>
#include <time.h>
#include "sudo_plugin.h"
#define S(t) printf("{\"e\":\"struct\",\"name\":\"%s\",\"size\":%zu,\"align\":%zu}\n", #t, sizeof(struct t), _Alignof(struct t))
#define F(t, cf, rf) printf("{\"e\":\"field\",\"name\":\"%s\",\"field\":\"%s\",\"off\":%zu,\"size\":%zu}\n", #t, #rf, offsetof(struct t, cf), sizeof(((struct t *)0)->cf))
#define C(c) printf("{\"e\":\"const\",\"name\":\"%s\",\"v\":%lld}\n", #c, (long long)(c))
int main(int argc, char **argv) {
%s
if (argc > 1) {
    unsigned x, y;
    while (scanf("%u %u", &x, &y) == 2) {
        unsigned v = SUDO_API_MKVERSION(x, y);
        printf("{\"e\":\"mk\",\"x\":%u,\"y\":%u,\"v\":%u,\"major\":%u,\"minor\":%u}\n", x, y, v, SUDO_API_VERSION_GET_MAJOR(v), SUDO_API_VERSION_GET_MINOR(v));
    }
}
return 0; }
'''


def c_probe(d, hdr_dir, rust, mk=""):
    lines = []
    for e in rust:
        if e["lib"] != "built":
            continue
        if e["e"] == "struct":
            lines.append("S(%s);" % e["name"])
        elif e["e"] == "field":
            lines.append("F(%s, %s, %s);" % (e["name"], {"type_": "type"}.get(e["field"], e["field"]), e["field"]))
        elif e["e"] == "const":
            lines.append("C(%s);" % e["name"])
    src = os.path.join(d, "probe.c")
    open(src, "w").write(C_PROBE.replace("%s\nif", "\n".join(lines) + "\nif", 1))
    exe = os.path.join(d, "probe")
    build.run(["gcc", "-O1", "-w", "-I", hdr_dir, "-o", exe, src], cwd=d)
    out = subprocess.run([exe, "mk"], input=mk.encode(), stdout=subprocess.PIPE, check=True).stdout.decode()
    return [json.loads(l) for l in out.split("\n") if l]


# C and Rust spellings of what may stand in a declaration
C_BASE = {"int": "i4", "unsigned int": "u4", "char": "c1", "void": "v", "bool": "b", "_Bool": "b", "unsigned long": "u8", "long": "i8"}


def c_types(hdr):
    """{(struct, field): canonical type} as clang understands the header"""
    src = '#include <sys/types.h>\n#include <time.h>\n#include "%s"\n' % hdr
    r = subprocess.run(["clang", "-fsyntax-only", "-w", "-x", "c", "-Xclang", "-ast-dump=json", "-"], input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise build.BuildFailed("clang: " + r.stderr.decode()[-800:])
    ast = json.loads(r.stdout)
    typedefs, out = {}, {}
    for n in ast["inner"]:
        if n["kind"] == "TypedefDecl":
            typedefs[n["name"]] = n["type"]["qualType"]
    for n in ast["inner"]:
        if n["kind"] == "RecordDecl" and n.get("completeDefinition") and n.get("name"):
            for f in n.get("inner", ()):
                if f["kind"] == "FieldDecl":
                    out[n["name"], f["name"]] = c_canon(f["type"]["qualType"], typedefs)
    return out


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += {"(": 1, "[": 1, "<": 1, ")": -1, "]": -1, ">": -1}.get(ch, 0) if not (ch == ">" and cur.endswith("-")) else 0
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def c_canon(t, td):
    """char * -> *c1, constness kept; function pointer -> fn(args)ret"""
    t = t.strip()
    m = re.fullmatch(r"(.*?)\(\*\)\((.*)\)", t)
    if m:
        args = [a for a in split_args(m.group(2)) if a != "void"]
        return "fn(%s)%s" % (",".join(c_canon(a, td) for a in args), c_canon(m.group(1), td))
    if t == "...":
        return "..."
    m = re.fullmatch(r"(.*)\[\]", t)
    if m:
        return c_canon(m.group(1) + " *", td)
    m = re.fullmatch(r"(.*?)\*\s*(const|restrict)?", t)
    if t.endswith("*") or (m and t.endswith("*const")):
        base = re.sub(r"\*\s*const$", "*", t)[:-1].strip()
        const = False
        mm = re.fullmatch(r"const (.*[^*])", base)
        if mm and "(" not in base and "*" not in base:
            const, base = True, mm.group(1)
        elif base.endswith("*const"):
            const = True
        return ("*k" if const else "*m") + c_canon(base, td)
    t = re.sub(r"^const ", "", t)
    if t in C_BASE:
        return C_BASE[t]
    if t.startswith("struct "):
        return t[7:]
    if t in td:
        return c_canon(td[t], td)
    return t


R_BASE = {"i32": "i4", "u32": "u4", "i8": "c1", "u8": "c1", "()": "v", "core::ffi::c_void": "v", "bool": "b", "u64": "u8", "i64": "i8"}


def r_canon(t):
    t = t.strip()
    m = re.fullmatch(r"core::option::Option<(.*)>", t)
    if m:
        return r_canon(m.group(1))
    m = re.fullmatch(r"(?:for<.*?> )?unsafe extern \"C\" fn\((.*)\)( -> .*)?", t)
    if m:
        # find the closing parenthesis of the arguments
        s = t[t.index("fn(") + 3:]
        depth, k = 1, 0
        while depth:
            depth += {"(": 1, ")": -1}.get(s[k], 0)
            k += 1
        args, rest = s[:k - 1], s[k:].strip()
        ret = r_canon(rest[2:]) if rest.startswith("->") else "v"
        return "fn(%s)%s" % (",".join("..." if a in ("...", "_: ...") else r_canon(a) for a in split_args(args)), ret)
    if t.startswith("*const "):
        return "*k" + r_canon(t[7:])
    if t.startswith("*mut "):
        return "*m" + r_canon(t[5:])
    if t in R_BASE:
        return R_BASE[t]
    return t.split("::")[-1]


@check("C24", "All structures, fields, constants and function types of the header, as laid out by the Rust compiler (built bindings and the three shipped binding files) and by the C compiler; all 2^32 pairs of 16-bit major and minor versions; the exported tables of real plugins. Non-trivial: all; distinct declarations.",
       "layouts, values and types observed in the running Rust and C programs and compared (types from clang's reading of the header); version arithmetic enumerated at run time",
       "Bindings for other processors are compiled for this one (same data model). Types are compared by representation; names of parameters don't matter.")
def c24(ctx):
    exe = build.harness()
    rust = [json.loads(l) for l in subprocess.run([exe, "abi"], stdout=subprocess.PIPE, check=True).stdout.decode().split("\n") if l]
    abi = [e for e in rust if e["e"] in ("struct", "field", "const")]
    d = ctx.scratch.new()
    g = ctx.sub("mk")
    mk = [(x, y) for x in (0, 1, 2, 9, 255, 256, 65535) for y in (0, 1, 8, 9, 17, 255, 256, 65535)] + [(g.randrange(65536), g.randrange(65536)) for _ in range(300)]
    shipped = os.path.join(build.REPO, "sudo_plugin-sys", "include")
    for label, hd in (("shipped header", shipped), ("sudo's header", os.path.join(build.VERIF, "host"))):
        cc = c_probe(d, hd, abi, "\n".join("%d %d" % p for p in mk))
        want = {(e["e"], e["name"], e.get("field")): e for e in cc if e["e"] != "mk"}
        types = c_types(os.path.join(hd, "sudo_plugin.h"))
        for e in abi:
            w = want[e["e"], e["name"], e.get("field")]
            if e["e"] == "const" and e["lib"] != "built" and e["name"] == "SUDO_API_VERSION":
                continue
            keys = {"struct": ("size", "align"), "field": ("off", "size"), "const": ("v",)}[e["e"]]
            name = "%s.%s" % (e["name"], e["field"]) if e["e"] == "field" else e["name"]
            for k in keys:
                a, b = e[k], w[k]
                if k == "v":
                    a, b = a & 0xffffffff, b & 0xffffffff
                if a != b:
                    ctx.violate("%s: %s of %s is %r in the %s bindings and %r in C" % (label, k, name, a, e["lib"], b), {"rust": e, "c": w, "header": hd}, "%s of %s (%s)" % (k, name, e["lib"]))
            if e["e"] == "field":
                f = {"type_": "type"}.get(e["field"], e["field"])
                ct, rt = types.get((e["name"], f)), r_canon(e["type"])
                # constness of what arguments point to doesn't change the call
                flat = lambda t: re.sub(r"\*[km]", "*", t or "?")
                if flat(ct) != flat(rt):
                    ctx.violate("%s: %s is %s in the %s bindings and %s in C" % (label, name, rt, e["lib"], ct), {"rust": e, "c": ct}, "type of %s (%s)" % (name, e["lib"]))
            ctx.saw([label, e["lib"], e["e"], name], {"what": name, "lib": e["lib"], "as": {k: e[k] for k in keys}})
            ctx.count(e["e"])
        # the header's own structures, field by field: nothing may be missing on the Rust side
        have = {(e["name"], {"type_": "type"}.get(e["field"], e["field"])) for e in abi if e["e"] == "field"}
        for s, f in types:
            if s in {e["name"] for e in abi if e["e"] == "struct"} and (s, f) not in have:
                ctx.violate("%s: %s.%s has no counterpart" % (label, s, f), {"field": [s, f]}, "missing %s.%s" % (s, f))
        for e in cc:
            if e["e"] == "mk":
                if (e["v"], e["major"], e["minor"]) != ((e["x"] << 16 | e["y"]), e["x"], e["y"]):
                    ctx.violate("%s: version macros give %r" % (label, e), e, "version macros")
                ctx.count("C version macro")
    st = {e["name"]: e["v"] for e in rust if e["e"] == "status"}
    want = dict(open_ok=1, open_disable=0, open_deny=-1, open_usage=-2, log_ok=1, log_deny=0, log_disable=-1)
    for k in want:
        if st.get(k) != want[k]:
            ctx.violate("status %s is %r, sudo expects %d" % (k, st.get(k), want[k]), st, "status " + k)
    IO = {"open", "close", "show_version", "log_ttyin", "log_ttyout", "log_stdin", "log_stdout", "log_stderr", "change_winsize"}
    for t in [e for e in rust if e["e"] == "table"]:
        kind = {"empty_policy": 1, "empty_io": 2, "io": 2, "empty_audit": 3, "empty_approval": 4}[t["name"]]
        if t["type"] != kind or t["version"] != (1 << 16 | 17) or set(t["set"]) != (IO if t["name"] == "io" else set()):
            ctx.violate("table %s has type %r, version %#x and callbacks %r" % (t["name"], t["type"], t["version"], t["set"]), t, "table " + t["name"])
        ctx.count("table")
    r = subprocess.run([exe, "versions"], stdout=subprocess.PIPE, check=True)
    for l in r.stdout.decode().split("\n"):
        if l:
            e = json.loads(l)
            if e["e"] == "badversion":
                ctx.violate("version %(major)d.%(minor)d is packed as %(v)#x and unpacked as %(gmajor)d.%(gminor)d" % e, e, "version arithmetic")
            elif e["e"] == "versions":
                ctx.count("versions packed and unpacked", e["n"])
    exported(ctx, d)


TABLE_C = r'''
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include "sudo_plugin.h"
int main(int argc, char **argv) {
    void *h = dlopen(argv[1], RTLD_NOW);
    if (!h) { printf("{\"err\":\"dlopen\"}\n"); return 0; }
    unsigned *p = dlsym(h, argv[2]);
    if (!p) { printf("{\"err\":\"dlsym\"}\n"); return 0; }
    printf("{\"type\":%u,\"version\":%u", p[0], p[1]);
    if (p[0] == SUDO_IO_PLUGIN) {
        struct io_plugin *q = (void *)p;
        printf(",\"set\":[%d,%d,%d,%d,%d,%d,%d,%d,%d]", !!q->open, !!q->close, !!q->show_version, !!q->log_ttyin, !!q->log_ttyout, !!q->log_stdin, !!q->log_stdout, !!q->log_stderr, !!q->change_winsize);
        printf(",\"unset\":[%d,%d,%d]", !!q->register_hooks, !!q->deregister_hooks, !!q->log_suspend);
    } else if (p[0] == SUDO_APPROVAL_PLUGIN) {
        struct approval_plugin *q = (void *)p;
        printf(",\"set\":[%d,%d,%d]", !!q->open, !!q->check, !!q->show_version);
    }
    printf("}\n");
    return 0;
}
'''


def exported(ctx, d):
    open(d + "/table.c", "w").write(TABLE_C)
    build.run(["gcc", "-O1", "-w", "-I", os.path.join(build.VERIF, "host"), "-o", d + "/table", d + "/table.c", "-ldl"], cwd=d)
    for so, sym, kind, nset in ((build.plugin(), "sudo_pair", 2, 9), (build.plugin_debug(), "sudo_pair", 2, 9), (build.example(), "deny_everything", 4, 3)):
        o = json.loads(subprocess.run([d + "/table", so, sym], stdout=subprocess.PIPE, check=True).stdout)
        if o.get("err") or o["type"] != kind or o["version"] >> 16 != 1 or o["version"] != (1 << 16 | 17) or o["set"] != [1] * nset or any(o.get("unset", [])):
            ctx.violate("the exported table %s is %r" % (sym, o), {"so": so, "table": o}, "exported table " + sym)
        ctx.saw(["exported", sym], {"table": sym, "seen": o})
        ctx.count("exported table")


# ---------------------------------------------------------------- C31
@check("C31", "Random settings (every option absent, set, empty or hostile), argument vectors, directories and group lists, as the plugin sees them in open. Non-trivial: some option, word or group is given; distinct (settings, arguments, groups).",
       HARN + "oracle: an independent reconstruction of the invocation, directory and group set, byte for byte",
       "Group lists that aren't lists of ids are left out (sudo sends none).")
def c31(ctx):
    def case(i):
        g = ctx.sub("i", i)
        c = HCase(g.choice([0, 1, 2, 3, 4]))
        inv = inv_env(g)
        w = lambda: g.choice([gen.text(g), gen.word(g), gen.word(g), "", "a b", "--user x", "%s", "caf\u00e9", "x" * 200, "-", "\t"]).replace("\0", "")
        st = dict(inv.settings)
        for k in ("runas_user", "runas_group", "prompt", "login_class", "selinux_role", "selinux_type", "bsdauth_type"):
            if g.random() < .4:
                st[k] = w()
        for k in ("login_shell", "run_shell", "set_home", "preserve_environment", "preserve_groups", "ignore_ticket", "noninteractive", "sudoedit", "implied_shell"):
            if g.random() < .4:
                st[k] = g.choice([True, True, False, "yes", ""])
        if g.random() < .4:
            st["closefrom"] = g.choice([0, 3, 18446744073709551615, "x", -1, "007"])
        if g.random() < .5:
            st["progname"] = g.choice(["sudoedit", "sudoedit", "sudo", "/usr/bin/sudo", "su do", "", "sudoedit2", "/usr/bin/sudoedit", "xsudoedit", "edit", "sudoedi", "SUDOEDIT", "sudoedit ", "e"])
        inv.settings = st
        if g.random() < .5:
            inv.cmd["cwd"] = g.choice(["/srv", "", "/caf\u00e9", b"/caf\xe9", b"\xff", "/a b", "."])
        inv.user["cwd"] = g.choice(["/home/x", "/", "", "/caf\u00e9"])
        pg = g.random()
        if pg < .3:
            inv.cmd["runas_groups"] = None
            inv.cmd["preserve_groups"] = True
        elif pg < .4:
            inv.cmd["runas_groups"] = None
        if g.random() < .5:
            inv.cmd["runas_egid"] = gen.ids(g)
        n = g.choice([0, 1, 2, 5, 40]) if g.random() < .97 else g.choice([255, 256, 257, 1000, 4097, g.choice(lits.COUNTS)])
        inv.argv = [(g.choice([w().encode(), gen.rbytes(g, g.randrange(1, 8), b"ab \xff%=")])) for _ in range(n)]
        e = inv.env()
        if n == 0 and g.random() < .3:
            e.argv, e.argc = None, 0
        c.env(e)
        if g.random() < .3:        # another session first
            c.env(inv_env(g).env())
            c.op("open", 1)
            c.op("close", 0, 0)
        c.dump = True
        c.op("open", 0)
        return c

    def judge(c, r):
        if r.crash is not None:
            raise Violation("the process died (%s)\n%s" % (r.crash, r.stderr[-800:]), "crash")
        v = HView(c.envs[0])
        o = [e for e in r.ev if e["e"] == "call" and e["m"] == "open"]
        if not v.ok or not v.cmd["command"]:
            return
        expect(o, "open did not reach the plugin", "open")
        o = o[-1]
        fl = model.flags(v.settings)
        inv = b" ".join([v.settings["progname"].encode()] + fl + v.argv)
        expect(bytes.fromhex(o["invocation"]) == inv, lambda: "invocation is %r, not %r" % (bytes.fromhex(o["invocation"]), inv), "invocation")
        cwd = v.cmd["cwd"] if v.cmd["cwd"] is not None else v.user_info["cwd"].encode()
        expect(bytes.fromhex(o["cwd"]) == cwd, lambda: "cwd is %r, not %r" % (bytes.fromhex(o["cwd"]), cwd), "cwd")
        gids = sorted(model.runas_gids(v.user_info, v.cmd))
        expect(o["gids"] == gids, lambda: "groups are %r, not %r" % (o["gids"], gids), "groups")
        expect([bytes.fromhex(x) for x in o["argv"]] == v.argv, lambda: "cmdline is %r" % o["argv"], "cmdline")
        ctx.count("flags", len(fl))
        ctx.count("words", len(v.argv))
        ctx.count("cwd of the command" if v.cmd["cwd"] is not None else "cwd of the user")
        ctx.count("groups of the target" if v.cmd["runas_groups"] is not None else "groups of the user")
        ctx.saw([inv.hex(), cwd.hex(), gids], {"invocation": repr(inv)[:100], "cwd": repr(cwd), "groups": gids}, nontrivial=bool(fl or v.argv))
    drive(ctx, [case(i) for i in range(ctx.n(8000, 250000))], judge)
