"""Checks of a session after the plugin was opened, of prompts, options, the log and the version query."""
import os, random, re, shutil, socket, struct, subprocess, time, json, glob
import build, gen, lits, model, sim
from common import *
from framework import Violation, Inconclusive, expect
from gen import Inv
from registry import check
from sim import hx

TRACE = "system-call-boundary runtime monitor (ptrace) over the real plugin, "


def rcase(case):
    return random.Random(case["seed"])


CHUNK = [0, 1, 2, 3, 7, 8, 15, 16, 63, 64, 255, 256, 1023, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537]


SPECIAL = [b"\x1b[6n", b"\x1b[c", b"\x1b[>c", b"\x1b[5n", b"\x1b[2J", b"\x1b[H", b"\x1b[H\x1b[2J", b"\x1b[3J", b"\x1bc", b"\x1b[?1049h", b"\x1b[?1049l", b"\x1b[?25l", b"\x1b[?25h", b"\x1b[0m", b"\x1b[K", b"\x1b]0;title\x07", b"\x1b[8;24;80t", b"\x1b[?2004h",
           b"\x1b", b"\x07", b"\x08 \x08", b"\r", b"\n", b"\r\n", b"\r\n\0", b"\n\0", b"\0", b"\x03", b"\x04", b"\x1a", b"\x11", b"\x13", b"^C", b"Password: ", b"Password:", b"password", b"[sudo] password for alice: ", b"exit\n", b"exit\r\n", b"logout\n", b"$ ", b"# ", b"> ",
           b"y", b"Y", b"n", b"y\n", b"yes\n", b"n\n", b"\xef\xbb\xbf", b"\xff\xfe", b"\xff", b"\x80", b"\xc3", b"\x9b", b"\xe2\x80\xa8", b" ", b"\t", b"\n\n", b"\x0c", b"%", b"%s", b"%n", b"%u"]


def special(g):
    one = lambda: g.choice(SPECIAL) if g.random() < .6 else g.choice(lits.BYTES)
    x = g.random()
    if x < .6:
        return one()
    if x < .8:
        return one() + gen.rbytes(g, g.choice([1, 1, 20])) if x < .7 else gen.rbytes(g, g.choice([1, 1, 20])) + one()
    return b"".join(one() for _ in range(g.randrange(2, 5)))


def event(g, sc, sizes=None, kinds=("ttyout", "stdout", "stderr", "winsize", "ttyout", "stdout", "ttyin", "ver")):
    """one random callback; returns the bytes the pair must see"""
    k = g.choice(kinds)
    if k == "winsize":
        a, b = (g.choice([0, 1, 24, 80, 132, 9999, 65535, 4294967295, g.randrange(1 << 32)]) for _ in range(2))
        sc.winsize(a, b)
        return model.winsize(a, b)
    if k == "ver":
        sc.ver(g.choice([0, 1, 1, 2, -1]))
        return b""
    n = g.choice(sizes or CHUNK)
    alpha = g.choice([None, None, b"y", b"%sn", b"\x00", b"\r\n", b"\xff\xfe", b"\x1b[2J"])
    if g.random() < .12:      # something somebody might think special
        data = special(g)
        sc.log(k, data)
        return b"" if k == "ttyin" else data
    if not sizes and g.random() < .06:
        n = g.choice(lits.SIZES)
    data = gen.rbytes(g, n, alpha) if n < 9000 else (gen.rbytes(g, 997) * (n // 997 + 1))[:n]
    sc.log(k, data)
    return b"" if k == "ttyin" else data


def op_bytes(op):
    w = op.split()
    if w[0] == "winsize":
        return model.winsize(int(w[1]), int(w[2]))
    if w[0] == "log" and w[1] in ("ttyout", "stdout", "stderr"):
        return (b"" if w[2] == "-" else bytes.fromhex(w[2])) * (int(w[3]) if len(w) > 3 else 1)
    return b""


def kind_of(op):
    w = op.split()
    return w[1] if w[0] == "log" else w[0]


def paired_inv(g, d):
    i = gen.paired(g, d)
    if model.View(i.env()).decision != "pair":
        i = Inv(d)
    return i


# ------------------------------------------------------------------ C09
@check("C09", "A random history of logging and window-size callbacks on a granted session, with short writes, EINTR, signal storms, or a pair that reads late; each byte alone, doubled and beside others through each stream. Non-trivial: at least one byte mirrored; distinct history.",
       TRACE + "oracle: per-callback equality of the pair's byte stream with the concatenation of the chunks",
       "Chunk sizes up to 70 KiB in ordinary runs (a few up to 16 MB); disturbances are sampled.")
def c09(ctx):
    rng = ctx.rng
    cases = []
    for k in range(ctx.n(5000, 80000)):
        cases.append(dict(seed=rng.randrange(1 << 48), mode=rng.choice(["plain", "plain", "short", "eintr", "both", "storm", "slow"])))
    for k in range(ctx.n(16, 200)):
        cases.append(dict(seed=rng.randrange(1 << 48), mode="huge"))
    for k in range(ctx.n(4, 60)):
        cases.append(dict(seed=rng.randrange(1 << 48), mode="many"))
    for k in range(6):
        cases.append(dict(seed=rng.randrange(1 << 48), mode="bytes", part=k))
    for k in range(ctx.n(2, 12)):
        cases.append(dict(seed=rng.randrange(1 << 48), mode="countless"))

    def mk(case, d):
        g = rcase(case)
        i = paired_inv(g, d)
        for k in ("iolog_ttyout", "iolog_stdout", "iolog_stderr", "iolog_ttyin", "iolog_stdin"):
            i.cmd[k] = g.random() < .6
        i.cmd[g.choice(["iolog_ttyout", "iolog_stdout", "iolog_stderr"])] = True
        sc = base(i, case["seed"] % 99999 + 1)
        sc.open()
        sc.pair(g.choice([b"y", b"Y", b"yes\n"]))
        m = case["mode"]
        sizes = None
        if m in ("short", "both"):
            sc.opt("shortw", g.choice([1, 2, 7, 100, 3000]))
            sizes = [0, 1, 2, 3, 17, 64, 255, 400]
        if m in ("eintr", "both"):
            sc.opt("eintrw", g.choice([10, 50, 80]))
            sizes = [0, 1, 2, 3, 17, 64, 255, 4096]
        if m == "storm":
            sc.opt("storm", g.choice([10, 40]))
            sc.opt("others", g.randrange(3))
        if m == "slow":     # the pair only reads when the plugin can't go on
            sc.opt("drain", "idle")
        if m == "huge":
            sizes = [300000, 1 << 20, (1 << 20) + 1, 2500000]
            sc.opt("drain", g.choice(["idle", "idle", "always"]))
            sc.opt("fast", 1)
        if m == "huge":
            sc.log("stdout", g.randbytes((1 << 20) + g.choice([1, 4096, 1 << 20, 3000000, 15 << 20])))
        if m == "bytes":    # each byte on its own, and before or after an ordinary one
            for b in range(256):
                for kind in ("ttyout", "stdout", "stderr"):
                    sc.log(kind, [bytes([b]), bytes([b, 65]), bytes([65, b]), bytes([b, b]), bytes([27, b]), bytes([b, 10])][case["part"]])
        if m == "countless":        # more chunks than fit in 16 bits
            for _ in range(2):
                sc.log(g.choice(["ttyout", "stdout", "stderr"]), gen.rbytes(g, g.choice([1, 2, 5])), g.choice([33000, 40000]))
                sc.winsize(g.randrange(300), g.randrange(300))
        for _ in range(0 if m == "bytes" else g.randrange(1, 4) if m == "huge" else 400 if m == "many" else g.randrange(1, 14)):
            event(g, sc, sizes)
            while g.random() < .12:         # the very same again, or again on another stream
                w = sc.ops[-1].split()
                if w[0] == "log" and g.random() < .5:
                    w[1] = g.choice(["ttyout", "stdout", "stderr"])
                if w[0] != "open":
                    sc.ops.append(" ".join(w))
        sc.close(0, 0)
        return sc

    def judge(case, sc, r):
        v = view(sc)
        expect(open_outcome(r) == "granted", "an approved session isn't granted", "not granted")
        total = 0
        for k in range(1, len(sc.ops)):
            ret = returned(r, k, kind_of(sc.ops[k]))
            want = op_bytes(sc.ops[k])
            if kind_of(sc.ops[k]) in ("ttyout", "stdout", "stderr", "winsize"):
                expect(ret == 1, lambda: "%s of %d bytes returns %r although the pair is there" % (kind_of(sc.ops[k]), len(want), ret), "chunk refused: " + kind_of(sc.ops[k]))
            got = r.received(k)
            expect(got == want, lambda: "%s of %d bytes: the pair received %d bytes%s" % (kind_of(sc.ops[k]), len(want), len(got), diff(want, got)), "stream differs: " + kind_of(sc.ops[k]))
            total += len(want)
        allrec = r.received()
        p = pair_prompt(v)
        expect(allrec[:len(p)] == p and allrec[len(p) + 1:len(p) + 2] == b"\n" and allrec[len(p) + 2:] == b"".join(op_bytes(o) for o in sc.ops), "the pair's whole stream isn't prompt, echo and the chunks", "whole stream")
        ctx.count("bytes", total)
        ctx.count("callbacks", len(sc.ops) - 2)
        ctx.count(case["mode"])
        ctx.saw([case["mode"], [(o.split()[0], o[:40], len(o)) for o in sc.ops]], {"mode": case["mode"], "ops": [o[:30] + ("..%d" % len(o) if len(o) > 30 else "") for o in sc.ops[:12]], "bytes": total}, nontrivial=total > 0)
    ctx.run_cases(build.plugin(), cases, mk, judge)


def diff(a, b):
    for k in range(min(len(a), len(b))):
        if a[k] != b[k]:
            return ", first difference at %d" % k
    return ""


# ------------------------------------------------------------------ C10
@check("C10", "A granted session whose pair hangs up in some way before some callback, or is still there when the plugin is closed. Non-trivial: distinct (kind of hang-up, position, callbacks, exit status).",
       TRACE + "oracle: refusals start exactly at the hang-up; end-of-file exactly at close",
       "A half-close by the pair (it can still read) is not a hang-up.")
def c10(ctx):
    rng = ctx.rng
    cases = [dict(seed=rng.randrange(1 << 48), how=rng.choice(["close", "close", "rst", "shutrd", "none", "shutwr"])) for _ in range(ctx.n(8000, 60000))]
    for c in cases[::2]:       # a pair that types something
        c["chat"] = True
    for _ in range(ctx.n(160, 1500)):      # a pair that is slow to read, or goes while it still has to
        cases.append(dict(seed=rng.randrange(1 << 48), how=rng.choice(["rst", "cut", "none", "none", "shutwr"]), slow=True, chat=rng.random() < .3))

    def mk(case, d):
        g = rcase(case)
        i = paired_inv(g, d)
        sc = base(i, case["seed"] % 99999 + 1)
        sc.opt("sigpipe", g.choice(["ign", "ign", "dfl", "hand"]))
        sc.opt("sigint", g.choice(["restart", "norestart"]))
        if g.random() < .3:
            sc.opt("printf", g.choice([1, 2]))
            sc.meta["silent"] = True
        sc.open()
        if g.random() < .3:
            sc.fork()          # sudo's monitor process inherits whatever open left
        sc.pair(b"y")
        sz = [0, 1, 5, 300, 5000]
        n1, n2 = g.randrange(0, 6), g.randrange(1, 7)
        if g.random() < .03:
            n1, n2 = g.choice([2, 40]), g.choice([30, 80, 150])
        if case.get("slow"):
            sc.opt("fast", 1)
            sz = [0, 1, 5, 300, 300000, 700000]
            n1, n2 = g.randrange(0, 3), g.randrange(1, 3)
        for _ in range(n1):
            event(g, sc, sz, ("ttyout", "stdout", "stderr", "winsize", "ttyin"))
        sc.meta["at"] = len(sc.ops)
        if case.get("slow"):
            sc.log(g.choice(["ttyout", "stdout", "stderr"]), gen.rbytes(g, 997) * 1500)
        for _ in range(n2):
            event(g, sc, sz, ("ttyout", "stdout", "stderr", "winsize", "winsize", "ttyin"))
        how = case["how"]
        if case.get("chat"):
            for k in sorted(g.randrange(1, sc.meta["at"] + 1) for _ in range(g.randrange(1, 4))):
                sc.step("op:%d" % k, "send " + hx(g.choice([b"q", b"\x03", b"\x04", b"n", b"N\n", b"y", b"exit\n", b"\x1b", b"\x00", b"\xff\xf4", b"\n", b"quit", bytes([g.randrange(256)]), g.randbytes(300)])))
        if how != "none":
            sc.step("op:%d" % sc.meta["at"], "note" if case.get("slow") else how)
            if case.get("slow"):
                sc.step("idle", how)
        if how == "none":
            sc.meta["at"] = len(sc.ops)
        sc.meta["close"] = sc.close(g.choice([0, 1, 137 << 8, 9, -1]), g.choice([0, 0, 1, 2, 110]))
        for _ in range(g.randrange(0, 3)):
            event(g, sc, sz, ("ttyout", "stdout", "winsize", "stdin"))
        return sc

    def judge(case, sc, r):
        expect(open_outcome(r) == "granted", "not granted", "not granted")
        at, cl = sc.meta["at"], sc.meta["close"]
        hung = case["how"] in ("close", "rst", "shutrd", "cut")
        lost = False
        for k in range(1, len(sc.ops)):
            kd = kind_of(sc.ops[k])
            ret = returned(r, k, kd)
            want = op_bytes(sc.ops[k])
            if k < cl and kd in ("ttyout", "stdout", "stderr", "winsize"):
                if not hung or k < at:
                    expect(ret == 1, lambda: "%s returns %r although the pair is still there" % (kd, ret), "refused too early")
                    if case["how"] != "shutrd":
                        expect(r.received(k) == want, "not mirrored", "not mirrored")
                elif want or lost:
                    if k == at and case.get("slow"):
                        expect(want.startswith(r.received(k)) or case["how"] == "rst", "something else is mirrored", "not mirrored")
                    if want:
                        lost = True
                        expect(ret == 0, lambda: "%s returns %r after the pair hung up (%s)" % (kd, ret, case["how"]), "not refused after hang-up")
                        if not sc.meta.get("silent"):
                            expect(r.printed(3, k) == message(model.MSG["ended"]), lambda: "the refusal prints %r" % r.printed(3, k), "hang-up message")
            if k > cl:
                expect(ret != 1, lambda: "%s returns %r after close" % (kd, ret), "accepted after close")
                expect(r.received(k) == b"", "mirrored after close", "mirrored after close")
        eof = r.time("eof")
        rderr = r.time("rderr")
        if not hung:
            closes = [e["t"] for e in r.of("begin", cl)]
            end = [e["t"] for e in r.of("fds", cl)]
            expect(eof is not None or rderr is not None, "the pair sees no end-of-file after close", "no eof")
            t = eof if eof is not None else rderr
            expect(t > closes[0], "the pair sees end-of-file before close", "early eof")
            expect(t < end[-1] + 1, "the pair sees end-of-file only when sudo exits", "late eof")
        ctx.count(case["how"] + (" while reading" if case.get("slow") else ""))
        ctx.count("refused", sum(1 for k in range(1, cl) if r.ret(k) == 0))
        ctx.saw([case["how"], at, sc.opts, sc.steps, [(o.split()[0], o[:30], len(o)) for o in sc.ops]], {"how": case["how"], "position": at, "ops": [o[:24] for o in sc.ops], "rets": [r.ret(k) for k in range(len(sc.ops))]})
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C11
@check("C11", "All 32 combinations of the five logging hints (plus absent and malformed ones) times random histories with standard input at every position, in paired and exempt sessions. Non-trivial: distinct (hints, session kind, history).",
       TRACE + "oracle: return value, message and the pair's stream",
       "Chunk contents are sampled.")
def c11(ctx):
    rng = ctx.rng
    cases = []
    for m in range(32):
        for ex in (0, 1):
            for k in range(ctx.n(40, 300)):
                cases.append(dict(seed=rng.randrange(1 << 48), mask=m, exempt=ex))

    def mk(case, d):
        g = rcase(case)
        i = paired_inv(g, d)
        for b, k in enumerate(("iolog_stdin", "iolog_ttyin", "iolog_ttyout", "iolog_stdout", "iolog_stderr")):
            on = bool(case["mask"] >> b & 1)
            i.cmd[k] = g.choice(["true"]) if on else g.choice(["false", "false", None, "1", "junk"])
        if case["exempt"]:
            x = g.randrange(4)
            if x == 0: i.user["euid"] = i.user["uid"]
            elif x == 1: i.opt["gids_exempted"] = str(i.user["groups"].split(",")[0])
            elif x == 2: i.opt["gids_enforced"] = "31337"
            else: i.cmd["command"] = "/usr/bin/sudo_approve"
        sc = base(i, case["seed"] % 99999 + 1)
        sc.open()
        sc.pair(b"y")
        for _ in range(g.randrange(1, 9) if g.random() < .97 else g.choice([30, 80, 150])):
            event(g, sc, [0, 1, 10, 5000], ("stdin", "stdin", "ttyout", "stdout", "winsize", "ttyin", "stderr"))
        if g.random() < .05:
            sc.log("stdin", gen.rbytes(g, 997) * g.choice([70, 1100, 3400]))
        if not any(kind_of(o) == "stdin" for o in sc.ops):
            sc.log("stdin", gen.rbytes(g, g.choice([0, 1, 100])))
        if g.random() < .3:     # after the pair is gone
            sc.step("op:%d" % len(sc.ops), "close")
            sc.log("stdin", b"late")
        return sc

    def judge(case, sc, r):
        v = view(sc)
        d = v.decision
        o = open_outcome(r)
        ctx.count(d)
        ctx.saw([case["mask"], d, [(o_.split()[0], o_[:30]) for o_ in sc.ops]], {"mask": case["mask"], "decision": d, "rets": [r.ret(k) for k in range(len(sc.ops))]})
        expect(o == "granted", "open %s" % o, "not granted")
        for k, op in enumerate(sc.ops):
            if kind_of(op) == "stdin":
                ret = returned(r, k, "stdin")
                if d == "exempt":
                    expect(ret == 1, "redirected stdin is refused in an exempt session", "exempt stdin refused")
                else:
                    ctx.count("stdin chunks refused")
                    expect(ret == 0, lambda: "redirected stdin returns %r in a paired session (hints %s)" % (ret, bin(case["mask"])), "stdin accepted")
                    expect(r.printed(3, k) == message(model.MSG["stdin"]), lambda: "the refusal prints %r" % r.printed(3, k), "stdin message")
                    expect(r.received(k) == b"", "redirected stdin is copied to the pair", "stdin mirrored")
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C21, the whole plugin
def several(ctx, n):
    """Several sessions one after the other in one process, each with arguments, options, templates and
    socket directory of its own: every one of them must go as it would go alone."""
    rng = ctx.rng
    cases = [dict(seed=rng.randrange(1 << 48), several=1) for _ in range(n)]

    def mk(case, d):
        g = rcase(case)
        sc, parts, dirs = None, [], []
        for k in range(g.randrange(2, 5)):
            x = g.random()
            i = paired_inv(g, d) if x < .7 else gen.exempt(g, d)
            if x > .95:
                i.user.pop(g.choice(["user", "gid", "groups"]))
            if g.random() < .5:        # as in a real process, the same user and the same pid
                i.user["pid"] = 4711
            sd = "%s/s%d" % (d, g.randrange(2)) if k and g.random() < .5 else d + "/s"
            if not os.path.isdir(sd):
                os.mkdir(sd, 0o755)
            i.opt["socket_dir"] = sd
            tp = {}
            same = g.random() < .3 and parts and parts[-1]["tp"]
            for w in ("user", "pair"):
                t = "%s/%s%d.tpl" % (d, w, g.choice([k, k, 9]))
                i.opt[w + "_prompt_path"] = t
                if os.path.exists(t):
                    tp[w] = open(t, "rb").read()
                elif g.random() < .85:
                    tp[w] = template(g)
                    open(t, "wb").write(tp[w])
                else:
                    tp[w] = None
                    i.opt[w + "_prompt_path"] = d + "/never"
            if g.random() < .2:
                i.opt["binary_path"] = "/opt/approve%d" % k
            tty = None
            if g.random() < .4:
                tty = "%s/tty%d" % (d, k)
                open(tty, "w").close()
                i.user["tty"] = tty
            i.user.update(cwd="/w%d" % k, host="h%d" % k, cols=70 + k)
            if sc is None:
                sc = base(i, case["seed"] % 99999 + 1)
            else:
                sc.env(i.env())
            v = view(sc, k)
            op = sc.open(k)
            ans = g.choice([b"y", b"y", b"y", b"Y", b"n", b""])
            if v.decision == "pair":
                sc.step("op:%d" % op, "sock " + hx(v.sock_path))
                sc.step("block", "connect")
                if ans:
                    sc.step("block", "send " + hx(ans))
                else:
                    sc.step("idle", "close")
            for _ in range(g.randrange(0, 5)):
                event(g, sc, [0, 1, 10, 3000], ("stdin", "ttyout", "stdout", "winsize", "ttyin", "stderr"))
            cl = sc.close(g.choice([0, 0, 256, -1]), g.choice([0, 0, 2]))
            for _ in range(g.randrange(0, 2)):
                event(g, sc, [0, 1, 10], ("stdin", "ttyout", "winsize", "ver"))
            parts.append(dict(op=op, close=cl, end=len(sc.ops), tp=tp, tty=tty, ans=ans))
        sc.parts = parts
        return sc

    def judge(case, sc, r):
        said = []
        for k, p in enumerate(sc.parts):
            v = view(sc, k)
            d = v.decision
            got = returned(r, p["op"], "open")
            who = "session %d (%s) of %d in one process" % (k + 1, d, len(sc.parts))
            ok = d == "exempt" or d == "pair" and p["ans"] in (b"y", b"Y")
            said.append((d, ok))
            if d != "version":
                expect((got == 1) == ok, lambda: "%s: open returns %r" % (who, got), "a later session differs: open")
            if not ok:
                expect(got in (-1, -2), lambda: "%s: open returns %r" % (who, got), "a later session differs: open")
            if d == "pair":
                wp, wu = pair_prompt(v, p["tp"]["pair"]), local_prompt(v, p["tp"]["user"])
                seen = r.received(p["op"])
                expect(seen == wp + p["ans"] + b"\n" or not ok and seen == wp, lambda: "%s: the pair sees %r, not %r" % (who, seen[:300], wp[:300]), "a later session differs: prompt")
                if p["tty"]:
                    sh = open(p["tty"], "rb").read()
                    expect(sh == wu, lambda: "%s: the user sees %r, not %r" % (who, sh[:300], wu[:300]), "a later session differs: user prompt")
                elif b"\0" not in wu:
                    expect(r.printed(3, p["op"]).startswith(wu), lambda: "%s: the user sees %r, not %r" % (who, r.printed(3, p["op"])[:300], wu[:300]), "a later session differs: user prompt")
            elif p["tty"]:
                expect(open(p["tty"], "rb").read() == b"" or d == "both", lambda: "%s: something is shown" % who, "a later session differs: shown")
            for o in range(p["op"] + 1, p["end"]):
                kd, ret, want = kind_of(sc.ops[o]), r.ret(o), op_bytes(sc.ops[o])
                if kd in ("ver", "close"):
                    continue
                rec = r.received(o)
                if not ok or o > p["close"]:
                    expect(ret not in (1, 0) or ret == 0 and kd == "winsize" or ret == 0, lambda: "%s: %s returns %r outside a session" % (who, kd, ret), "accepted outside a session")
                    expect(rec == b"", lambda: "%s: %s mirrored outside a session" % (who, kd), "mirrored outside a session")
                elif d == "exempt":
                    expect(ret == 1 and rec == b"", lambda: "%s: %s returns %r" % (who, kd, ret), "a later session differs: exempt")
                elif kd == "stdin":
                    expect(ret == 0 and rec == b"", lambda: "%s: stdin returns %r" % (who, ret), "a later session differs: stdin")
                elif kd != "ttyin":
                    expect(ret == 1 and rec == want, lambda: "%s: %s returns %r, the pair gets %d of %d bytes" % (who, kd, ret, len(rec), len(want)), "a later session differs: " + kd)
            ctx.count("plugin session %d %s" % (k + 1, d))
        ctx.saw([said, sc.steps, [(o.split()[0], o[:24], len(o)) for o in sc.ops]], {"sessions": said, "ops": [o[:24] for o in sc.ops][:20]})
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C13
def template(g, big=False):
    x = g.randrange(10)
    if big and g.random() < .03:      # longer than any buffer somebody might have thought enough
        n = g.choice([1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 70000]) + g.randrange(3)
        b = bytearray(g.choice([b"0123456789abcde\n", b"x%uy ", b"%", b"%%", b"\xe9\n", b"line %u of %p\n"]) * n)[:n]
        b[-2:] = b"%U"
        return bytes(b) if n < 20000 or b.count(b"%") < 30000 else bytes(b[:9000])
    if x == 0: return gen.rbytes(g, g.randrange(0, 60))
    if x == 1: return b"".join(b"%" + bytes([g.randrange(256)]) for _ in range(g.randrange(1, 20)))
    if x == 2: return b"".join(g.choice([b"%b", b"%B", b"%C", b"%d", b"%h", b"%H", b"%g", b"%p", b"%u", b"%U", b"%W", b"%%", b" ", b"\n", b"text", b"%x", b"%%u", b"%%%u"]) for _ in range(g.randrange(1, 30)))
    if x == 3: return b"%" * g.randrange(1, 12) + g.choice([b"", b"u", b"\n"])
    if x == 4: return gen.rbytes(g, g.randrange(200), b"%u \n%C\x00\xff")
    if x == 5: return g.choice([b"", b"%", b"u", b"%\n", b"no directive at all", b"trailing %", b"%u%", b"%%", b"\x1b[2J\x1b[H%U\r\n"])
    if x >= 8:      # things that mean something in other files
        part = lambda: g.choice([b"# comment %u", b"#!/bin/sh", b"#", b"; x", b"// x", b"-- x", b"---", b"/* %U */", b"\\n", b"\\", b"\\%u", b"$USER", b"${HOME}", b"{{%u}}", b"{u}", b"<%= u %>", b"$(id)", b"`id`", b"&amp;", b"%(u)s",
                                b"%1$s", b"%-5u", b"%5u", b"%{u}", b"%n", b"%s", b"%c", b"\x1b[1m%U\x1b[0m", b"\t%d\t", b"   ", b" %h ", b"", b"", b"\x00", b"\x0c", b"\x08", b"\x7f", b"\x1a", b"\x04", b"\xc2\xa0", b"\xe2\x80\xa8", b"~", b"!!", b"^U", b"a" * g.randrange(1, 300), b"%u" * 9, b"include x", g.choice(lits.BYTES), b"y/n? [n]: ", b"[Y/n]"])
        return g.choice([b"", b"", b"", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\n", b" "]) + g.choice([b"\n", b"\n", b"\r\n", b"\r", b" "]).join(part() for _ in range(g.randrange(1, 12))) + g.choice([b"", b"\n", b"\n\n", b" ", b"\r\n", b" \n", b"\x00", b"\\"])
    if x == 6: return (b"line %u of a long template %C\n" * g.randrange(1, 60))
    return b"%b|%B|%C|%d|%h|%H|%g|%p|%u|%U|%W|%%|%q"


@check("C13", "Random and shipped templates for both prompts with random, hostile field values (values that look like directives included). Non-trivial: the template has a directive or is the default; distinct (templates, values).",
       TRACE + "oracle: an independent expander, byte for byte on terminal, printf and socket",
       "Templates up to 4 MB (the plugin reads them byte by byte).")
def c13(ctx):
    rng = ctx.rng
    cases = [dict(seed=rng.randrange(1 << 48)) for _ in range(ctx.n(7000, 80000))]
    shipped = {n: open(os.path.join(build.REPO, "sample/etc", n), "rb").read() for n in ("sudo_pair.prompt.user", "sudo_pair.prompt.pair")}
    for k in range(ctx.n(40, 400)):
        cases.append(dict(seed=rng.randrange(1 << 48), shipped=1))
    for n in [200000, 1 << 20, (1 << 20) + 3, 2100000] + [x for x in lits.SIZES if x > 1000] + [rng.randrange(70000, 4000000) for _ in range(ctx.n(2, 30))]:
        cases.append(dict(seed=rng.randrange(1 << 48), huge=n, which=rng.choice(["pair", "pair", "user"])))

    def mk(case, d):
        g = rcase(case)
        i = paired_inv(g, d)
        w = lambda: g.choice([gen.text(g), "%u", "%%", "%C%n%s", "", "a b", "\u00e9\u4e2d", "x" * g.choice([300, 300, 300, 1500, 5000, 40000, g.choice(lits.SIZES)]), "%"]).replace("\0", "")
        i.user.update(user=w(), host=w(), cwd=w() or "/", lines=g.choice([None, 0, 24, 18446744073709551615, "x", "-1"]), cols=g.choice([None, 0, 80, 1000, "", "18446744073709551616"]))
        if g.random() < .3:
            i.cmd["cwd"] = g.choice([w() or "/c", b"/srv/caf\xe9", b"\xff%u"])
        i.argv = [w().encode() if g.random() < .8 else gen.rbytes(g, 5, b"\xff\xfe%ab") for _ in range(g.randrange(0, 5))]
        for k in ("progname", "prompt", "login_class", "runas_user"):
            if g.random() < .3:
                i.settings[k] = w()
        for k in ("login_shell", "set_home", "preserve_environment", "noninteractive"):
            if g.random() < .3:
                i.settings[k] = True
        if g.random() < .4:
            i.opt["binary_path"] = g.choice(["/opt/%u/approve", "/usr/local/bin/ok", "rel/approve", "/a b/c%", "/x/%%", "/opt/approve.sh", "/opt/a.b.c", "/opt/.hidden", "/opt/dir.d/ok", "/opt/x.", "/opt/%b.%u", "..", "/", "/opt/approve/", "a"])
        tp = {}
        for n in ("user", "pair"):
            x = g.random()
            if case.get("shipped"):
                tp[n] = shipped["sudo_pair.prompt." + n]
            elif x < .12 and not case.get("huge"):
                tp[n] = None
            elif x < .17 and not case.get("huge"):
                tp[n] = None
                os.mkdir("%s/%s.tpl" % (d, n))
            else:
                tp[n] = template(g, True)
            if tp[n] is not None:
                if case.get("huge") and n == case["which"]:
                    b = (b"all work and no %%  play %x\n" * (case["huge"] // 24 + 1))[:case["huge"]]
                    tp[n] = b[:-4] + b"%W%U"
                open("%s/%s.tpl" % (d, n), "wb").write(tp[n])
        long = max(len(x) for x in [str(y) for y in list(i.user.values()) + list(i.settings.values())] + i.argv)
        if long > 400 and max((t or b"%%%").count(b"%") for t in tp.values()) * long > 200000:     # megabytes
            for m in (i.user, i.settings):
                for k, x in m.items():
                    m[k] = x[:300] if isinstance(x, str) else x
            i.argv = [x[:300] for x in i.argv]
        sc = base(i, case["seed"] % 99999 + 1)
        tty = g.random() < .5 or bool(case.get("huge"))
        if tty:
            open(d + "/tty", "w").close()
            i.user["tty"] = d + "/tty"
            sc.envs[0] = i.env()
        sc.open()
        sc.log("ttyout", b"|end")
        if any(len(t or b"") > 3000 for t in tp.values()):
            sc.opt("free", 1)          # tracing every one-byte read would take too long
            sc.pair(b"y", when="exists")
        else:
            sc.pair(b"y")
        sc.tp, sc.d, sc.ttyp = tp, d, tty
        return sc

    def judge(case, sc, r):
        v = view(sc)
        if v.decision != "pair":
            return
        expect(open_outcome(r) == "granted", "open isn't granted", "not granted")
        wu, wp = local_prompt(v, sc.tp["user"]), pair_prompt(v, sc.tp["pair"])
        got = r.received(0)
        if "free 1" in sc.opts:
            got = r.received()
            got = got[:-4] if got.endswith(b"|end") else got
        expect(got == wp + b"y\n", lambda: "the pair's prompt for template %r is %r, not %r" % (sc.tp["pair"], got[:-2], wp), "pair prompt")
        if sc.ttyp:
            sh = open(sc.d + "/tty", "rb").read()
            expect(sh == wu, lambda: "the user's prompt for template %r is %r, not %r" % (sc.tp["user"], sh, wu), "user prompt")
        elif b"\0" not in wu:
            sh = r.printed(3, 0)
            expect(sh == wu, lambda: "the user's printed prompt for template %r is %r, not %r" % (sc.tp["user"], sh, wu), "user prompt printed")
        for n in ("user", "pair"):
            for dct in set(re.findall(rb"%(.)", sc.tp[n] or b"", re.S)):
                ctx.count("%" + chr(dct[0]) if dct in (b"b", b"B", b"C", b"d", b"h", b"H", b"g", b"p", b"u", b"U", b"W", b"%") else "other escapes")
        ctx.saw([sc.tp["user"], sc.tp["pair"], sorted((k.decode("latin1"), x.decode("latin1")) for k, x in v.expansions.items())],
                {"template": sc.tp["pair"], "prompt": wp[:200]} if sc.tp["pair"] else None, nontrivial=any(t is None or b"%" in t for t in sc.tp.values()))
    ctx.run_cases(build.plugin(), cases, mk, judge)
    big = {k: v for k, v in ctx.counts.items() if k.startswith("%")}
    ctx.extra["directives_seen"] = len(big)


# ------------------------------------------------------------------ C18
@check("C18", "An open with a boundary or random 32-bit API version, or with required entries absent, malformed or non-UTF-8. Non-trivial: distinct (version class, set of bad entries).",
       TRACE + "oracle: version arithmetic and the list of required entries; exact message; directory untouched; plus the library's own version type driven in-process",
       "Versions: all boundary values and samples; the harness part walks many more through the library's version type.")
def c18(ctx):
    rng = ctx.rng
    cases = []
    vers = set()
    for maj in (0, 1, 2, 3, 255, 256, 32767, 32768, 65535):
        for mi in (0, 1, 8, 9, 10, 14, 17, 255, 256, 0x108, 0x109, 32768, 65534, 65535):
            vers.add(maj << 16 | mi)
    vers |= {0x10009, 0x10008, 0x90001, 0x9, 0x1, 0x10000, 0xffffffff, 0x80000000, 0x7fffffff, 0x00090001}
    for v in sorted(vers):
        cases.append(dict(seed=v, ver=v))
    for k in range(ctx.n(2000, 40000)):
        cases.append(dict(seed=rng.randrange(1 << 48), ver=rng.choice([rng.randrange(1 << 32), rng.randrange(1 << 18), (rng.randrange(3) << 16) | rng.randrange(20)])))
    req = [("settings", k) for k in model.SETTINGS_REQ] + [("user", k) for k in model.USER_ORDER]
    for g, k in req:
        for how in ("absent", "nonutf8", "empty", "junk", "big", "novalue", "nullvec"):
            cases.append(dict(seed=1, bad=[[g, k, how]]))
    for k in range(ctx.n(3000, 40000)):
        cases.append(dict(seed=rng.randrange(1 << 48), bad=[[*rng.choice(req), rng.choice(["absent", "nonutf8", "empty", "junk", "big", "novalue", "dup-ok", "dup-bad"])] for _ in range(rng.choice([1, 1, 2, 3]))]))

    def mk(case, d):
        g = rcase(case)
        i = paired_inv(g, d) if g.random() < .8 else gen.exempt(g, d)
        i.ver = case.get("ver", 1 << 16 | g.choice([9, 14, 17]))
        e = i.env()
        for grp, k, how in case.get("bad", []):
            vec = "settings" if grp == "settings" else "user_info"
            L = list(getattr(e, vec) or [])
            kb = k.encode()
            ok = [x for x in L if x.split(b"=")[0] == kb]
            rest = [x for x in L if x.split(b"=")[0] != kb]
            val = {"absent": [], "nonutf8": [kb + b"=\xff1"], "empty": [kb + b"="], "junk": [kb + b"=12x"], "big": [kb + b"=99999999999999999999"], "novalue": [kb],
                   "dup-ok": [kb + b"=\xff"] + ok, "dup-bad": ok + [kb + b"=\xff"], "nullvec": None}[how]
            setattr(e, vec, None if val is None else rest + val)
        sc = sim.Scenario()
        sc.env(e)
        sc.opt("watch", d + "/s").opt("sock", "%s/s/%s.%s.sock" % (d, i.user["uid"], i.user["pid"]))
        sc.open()
        sc.log("ttyout", b"x")
        sc.log("stdin", b"x")
        sc.pair(b"y")
        return sc

    def judge(case, sc, r):
        v = view(sc)
        o = open_outcome(r)
        ctx.count("bad" if v.bad else "good")
        ctx.saw([case.get("ver"), sorted(map(tuple, case.get("bad", []))), v.bad], {"version": case.get("ver"), "bad": case.get("bad"), "outcome": o, "printed": r.printed(3, 0)} if v.bad else None)
        if v.bad:
            expect(o == "refused", "open %s with %s" % (o, "API version %d.%d" % v.version if v.bad == "version" else "an unusable %s" % v.bad), "unsupported accepted: " + v.bad)
            expect(dir_events(r) == 0, "the socket directory is touched", "directory touched")
            p = r.printed(3, 0)
            expect(r.printed(4, 0) == b"", "the refusal is printed as information", "level")
            lines = p.split(b"\n")
            expect(p.startswith(b"\nsudo_pair: ") and p.endswith(b"\n") and all(l.startswith(b"sudo_pair: ") for l in lines[1:-1]), lambda: "the refusal prints %r" % p, "format")
            if v.bad == "version":
                expect(re.search(rb"(?<![0-9.])%d\.%d(?![0-9.])" % v.version, p) and re.search(rb"(?<![0-9.])1\.9(?![0-9.])", p), lambda: "the refusal doesn't name both versions: %r" % p, "versions named")
                if v.version < (1, 9):
                    a, b = p.find(b"%d.%d" % v.version), p.find(b"1.9")
            else:
                expect(re.search(rb"\b%s\b" % v.bad.encode(), p), lambda: "the refusal doesn't name %s: %r" % (v.bad, p), "entry named")
            expect(r.ret(1) not in (1, None) and r.ret(2) not in (1, None), "output is accepted after the refusal", "accepted after refusal")
        elif v.decision in ("exempt", "pair"):
            expect(o == "granted", "open %s with API version %d.%d and usable arguments" % ((o,) + v.version), "supported refused")
    ctx.run_cases(build.plugin(), cases, mk, judge)
    try:
        import checks_lib
    except ModuleNotFoundError:
        return
    checks_lib.versions(ctx)


# ------------------------------------------------------------------ C23
@check("C23", "Opens with no command (NULL, empty or command-less information) and with command paths of all byte contents, with version callbacks before and after. Non-trivial: distinct (command bytes class, session kind, calls).",
       TRACE + "oracle: shortcut taken iff the command is empty; printed name and version; directory and terminal untouched",
       "Command byte strings are sampled, all 255 single-byte ones enumerated.")
def c23(ctx):
    rng = ctx.rng
    cases = [dict(seed=k, cmd=bytes([k]).hex()) for k in range(1, 256)]
    for c in (b"\xff", b"\xff\xfe", b"/bin/\xff", b"\xc3\x28", b"\xed\xa0\x80", b" ", b"=", b"/", b".", b"\xf0\x9f\x92\xa9", b"\x80" * 40, b"command", b"/bin/\xe9dit", b"\xc3"):
        for k in range(3):
            cases.append(dict(seed=rng.randrange(1 << 48), cmd=c.hex()))
    for k in range(ctx.n(5000, 30000)):
        cases.append(dict(seed=rng.randrange(1 << 48), cmd=bytes(rng.choice([rng.randrange(1, 256), 0xff, 0x2f, 0x61]) for _ in range(rng.randrange(1, 12))).hex()))
    for how in ("nullvec", "emptyvec", "nocommand", "emptyvalue", "nullargv", "othervec", "dupempty"):
        for k in range(ctx.n(80, 400)):
            cases.append(dict(seed=rng.randrange(1 << 48), none=how))

    def mk(case, d):
        g = rcase(case)
        i = paired_inv(g, d) if g.random() < .7 else gen.exempt(g, d)
        if "cmd" in case:
            if g.random() < .8:
                i.cmd["command"] = bytes.fromhex(case["cmd"])
        tty = g.random() < .4
        if tty:
            open(d + "/tty", "w").close()
            i.user["tty"] = d + "/tty"
        e = i.env()
        if "cmd" in case and g.random() < .15:      # nothing but the command's path says there is one
            e.argv, e.argc = g.choice([(None, 0), ([], 0), ([b"sudo", b"-V"], 2), ([b""], 1)])
        if "none" in case:
            h = case["none"]
            if h in ("nullvec", "nullargv"): e.command_info = None
            elif h == "emptyvec": e.command_info = []
            elif h == "emptyvalue": e.command_info = [x for x in e.command_info if not x.startswith(b"command=")] + [b"command="]
            elif h == "nocommand": e.command_info = [x for x in e.command_info if not x.startswith(b"command=")]
            elif h == "othervec": e.command_info = [b"commands=/bin/ls", b"Command=/bin/ls", b"runas_uid=0"]
            elif h == "dupempty": e.command_info = list(e.command_info) + [b"command="]
            if h == "nullargv":
                e.argv, e.argc = None, 0
                e.plugin_options = None if g.random() < .5 else e.plugin_options
                e.user_env = None if g.random() < .5 else e.user_env
            elif g.random() < .6:
                e.argv = [b"sudo", b"-V"] if g.random() < .5 else []
        sc = sim.Scenario()
        sc.env(e)
        sc.opt("watch", d + "/s").opt("sock", "%s/s/%s.%s.sock" % (d, i.user["uid"], i.user["pid"])).opt("trace", 2)
        sc.open()
        for _ in range(g.randrange(1, 4)):
            sc.ver(g.choice([0, 1, 2, -1, -1 << 31, 1 << 30]))
        if g.random() < .5:
            sc.log("ttyout", b"x")
        sc.close(0, 0)
        sc.pair(b"n")
        sc.d, sc.ttyp = d, tty
        return sc

    version = re.search(r"""(?m)^version\s*=\s*["']([^"']+)["']""", open(os.path.join(build.REPO, "sudo_pair/Cargo.toml")).read()).group(1)

    def judge(case, sc, r):
        v = view(sc)
        d = v.decision
        o = open_outcome(r)
        ctx.count(d)
        ctx.saw([case.get("none"), v.cmd["command"], d, len(sc.ops)], {"command": v.cmd["command"], "decision": d, "outcome": o})
        name = v.sock_name.decode()
        if d == "version":
            expect(o == "granted", "a version query (%s) is %s" % (case.get("none"), o), "version query refused")
            expect(dir_events(r) == 0 and not r.of("connect"), "a version query touches the socket directory", "version query creates")
            expect(r.printed(op=0) == b"", "open prints %r for a version query" % r.printed(op=0), "version query prompts")
            expect(not sc.ttyp or os.path.getsize(sc.d + "/tty") == 0, "a version query writes to the terminal")
        else:
            want = {"exempt": "granted", "pair": "refused", "both": "refused"}.get(d)
            if want:
                expect(o == want, "a command %r (%s, the pair would say n) is %s" % (v.cmd["command"], d, o), "command treated as version query" if o == "granted" else "outcome")
            if d == "pair":
                expect(name in names(r), "a command %r isn't paired" % v.cmd["command"], "no pairing for command")
        for k, op in enumerate(sc.ops):
            if kind_of(op) == "ver" and (o == "granted"):
                expect(r.ret(k) == 1, "the version callback returns %r" % r.ret(k), "version callback")
                ver_out = r.printed(4, k)
                expect(ver_out.count(b"\n") == 1 and b"sudo_pair" in ver_out and version.encode() in ver_out and r.printed(3, k) == b"", lambda: "the version callback prints %r" % r.printed(op=k), "version text")
            if kind_of(op) == "ttyout" and d == "version":
                expect(r.ret(k) != 1, "output is accepted after a version query", "log after version query")
    ctx.run_cases(build.plugin(), cases, mk, judge)
    # with debug assertions, too: an argument vector may be NULL
    ctx.run_cases(build.plugin_debug(), [c for c in cases if "none" in c], mk, judge)


# ------------------------------------------------------------------ C27
def path_key(p):
    return p


@check("C27", "A random plugin option line (subsets, duplicates, orders, malformed lists, unknown options) whose effects are watched through the paths the plugin opens, the socket's place and the decisions it takes. Non-trivial: distinct option line.",
       TRACE + "oracle: option model; the tracer records every path the plugin asks the kernel for",
       "With no socket_dir the session must be refused or the real default directory is not touched: such lines are only run where /var/run/sudo_pair does not exist.")
def c27(ctx):
    rng = ctx.rng
    real_default = os.path.lexists("/var/run/sudo_pair")
    if real_default:
        ctx.assumptions.append("/var/run/sudo_pair exists here: lines without socket_dir were not run")
    cases = [dict(seed=rng.randrange(1 << 48)) for _ in range(ctx.n(4500, 100000))]

    def mk(case, d):
        g = rcase(case)
        i = Inv(d)
        G = [0, 5, 7, 100, 1000]
        i.user.update(uid=1882, gid=100, groups=",".join(map(str, gen.grouplist(g, 3, [100, 1000, 5]))))
        i.cmd.update(runas_uid=g.choice([0, 7]), runas_gid=g.choice(G), runas_groups=",".join(map(str, gen.grouplist(g, 2, G))), command=g.choice(["/bin/ls", "/bin/ls", "/usr/bin/sudo_approve", "/opt/ok"]))
        for sub in ("s", "s2", "s3"):
            os.makedirs(d + "/" + sub, exist_ok=True)
            os.chmod(d + "/" + sub, 0o755)
        for n in ("u1", "u2", "p1", "p2"):
            open(d + "/" + n, "w").write("<%s %%u>\n" % n)
        line = []

        def put(k, vals):
            for _ in range(g.choice([0, 1, 1, 1, 2, 3])):
                x = g.choice(vals)
                line.append(k.encode() + (b"=" + (x if isinstance(x, bytes) else x.encode()) if x is not None else b""))
        put("binary_path", ["/opt/ok", "/bin/ls", "/usr/bin/sudo_approve", "/opt/ok2", b"/bin/\xff", ""])
        put("user_prompt_path", [d + "/u1", d + "/u2", d + "/missing", (d + "/").encode() + b"\xff", ""])
        put("pair_prompt_path", [d + "/p1", d + "/p2", d + "/missing", ""])
        put("socket_dir", [d + "/s", d + "/s2", d + "/s3", d + "/s/"] + ([""] if g.random() < .1 else []))
        lists = ["0", "7", "0,7", "5,100", "", "x", "0,", ",0", "0 ", " 0", "0,x", "4294967295", "4294967296", "-1", "0x0", "00", "7,7", "1000", "100", b"\xff", None, "0,5,7,100,1000", "0;7", "100,x", "x,1000", "5,", "100,1000,", "5,,100", "1000 ,5", "100;5", "7,x,0", "1000,4294967396", "-5,5"]
        for _ in range(2):     # long ones
            far = ",".join(str(20000 + x) for x in range(g.choice([15, 31, 63, 64, 65, 255, 300, g.choice(lits.COUNTS) % 700])))
            lists.append(g.choice([far + "," + g.choice(["0", "7", "100"]), g.choice(["0", "7", "100"]) + "," + far, far]))
        put("gids_enforced", lists)
        put("gids_exempted", lists)
        for _ in range(g.randrange(0, 3)):
            line.append(g.choice([b"unknown=1", b"socketdir=/etc", b"Socket_Dir=/etc", b"socket_dir ", b"gids_enforced_=5", b"debug", b"", b"=", b"=x", b" gids_enforced=7", b"gids_exempted =100", b"binary_path_x=/bin/ls", b"GIDS_ENFORCED=5"]))
        g.shuffle(line)
        if not any(x.startswith(b"socket_dir=") for x in line):
            if real_default or g.random() < .8:
                line.insert(g.randrange(len(line) + 1), b"socket_dir=" + d.encode() + b"/s")
        e = i.env()
        e.plugin_options = None if (g.random() < .02 and not real_default) else line
        sc = sim.Scenario()
        sc.env(e)
        v = model.View(e)
        sd = v.opt["socket_dir"].decode("utf-8", "surrogateescape").rstrip("/")
        sc.meta["real"] = not sd.startswith(d)
        sc.opt("watch", d if sc.meta["real"] else sd).opt("sock", sd + "/1882.4711.sock").opt("trace", 2)
        sc.open()
        sc.log("ttyout", b"o")
        sc.close()
        if not sc.meta["real"]:
            sc.pair(b"y")
        sc.d = d
        return sc

    def judge(case, sc, r):
        v = view(sc)
        d = v.decision
        o = open_outcome(r)
        paths = [(e["nr"], bytes.fromhex(e["d"])) for e in r.of("path", 0)]
        opened = [p for nr, p in paths if nr in (2, 257)]
        bound = [p for nr, p in paths if nr == 49]
        lex = lambda p: model.path_parts(p)
        ctx.count(d)
        ctx.saw(sorted(sc.envs[0].plugin_options or [b"NULL"]), {"options": sc.envs[0].plugin_options, "decision": d, "bound": bound, "opened": [p for p in opened if b"lib" not in p][:6]})
        if d == "exempt":
            expect(o == "granted" and not bound, "an exempt session (%s) under %r is %s" % (v.exemptions, sc.envs[0].plugin_options, o), "exemption not honoured")
            return
        if d != "pair":
            return
        want_u, want_p, want_s = lex(v.opt["user_prompt_path"]), lex(v.opt["pair_prompt_path"]), lex(v.sock_path)
        expect(want_u in map(lex, opened), lambda: "the user's prompt is read from %r, not from %r" % (opened, v.opt["user_prompt_path"]), "user_prompt_path")
        if sc.meta["real"]:
            expect(o == "refused", "open %s with the default socket directory, which doesn't exist" % o, "default dir")
            ctx.count("default socket_dir")
            touched = [lex(p)[1] for nr, p in paths]
            if not v.opt["socket_dir"]:
                expect(not any(t[:3] == (b"var", b"run", b"sudo_pair") for t in touched), lambda: "an empty socket_dir is taken for the default: %r" % paths, "empty socket_dir")
            expect(any(t[:len(lex(v.opt["socket_dir"])[1])] == lex(v.opt["socket_dir"])[1] for t in touched), lambda: "the default socket directory isn't used: %r" % paths, "default socket_dir")
            return
        expect([lex(b) for b in bound] == [want_s], lambda: "the socket is bound at %r, not %r" % (bound, v.sock_path), "socket_dir")
        expect(o == "granted", lambda: "open %s with options %r" % (o, sc.envs[0].plugin_options), "outcome")
        expect(want_p in map(lex, opened), lambda: "the pair's prompt is read from %r, not from %r" % (opened, v.opt["pair_prompt_path"]), "pair_prompt_path")
        tpl = {}
        for k in ("user_prompt_path", "pair_prompt_path"):
            try:
                tpl[k] = open(v.opt[k], "rb").read()
            except OSError:
                tpl[k] = None
        expect(r.received(0) == pair_prompt(v, tpl["pair_prompt_path"]) + b"y\n", "the pair's prompt isn't the configured one", "pair prompt text")
        expect(r.printed(3, 0) == local_prompt(v, tpl["user_prompt_path"]), "the user's prompt isn't the configured one", "user prompt text")
        for k in model.DEF:
            if v.opt[k] == model.DEF[k]:
                ctx.count("default " + k)
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C33
@check("C33", "Paired and exempt sessions with tokens hidden in the pair's prompt, in each output chunk, in each keystroke and input chunk and in the user's environment; other clients reach the socket before or after the pair; pairs that hang up, decline or never answer; printf, terminal, log and system-call failures. Non-trivial: a token or another client was seen; distinct history.",
       TRACE + "oracle: taint tokens searched for in everything written through any system call, printed, logged, received by any client or left in a file",
       "A token is recognised only unencoded and in one write of up to 4 MB (or in consecutive writes to one descriptor); what a child process or a shared mapping would write is seen only if it ends up in the scratch directory.")
def c33(ctx):
    rng = ctx.rng
    cases = [dict(seed=rng.randrange(1 << 48), answer=rng.choice(["y", "y", "Y", "y", "n", "", None]), exempt=rng.random() < .2,
                  before=[rng.choice(["", "79", "6e"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))], after=[rng.choice(["", "79", "59", "6e"]) for _ in range(rng.choice([0, 0, 1, 1, 2, 5]))],
                  end=rng.choice([None, None, None, "close", "rst", "shutrd", "shutwr"]), inj=rng.random() < .35, log=rng.random() < .5, tty=rng.choice([None, None, "file", "null", "full", "gone"])) for _ in range(ctx.n(2800, 60000))]

    def mk(case, d):
        g = rcase(case)
        i = gen.exempt(g, d) if case["exempt"] else paired_inv(g, d)
        tokens = []

        def token(what):
            t = bytes(g.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(14))
            tokens.append((what, t))
            return t
        for w in ("pair", "user"):
            with open("%s/%s.tpl" % (d, w), "wb") as f:
                f.write(gen.rbytes(g, g.randrange(20), b"ab \n") + (token("prompt") if w == "pair" else b"asks") + gen.rbytes(g, g.choice([0, 5, 200]), b"cd \n%"))
        if case["tty"]:
            i.user["tty"] = {"file": d + "/tty", "null": "/dev/null", "full": "/dev/full", "gone": d + "/none/tty"}[case["tty"]]
            open(d + "/tty", "w").close()
        i.user_env = {"PATH": "/bin", "PASSWORD": token("environment").decode(), token("environment").decode(): "1"}
        sc = base(i, case["seed"] % 99999 + 1)
        sc.d = d
        if g.random() < .2:
            sc.opt("printf", g.choice([1, 2]))
        if case["log"]:
            sc.opt("syslog", 1).opt("cwd", d)
        sc.open()
        for _ in range(g.randrange(2, 9)):
            kind = g.choice(["ttyout", "stdout", "stderr", "ttyin", "stdin", "ttyin", "stdin"])
            t = token("output" if kind in ("ttyout", "stdout", "stderr") else "input") if len(tokens) < 20 else b""
            pre, post = gen.rbytes(g, g.choice([0, 0, 1, 7, 60, 4090]), b"xyz \n\0\xff"), gen.rbytes(g, g.choice([0, 0, 1, 60, 70000]), b"xyz \n\0\xff")
            sc.log(kind, pre + t + post if g.random() < .8 else special(g))
            if g.random() < .15:
                sc.winsize(g.randrange(200), g.randrange(200))
        k = sc.close(g.choice([0, 1]), g.choice([0, 5]))
        if g.random() < .3:
            sc.log(g.choice(["ttyout", "stdout", "stdin"]), token("late"))
        sc.meta.update(tokens=tokens, close=k)
        for _, t in tokens:
            sc.opt("canary", hx(t))
        for x in case["before"]:
            sc.step(g.choice(["exists", "block"]), "extra " + (x or "-"))
        sc.step("block", "connect")
        for x in case["after"]:
            sc.step("block", "extra " + (x or "-"))
        if case["answer"] is not None:
            sc.step("block" if case["answer"] else "idle", "send " + hx(case["answer"].encode()) if case["answer"] else "close")
        if case["end"]:
            sc.step("op:%d" % g.randrange(1, k + 1), case["end"])
        if case["inj"]:
            sc.inject(g.choice([0, 0, g.randrange(k + 1)]), g.randrange(1, 60), "errno", g.choice([1, 5, 12, 13, 24, 28, 32, 104, 11]))
        return sc

    def judge(case, sc, r):
        v = view(sc)
        if any(e["nr"] in MEMORY | NOFAIL | {13, 14, 15} for e in r.of("inject")):
            ctx.count("no memory: not judged")    # the C library aborts on these by itself
            return
        tokens = sc.meta["tokens"]
        o = open_outcome(r)
        t_ret = min([e["t"] for e in r.of("end", 0)] + [1 << 60])
        clients = sorted([(e["t"], "pair", 0) for e in r.of("connect")] + [(e["t"], "extra", k) for k, e in enumerate(r.of("extra"))])
        clients = [c for c in clients if c[0] < t_ret]
        pair = clients[0][1:] if clients else None
        streams = {("extra", k): b"" for k in range(len(r.of("extra")))}
        streams[("pair", 0)] = r.received()
        for e in r.of("extra_got"):
            streams[("extra", e["k"])] += bytes.fromhex(e["d"])
        for c, s in streams.items():
            if c != pair:
                expect(not s, lambda: "a client that is not the pair received %r" % s[:300], "another client is served")
        for c in clients[1:]:
            if c[1] == "extra" and o != "waiting" and case["inj"] is False:
                expect(any(e["k"] == c[2] and e["op"] <= 0 for e in r.of("extra_eof")), "open has returned (%s), and another client's connection is still there" % o, "another client is kept")
        ctx.count(o)
        ctx.count("other clients", max(0, len(clients) - 1))
        ctx.count("other clients that were first", int(bool(pair) and pair[0] == "extra"))
        mayprompt = not v.bad and v.decision == "pair"
        for k in range(1, len(sc.ops)):
            if sc.ops[k].split()[1:2] in (["ttyin"], ["stdin"]):
                ctx.count("inputs")
                expect(not r.received(k), lambda: "during the input %s the pair received %r" % (sc.ops[k][:60], r.received(k)[:200]), "input followed by output")
        for e in r.of("canary"):
            what, t = tokens[e["k"]]
            to = bytes.fromhex(e["d"]).decode("utf-8", "replace")
            ok = to == "pair" and mayprompt and (what == "prompt" or what == "output" and o == "granted" and e["op"] > 0)
            ctx.count("%s to the pair" % what if ok else "leak")
            expect(ok, "the %s (token %s) is written to %s during operation %d (%s)" % (what, t.decode(), to, e["op"], sc.ops[e["op"]][:60]), "%s written elsewhere" % what)
        said = r.printed()
        logged = b"".join(bytes.fromhex(e["d"]) for e in r.of("syslog"))
        for what, t in tokens:
            expect(t not in said, lambda: "the %s is printed: %r" % (what, said[:600]), "%s printed" % what)
            expect(t not in logged, lambda: "the %s is logged: %r" % (what, logged[:600]), "%s logged" % what)
            if what in ("input", "environment", "late"):
                expect(all(t not in s for s in streams.values()), "the %s reaches a client" % what, "%s received" % what)
        for root, _, fs in os.walk(sc.d):
            for f in fs:
                p = os.path.join(root, f)
                if f == "pair.tpl" and root == sc.d or not os.path.isfile(p):
                    continue
                x = open(p, "rb").read()
                for what, t in tokens:
                    expect(t not in x, "the %s is found in the file %s" % (what, p[len(sc.d):]), "%s in a file" % what)
        seen = len(r.of("canary"))
        ctx.saw([[x.split()[0:2] for x in sc.ops], [c[1:] for c in clients], o, case["end"], case["tty"], case["log"]], {"outcome": o, "clients": [c[1] for c in clients], "ops": [x[:30] for x in sc.ops][:8], "tokens seen on the pair's connection": seen}, nontrivial=bool(seen or len(clients) > 1))
    ctx.run_cases(build.plugin(), cases, mk, judge)
