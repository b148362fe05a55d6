"""Concurrent sessions, the system log, long-lived processes, the example plugin and the approval script."""
import stat
import ctypes, json, os, random, re, select, shutil, signal, struct, subprocess, threading, time, hashlib
import build, gen, model, sim
from common import *
from framework import Violation, Inconclusive, expect, brief
from gen import Inv
from registry import check

TRACE = "system-call-boundary runtime monitor (ptrace) over the real plugin, "


def rcase(case):
    return random.Random(case["seed"])


# ------------------------------------------------------------------ C26
class DirLog:
    """Every event in a directory, as the kernel reports it (inotify)."""
    CREATE, DELETE, MOVED, ATTRIB = 0x100, 0x200, 0xc0, 0x4

    def __init__(self, path):
        self.libc = ctypes.CDLL(None, use_errno=True)
        self.fd = self.libc.inotify_init1(0o2000000 | 0o4000)
        if self.fd < 0 or self.libc.inotify_add_watch(self.fd, path.encode(), self.CREATE | self.DELETE | self.MOVED | self.ATTRIB) < 0:
            raise Inconclusive("no inotify")

    def read(self):
        out = []
        while True:
            try:
                b = os.read(self.fd, 1 << 20)
            except BlockingIOError:
                return out
            o = 0
            while o < len(b):
                wd, mask, ck, ln = struct.unpack_from("iIII", b, o)
                out.append((mask, b[o + 16:o + 16 + ln].rstrip(b"\0").decode()))
                o += 16 + ln

    def close(self):
        os.close(self.fd)


OUTCOMES = ("y", "y", "Y", "n", "hangup", "int-accept", "int-read", "kill-accept", "kill-read")


def session(g, d, uid, pid, outcome, free, n_log=3):
    """one session of its own in the shared directory d/s"""
    i = Inv(d)
    i.user.update(uid=uid, gid=uid, egid=g.choice([uid, 0]), groups=str(uid), pid=pid, user="u%d" % uid, host="h%d" % pid)
    i.cmd.update(runas_uid=g.choice([x for x in (0, 7, 500) if x != uid]), runas_gid=0, runas_groups="0")
    i.argv = [b"/bin/ls", b"%d-%d" % (uid, pid)]
    i.opt["user_prompt_path"], i.opt["pair_prompt_path"] = d + "/none", d + "/none"
    if g.random() < .5:
        gen.vary(g, i)
    sc = i.scenario("%d.%d" % (uid, pid))
    sc.opt("seed", g.randrange(1, 99999))
    if free:
        sc.opt("free", 1)
    sc.open()
    for k in range(n_log):
        sc.log("ttyout", b"<%d.%d:%d>" % (uid, pid, k) + gen.rbytes(g, g.choice([0, 10, 3000])))
    sc.close(0, 0)
    first, then = ("exists", "idle") if free else ("block", "block")
    if outcome == "int-accept":
        sc.step("exists" if free else "block", "note")
        for _ in range(20 if free else 1):     # untraced, one may come just before the wait
            sc.step("idle", "sig 2")
    elif outcome == "kill-accept":
        sc.step("exists" if free else "block", "note")
        sc.step("idle", "kill")
    else:
        sc.step(first, "connect")
        for _ in range(19 if free and outcome == "int-read" else 0):
            sc.step("data" if _ == 0 else "idle", "sig 2")
        sc.step(then if outcome in "yYn" else "data", {"y": "send 79", "Y": "send 59", "n": "send 6e", "hangup": "close", "int-read": "sig 2", "kill-read": "kill"}[outcome])
    sc.meta.update(outcome=outcome, name="%d.%d.sock" % (uid, pid))
    return sc


def alone(sc, r, who):
    """the session's history is that of a session on its own"""
    v, o = view(sc), sc.meta["outcome"]
    if r.inconclusive:
        raise Inconclusive("watchdog")
    if r.stuck:
        raise Violation("%s (%s) never gets an answer from its own pair" % (who, o), "session stuck")
    if r.of("connect_fail"):
        raise Violation("%s: its own pair can't connect (errno %s)" % (who, r.of("connect_fail")[0]["errno"]), "own pair can't connect")
    got = r.received()
    p = pair_prompt(v)
    if o in ("kill-accept", "kill-read"):
        expect(r.sig == 9, "%s ended with code %r before it could be killed" % (who, r.code), "not killed")
        return
    died(r, who)
    ret = r.ret(0)
    if o in ("y", "Y"):
        expect(ret == 1, "%s was approved by its own pair but open returns %r" % (who, ret), "approved session refused")
        want = p + o.encode() + b"\n" + b"".join(bytes.fromhex(x.split()[2]) for x in sc.ops if x.startswith("log"))
        expect(got == want, lambda: "%s: its pair received %d bytes, not its own %d" % (who, len(got), len(want)), "cross-talk")
        for k in range(1, len(sc.ops) - 1):
            expect(r.ret(k) == 1, "%s: output refused (%r)" % (who, r.ret(k)), "output refused")
    else:
        expect(ret in REFUSED, "%s (%s) was not approved but open returns %r" % (who, o, ret), "unapproved session granted")
        if o in ("n", "hangup", "int-read"):
            expect(got[:len(p)] == p, "%s: its pair saw %r" % (who, got[:80]), "cross-talk")


def crowd(g, sd, n):
    """The sockets of many other sessions."""
    for k in range(n):
        os.mknod("%s/%d.%d.sock" % (sd, g.choice([3, 1234, 18820, 65534]), 1000 + k), stat.S_IFSOCK | 0o200)


@check("C26", "Two sessions in one directory, the second one run completely while the first is held at one of its system-call boundaries (all boundaries enumerated, over outcomes and related uid/pid pairs); and rounds of many free-running sessions at once. Non-trivial: distinct (boundary, outcomes, relation of the ids), distinct order of directory events.",
       "runtime monitor: enumerated two-session interleavings at system-call boundaries, stress with an inotify directory log; per-session stream and directory oracles",
       "Interleavings of two sessions are enumerated at one switch point each; more than two sessions are only stressed.")
def c26(ctx):
    rng = ctx.rng
    so = build.plugin()
    ids = [((1882, 4711), (1882, 4712)), ((1882, 4711), (5, 4711)), ((1, 11), (11, 1)), ((1, 11), (1, 1)), ((188, 24711), (1882, 4711)), ((1882, 47), (1882, 4711)),
           ((1882, 300), (1882, 300 + 32768)), ((1882, 300), (1882, 300 + 65536)), ((5, 4711), (5 + 65536, 4711)), ((100, 4194304), (100, 4194303)), ((1, 111), (11, 11)), ((7, 4711), (4294967291, 4711)), ((1000, 99), (1000, 100099))]
    # how many boundaries a session has
    s0 = sim.Sim(build.sim(), so)
    d = ctx.scratch.new()
    r0 = s0.run(session(random.Random(1), d, 1882, 4711, "y", False).opt("trace", 1))
    nb = {0: 1, 1: 1, 4: 1}
    for t in r0.tr:
        nb[t[0]] = max(nb.get(t[0], 0), t[1] + 1)
    s0.stop()
    ctx.scratch.done(d)
    on = [sn["si"] for sn in r0.snaps if sn["op"] == 0 and any(e[1] == "s" for e in sn["ls"])]
    off = [sn["si"] for sn in r0.snaps if on and sn["op"] == 0 and sn["si"] > min(on) and not any(e[1] == "s" for e in sn["ls"])]
    held = range(min(on, default=0), min(off, default=max(on, default=-1)) + 1)      # the boundaries at which the socket exists
    outs = ["y", "n", "hangup", "int-accept", "int-read", "kill-accept", "kill-read"]
    cases = []
    for op in (0, 1, len(r0.of("begin")) - 1):
        for n in range(nb.get(op, 1) + 2):
            for k in range(ctx.n(24, 100) * (5 if op == 0 and n in held else 1)):
                a, b = rng.choice(ids)
                if rng.random() < .5:
                    a, b = b, a
                cases.append(dict(seed=rng.randrange(1 << 48), a=a, b=b, oa=rng.choice(outs) if op == 0 else "y", ob=rng.choice(outs), op=op, n=n))
    rng.shuffle(cases)
    local = threading.local()
    second = []

    def one(s, case):
        if sum(v[2] for v in ctx.viol.values()) >= 40:
            return
        if not hasattr(local, "b"):
            local.b = sim.Sim(build.sim(), so)
            second.append(local.b)
        g = rcase(case)
        d = ctx.scratch.new()
        try:
            A = session(g, d, *case["a"], case["oa"], False)
            B = session(g, d, *case["b"], case["ob"], False)
            by = d + "/s/bystander.sock"
            import socket as so_
            keep = so_.socket(so_.AF_UNIX)
            keep.bind(by); keep.listen(4); keep.setblocking(False)
            if g.random() < .08:
                crowd(g, d + "/s", g.choice([40, 70]))
            os.mkfifo(d + "/p.go"); os.mkfifo(d + "/p.back")
            A.opt("pause", case["op"], case["n"], d + "/p")
            go = os.open(d + "/p.go", os.O_RDONLY | os.O_NONBLOCK)
            box = {}

            def run_a():
                try:
                    box["r"] = s.run(A)
                except BaseException as e:
                    box["e"] = e
            t = threading.Thread(target=run_a)
            t.start()
            rb = None
            while t.is_alive():
                if select.select([go], [], [], 0.01)[0]:
                    try:
                        if os.read(go, 1):
                            rb = local.b.run(B)
                            f = os.open(d + "/p.back", os.O_WRONLY)
                            os.write(f, b"x"); os.close(f)
                            break
                    except BlockingIOError:
                        pass
            t.join()
            os.close(go)
            if "e" in box:
                raise box["e"]
            ra = box["r"]
            if rb is None:
                ctx.count("boundary not reached")
                return
            alone(A, ra, "the interrupted session")
            alone(B, rb, "the session run in between")
            # what each saw of the other
            inner = [{tuple(e) for e in sn["ls"] if e[0] != B.meta["name"]} for sn in rb.snaps]
            expect(all(x == inner[0] for x in inner), lambda: "running one session changes another's entry: %r" % [sorted(x) for x in inner if x != inner[0]][:2], "other entry changed")
            expect(any(e[0] == "bystander.sock" for e in inner[0]), "the bystander is gone", "bystander removed")
            tp = ra.time("pause")
            outer = [(sn["t"], {tuple(e) for e in sn["ls"] if e[0] != A.meta["name"]}) for sn in ra.snaps]
            pre = [x for t_, x in outer if t_ < tp]
            post = [x for t_, x in outer if t_ > tp] or pre[-1:]
            expect(all(x == pre[0] for x in pre) and all(x == post[0] for x in post), lambda: "a session changes entries that aren't its own: %r" % [sorted(x) for x in pre + post][:4], "foreign entry changed")
            expect({e for e in post[0] if e[0] != B.meta["name"]} == {e for e in pre[0] if e[0] != B.meta["name"]}, "a bystander changed", "bystander changed")
            left = any(e[0] == B.meta["name"] for e in post[0])
            expect(left == (case["ob"] == "kill-accept"), "a finished session (%s) %s a socket" % (case["ob"], "leaves" if left else "lost"), "residue")
            try:
                keep.accept()
                raise Violation("a session connects to another socket of the directory", "connects elsewhere")
            except BlockingIOError:
                pass
            ctx.count("A held while B ran")
            held = any(e[0] == A.meta["name"] for e in rb.snaps[0]["ls"])
            if held:
                ctx.count("A's socket existed meanwhile")
            ctx.saw([case["op"], case["n"], case["oa"], case["ob"], case["a"], case["b"]], {"held at": [case["op"], case["n"]], "outcomes": [case["oa"], case["ob"]], "ids": [case["a"], case["b"]], "socket present": held})
        except Violation as v:
            ctx.violate(v.what, {"case": case, "scenario": A.text() + B.text(), "plugin": "-", "history": {"a": brief(box.get("r")) if box.get("r") else None, "b": brief(rb) if rb else None}}, v.sig)
        except (Inconclusive, sim.SimDied) as e:
            ctx.incon(str(e))
        finally:
            try:
                keep.close()
            except Exception:
                pass
            ctx.scratch.done(d)
    sim.Pool(build.sim(), so, ctx.jobs).map(one, cases)
    for b in second:
        b.stop()
    if ctx.viol:
        return
    # many at once, untraced
    rounds, N = ctx.n(50, 500), 24
    sims = [sim.Sim(build.sim(), so) for _ in range(N)]
    orders = set()
    try:
        for k in range(rounds):
            g = ctx.sub("round", k)
            d = ctx.scratch.new()
            if k % 3 == 2:
                crowd(g, d + "/s", g.choice([100, 300, 1100]))
            log = DirLog(d + "/s")
            uids = [g.choice([1, 11, 111, 1882, 42]) for _ in range(N)]
            pids = g.sample(range(1, 200), N) if k % 2 else [100 + x for x in range(N)]
            scs = []
            for x in range(N):
                o = g.choice(OUTCOMES)
                scs.append(session(g, d, uids[x], pids[x], o, True, g.randrange(0, 12)))
            res = [None] * N
            bar = threading.Barrier(N)

            def work(x):
                bar.wait()
                try:
                    res[x] = sims[x].run(scs[x])
                except sim.SimDied as e:
                    res[x] = e
            ts = [threading.Thread(target=work, args=(x,)) for x in range(N)]
            for t in ts: t.start()
            for t in ts: t.join()
            ev = log.read()
            log.close()
            fin = set(os.listdir(d + "/s"))
            try:
                per = {}
                for m, nm in ev:
                    per.setdefault(nm, []).append("C" if m & DirLog.CREATE else "D" if m & DirLog.DELETE else "A" if m & DirLog.ATTRIB else "M")
                mine = {sc.meta["name"]: sc for sc in scs}
                for x in range(N):
                    if isinstance(res[x], sim.SimDied):
                        raise Inconclusive(str(res[x]))
                    alone(scs[x], res[x], "session %d of %d" % (x, N))
                for nm, seq in per.items():
                    expect(nm in mine, "something creates or changes %s" % nm, "stray entry")
                    q = "".join(seq)
                    expect(q.count("C") == 1 and q.count("D") <= 1 and "M" not in q, lambda: "the history of %s is %s" % (nm, q), "entry history")
                    expect((nm in fin) == (mine[nm].meta["outcome"] == "kill-accept"), lambda: "%s (%s) is %s at the end" % (nm, mine[nm].meta["outcome"], "there" if nm in fin else "gone"), "residue at end")
                order = hashlib.sha1(repr([(m, nm) for m, nm in ev]).encode()).hexdigest()
                orders.add(order)
                ctx.count("free-running sessions", N)
                ctx.count("directory events", len(ev))
                ctx.saw(["round", order], {"round": k, "first events": [nm for _, nm in ev][:8]}, n=1)
            except Violation as v:
                ctx.violate(v.what, {"round": k, "scenario": "".join(s_.text() for s_ in scs)[:20000], "plugin": "-", "history": {"events": ev[:400]}}, v.sig)
            except Inconclusive as e:
                ctx.incon(str(e))
            ctx.scratch.done(d)
            if ctx.viol:
                break
    finally:
        for s in sims:
            s.stop()
    ctx.extra["distinct_event_orders"] = len(orders)


# ------------------------------------------------------------------ C28
WORDS = {"exempt": rb"exempt", "required": rb"required", "approved": rb"approved", "declined": rb"declined", "both": rb"-u and -g", "ended": rb"\bended\b"}


def records(r, op=None):
    out = []
    for e in r.of("syslog", op):
        b = bytes.fromhex(e["d"])
        m = re.match(rb"<(\d+)>", b)
        out.append((e["op"], int(m.group(1)) if m else None, b))
    return out


@check("C28", "A session of every kind of outcome with a system log that listens, is absent, refuses, disappears, or fails at one or every call. Non-trivial: distinct (outcome, log behaviour, command).",
       TRACE + "with /dev/log redirected to a scratch socket; oracle: records match the outcome; differential against the same session without a log and against a build without logging",
       "Hostile log contents beyond text and non-UTF-8 commands are not generated; a log daemon that stops reading is not covered.")
def c28(ctx):
    rng = ctx.rng
    so = build.plugin()
    try:
        nolog = build.plugin_nolog()
    except build.BuildFailed as e:      # the plugin itself has been built: it's the absence of the log that breaks it
        nolog = None
        ctx.violate("the plugin doesn't build without its logging features", {"output": str(e)[-3000:]}, "no build without logging")
    kinds = ["approved", "approved", "declined", "declined-eof", "exempt", "exempt", "both", "nodir", "interrupted", "int-read", "version"]
    cases = [dict(seed=rng.randrange(1 << 48), kind=rng.choice(kinds)) for _ in range(ctx.n(2500, 20000))]

    def mk(case, d, mode):
        g = rcase(case)
        k = case["kind"]
        i = gen.exempt(g, d) if k == "exempt" else gen.paired(g, d)
        if k != "exempt" and model.View(i.env()).decision != "pair":
            i = Inv(d)
        if g.random() < .5:            # the effective ids of the target need not be its real ones
            was, before = dict(i.cmd), model.View(i.env()).decision
            i.cmd.update(runas_euid=gen.ids(g), runas_egid=gen.ids(g))
            if model.View(i.env()).decision != before:
                i.cmd = was
        if g.random() < .4 and k != "version" and i.cmd["command"] != "/usr/bin/sudo_approve":
            i.cmd["command"] = g.choice([b"/bin/" + gen.rbytes(g, 6, b"abc\xc3\xa9\xff%n ,:\""), "/bin/a, uid: 0", "/x" * 300])
        if g.random() < .06:         # many or long arguments
            i.argv = [i.argv[0]] + ["a%d" % x for x in range(g.choice([0, 5, 300, 2000]))] + ["x" * g.choice([1, 100, 1000, 5000, 20000]) for _ in range(g.choice([1, 2, 3]))] + ["the end"]
        if k == "both":
            i.settings["runas_group"] = "grp"
            i.cmd.update(runas_uid=0 if i.user["uid"] else 7)
        if k == "nodir":
            i.opt["socket_dir"] = d + "/missing"
        if k == "version":
            i.cmd["command"] = None
        sc = base(i, case["seed"] % 99999 + 1)
        sc.prior = None         # a process's first panic is reported at more length than the next
        if mode is not None:
            sc.opt("syslog", mode)
        sc.opt("cwd", d).opt("trace", 1)
        sc.open()
        for _ in range(g.randrange(0, 3)):
            sc.log(g.choice(["ttyout", "stdout", "stdin"]), gen.rbytes(g, g.choice([0, 4, 300])))
        sc.meta["close"] = sc.close(g.choice([0, 1, 256]), 0)
        if k == "interrupted":
            sc.step("block", "sig 2")
        elif k == "declined-eof":
            sc.step("block", "connect"); sc.step("idle", "close")
        elif k == "int-read":
            sc.step("block", "connect"); sc.step("idle", "sig 2")
        else:
            sc.pair(g.choice([b"n", b"n", b"N", b"q", b"\n", b" y", b"\0", b"1", b"\xff"]) if k == "declined" else g.choice([b"y", b"Y"]))
            if k == "approved":        # however the connection ends, the session does
                x = g.random()
                if x < .2:
                    sc.step("op:%d" % g.randrange(1, sc.meta["close"] + 1), g.choice(["close", "rst"]))
                elif x < .4:
                    sc.opt("failnr", sc.meta["close"], 0, g.choice([107, 32, 104, 9, 4]), 1, 48)
        return sc

    def shape(sc, r):
        return ([r.ret(k) for k in range(len(sc.ops))], r.received(), r.printed(), r.sig, r.code, r.stuck, sorted(names(r)),
                [(t[0], t[3]) for t in r.tr if t[2] in (1, 20) and t[3] in (0, 1, 2)])    # what is written to sudo's own descriptors

    def norm(x, d):
        return repr(x).replace(d, "D")

    def judge_records(case, sc, r):
        v = view(sc)
        rec = records(r)
        txt = lambda b: re.sub(rb", (args|command|user|group|socket_path): .*$", b"", b.split(b"]: ", 1)[-1], flags=re.S)
        said = [(op, w) for op, pri, b in rec for w, x in WORDS.items() if re.search(x, txt(b))]
        words = [w for _, w in said]
        for op, pri, b in rec:
            expect(pri is not None and pri >> 3 in (4, 10), lambda: "a record is sent with priority %r: %r" % (pri, b[:80]), "facility")
        dec = [(op, pri, b) for op, pri, b in rec if any(re.search(x, txt(b)) for x in WORDS.values())]
        cmd = v.cmd["command"].decode("utf-8", "replace").encode()
        argv = [a.encode() if isinstance(a, str) else a for a in sc.envs[0].argv][1:]
        plain = all(32 <= c < 127 and c not in b"\"'\\" for a in argv for c in a)     # not ones that have to be escaped
        args = b"args: [" + b", ".join(b'"' + a + b'"' for a in argv) + b"]"
        for op, pri, b in dec:
            for need in (b"plugin_name: sudo_pair", b" uid: %d" % v.user["uid"], b"runas_euid: %d" % v.cmd["runas_euid"], b"runas_egid: %d" % v.cmd["runas_egid"]):
                expect(re.search(re.escape(need) + rb"(?![0-9a-z])", b), lambda: "the record %r doesn't say %r" % (b, need), "record lacks " + need.split(b":")[0].decode())
            expect(b"command: " + cmd in b, lambda: "the record %r doesn't name the command %r" % (b, cmd), "record lacks command")
            if plain:
                expect(args in b, lambda: "the record %r doesn't give the arguments %r" % (b, args), "record lacks arguments")
        d, k = v.decision, case["kind"]
        o = r.ret(0)
        expect(("exempt" in words) == (d == "exempt"), "records of a session (%s) say %r" % (d, words), "exempt record")
        expect(("required" in words) == (d in ("pair", "both")), "records of a session (%s) say %r" % (d, words), "required record")
        expect(("both" in words) == (d == "both"), "records of a session (%s) say %r" % (d, words), "both record")
        ok = d == "pair" and o == 1
        expect(words.count("approved") == (1 if ok else 0), "records of a session (%s, open returned %r) say %r" % (k, o, words), "approved record")
        expect(("declined" in words) == (d == "pair" and k in ("declined", "declined-eof")), "records of a session (%s) say %r" % (k, words), "declined record")
        expect(words.count("ended") == (1 if ok else 0), "records of a session (%s, open returned %r) say %r" % (k, o, words), "ended record")
        for op, w in said:
            expect(op == (sc.meta["close"] if w == "ended" else 0), "the record %r comes at the wrong moment (callback %d)" % (w, op), "record time " + w)
        if ok:
            expect(words.index("required") < words.index("approved"), "approved before required", "record order")
        return words

    other = {}
    tl = threading.local()
    subs = []

    def nosim():
        if not hasattr(tl, "s"):
            tl.s = sim.Sim(build.sim(), nolog)
            subs.append(tl.s)
        return tl.s

    def one(s, case):
        if sum(v[2] for v in ctx.viol.values()) >= 40:
            return
        g = random.Random(case["seed"] ^ 5)

        def go(mode, sim_=s, inj=(), twice=True):
            d = ctx.scratch.new()
            try:
                sc = mk(case, d, mode)
                if inj:
                    sc.opt(*inj)
                r = sim_.run(sc)
                if r.inconclusive:
                    raise Inconclusive("watchdog")
                return sc, r, norm(shape(sc, r), d)
            finally:
                ctx.scratch.done(d)
        sc = r = None
        try:
            sc, r, ref = go(1)
            died(r, "a session with a log")
            words = judge_records(case, sc, r)
            for w in set(words):
                ctx.count("record: " + w)
            ctx.saw([case["kind"], 1, view(sc).cmd["command"], words], {"kind": case["kind"], "records": [b.split(b"]: ")[-1][:160] for _, _, b in records(r)][:4]})
            modes = [("absent", None, s, ()), ("refusing", 2, s, ()), ("vanishing", 3, s, ())] + ([("no logging built in", None, nosim(), ())] if nolog else [])
            e = g.choice([1, 11, 12, 13, 22, 24, 32, 90, 105, 107, 111])
            for k in (1, 2, 3):
                modes.append((("unreachable", "failing", "flaky")[k - 1], 1, s, ("logfail", k, e)))
            for name, mode, ss, inj in modes:
                sc2, r2, got = go(mode, ss, inj)
                ctx.count("log " + name)
                ctx.saw([case["kind"], name, view(sc).cmd["command"]])
                died(r2, "a session (log %s)" % name)
                if got != ref:
                    sc, r = sc2, r2
                    raise Violation("with the log %s, a session (%s) differs: %s, not %s" % (name, case["kind"], got[:300], ref[:300]), "log %s changes the session" % name)
        except Violation as v:
            ctx.violate(v.what, {"case": case, "scenario": sc.text() if sc else "", "plugin": "-", "history": brief(r) if r else None}, v.sig)
        except (Inconclusive, sim.SimDied) as e:
            ctx.incon(str(e))
    sim.Pool(build.sim(), so, ctx.jobs).map(one, cases)
    for x in subs:
        x.stop()


# ------------------------------------------------------------------ C30
@check("C30", "A cycle of different rounds (open, callbacks, close, with various outcomes) repeated many times in one process, with or without a system log. Non-trivial: distinct cycle, every repetition is one evaluation.",
       TRACE + "oracle: descriptors, heap in use, directory, signal and mask state and each round's own history equal those of the first repetition",
       "Up to about 120 repetitions (thousands in the thorough tier are split over several processes); heap is measured with mallinfo2 between callbacks.")
def c30(ctx):
    rng = ctx.rng
    cases = [dict(seed=rng.randrange(1 << 48), reps=rng.choice([8, 15, 30])) for _ in range(ctx.n(500, 8000))]
    cases += [dict(seed=rng.randrange(1 << 48), reps=120) for _ in range(ctx.n(8, 200))]

    def mk(case, d):
        g = rcase(case)
        rounds = []
        sc = sim.Scenario()
        period = g.randrange(1, 6) if case["reps"] < 100 else g.randrange(1, 3)
        while case["reps"] * period * 3 > 1000:
            period -= 1
        sock = None
        for p in range(period):
            kind = g.choice(["y", "y", "n", "hangup", "int", "exempt", "both", "bad", "version", "nodir"])
            i = gen.exempt(g, d) if kind == "exempt" else gen.paired(g, d)
            if kind != "exempt" and model.View(i.env()).decision != "pair":
                i = Inv(d)
            i.user.update(uid=1882, pid=4711)
            if kind != "exempt":
                i.user.update(gid=1882, egid=1882, groups="1882", euid=0)
                i.cmd.update(runas_uid=0, runas_gid=0, runas_groups="0")
                i.settings.pop("runas_group", None)
                i.opt.pop("gids_exempted", None)
            if kind == "both": i.settings["runas_group"] = "g"
            if kind == "version": i.cmd["command"] = None
            if kind == "nodir": i.opt["socket_dir"] = d + "/none"
            if kind != "bad" and g.random() < .5:
                i.user["tty"] = "%s/tty%d" % (d, p)
                open(i.user["tty"], "w").close()
            for n in ("user", "pair"):
                if g.random() < .5:
                    i.opt[n + "_prompt_path"] = "%s/%s%d.tpl" % (d, n, p)
                    open(i.opt[n + "_prompt_path"], "w").write("%%u of round %d\n" % p)
            if g.random() < .5:
                gen.vary(g, i)
            e = i.env()
            if kind == "bad":
                e.user_info = [x for x in e.user_info if not x.startswith(b"host=")]
            dec = model.View(e).decision
            if kind == "exempt" and dec != "exempt":
                kind = "version" if dec == "version" else "skip"
            if kind == "skip":
                i = Inv(d); e = i.env(); kind = "y"
            logs = []
            for _ in range(g.randrange(0, 4)):
                logs.append((g.choice(["ttyout", "stdout", "stderr", "stdin", "winsize", "ver"]), gen.rbytes(g, g.choice([0, 5, 5000]))))
            rounds.append((kind, sc.env(e), logs, g.random() < .9))
        sc.meta["ops"] = []
        for rep in range(case["reps"]):
            here = []
            for kind, e, logs, cl in rounds:
                k = len(sc.ops)
                here.append(sc.open(e))
                for ty, data in logs:
                    here.append(sc.winsize(24, 80) if ty == "winsize" else sc.ver(0) if ty == "ver" else sc.log(ty, data))
                if cl or True:
                    here.append(sc.close(0, 0))
                if kind in ("y", "n", "hangup", "int"):
                    sc.step("op:%d" % k, "recv")
                    # one connection per round: the step list is consumed in order
                    if kind == "int":
                        sc.step("block", "sig 2")
                    else:
                        sc.step("block", "connect")
                        sc.step("idle" if kind == "hangup" else "block", {"y": "send 79", "n": "send 6e", "hangup": "close"}[kind])
            sc.meta["ops"].append(here)
        sc.opt("watch", d + "/s").opt("sock", d + "/s/1882.4711.sock").opt("cwd", d).opt("seed", 3)
        if g.random() < .5:
            sc.opt("syslog", 1)
        sc.meta["kinds"] = [r[0] for r in rounds]
        return sc

    def judge(case, sc, r):
        expect(not r.stuck, lambda: "round %s never finishes (%s)" % (r.ev[-1], sc.meta["kinds"]), "a later round blocks")
        died(r)
        reps = sc.meta["ops"]
        idx = {}
        for e in r.ev:
            if e["e"] in ("recv", "printf", "eof", "rderr", "connect", "connect_fail", "ret", "state", "fds", "hangup"):
                idx.setdefault(e.get("op"), []).append(e)
        snaps = {}
        for sn in r.snaps:
            snaps.setdefault(sn["op"], []).append([x[:5] for x in sn["ls"]])

        def ops_shape(k):
            out = []
            for e in idx.get(k, ()):
                x = e["e"]
                if x == "ret": out.append(("ret", e["ret"]))
                elif x == "printf": out.append((x, e["level"], e["d"]))
                elif x == "state": out.append((x, e["sigint"], e["flags"], e["samask"], e["blocked"], e["umask"], e["euid"], e["egid"], e["cwd"], e["sigs"], e["ids"], e["env"], e["tasks"], e["timer"], e["limits"], e["proc"], e["root"]))
                elif x == "fds": out.append((x, repr(e["fds"])))
                elif x != "recv": out.append((x,))
            out.append(b"".join(bytes.fromhex(e["d"]) for e in idx.get(k, ()) if e["e"] == "recv"))
            out.append(snaps.get(k))
            return out
        first = None
        heaps = []
        for n, ops in enumerate(reps):
            sh = [ops_shape(k) for k in ops]
            st = [e for e in idx.get(ops[-1], ()) if e["e"] == "state"]
            heaps.append(st[-1]["heap"] if st else None)
            if first is None:
                first = sh
            else:
                for j, (a, b) in enumerate(zip(first, sh)):
                    expect(a == b, lambda: "callback %d (%s) of repetition %d differs from the first: %s, not %s" % (j, sc.ops[ops[j]][:30], n, str(b)[:300], str(a)[:300]), "repetition differs")
        expect(all(h == heaps[2] for h in heaps[2:]), lambda: "heap in use grows over repetitions of %s: %r" % (sc.meta["kinds"], heaps[:6] + heaps[-3:]), "heap grows")
        ctx.count("rounds", len(reps) * len(sc.meta["kinds"]))
        for k in sc.meta["kinds"]:
            ctx.count("kind " + k)
        ctx.saw([sc.meta["kinds"], [o[:40] for o in sc.ops[:40]], sc.opts[-1]], {"cycle": sc.meta["kinds"], "repetitions": len(reps), "heap": heaps[-1], "descriptors": len(r.fds(reps[-1][-1]) or [])})
    ctx.run_cases(build.plugin(), cases, mk, judge, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})


# ------------------------------------------------------------------ C29
@check("C29", "A random order of open, check, version and close calls on the example plugin with boundary and random API versions, with and without an output function. Non-trivial: distinct sequence containing a check.",
       "runtime monitor: C driver over the built example plugin (forked per sequence), trace specification per call",
       "A check without an error-string pointer is only made with API versions below 1.17, as sudo has none then.")
def c29(ctx):
    rng = ctx.rng
    drv, so = build.c_program("approval"), build.example()
    p = subprocess.Popen([drv, so, "deny_everything"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    hello = json.loads(p.stdout.readline())
    ctx.saw("table", {"table": hello})
    if hello["type"] != 4 or not (hello["open"] and hello["check"] and hello["show_version"]) or hello["version"] >> 16 != 1:
        ctx.violate("the example's table is %r" % hello, hello, "table")
    V = [0, 1, 0x10000, 0x10009, 0x1000e, 0x10010, 0x10011, 0x10012, 0x100ff, 0x10100, 0x20000, 0x110001, 0x20010, 0xffff, 0x0011, 0xffffffff, 0x80000000]

    def seq(g):
        ops, ver = [], None
        for _ in range(g.randrange(1, 9)):
            k = g.choice("ooccccvvx")
            if k == "o":
                ver = g.choice(V + [g.randrange(1 << 32), g.randrange(0x10000, 0x10020)])
                ops.append(("o", ver, g.choice([0, 0, 0, 1, 2]), g.choice([0, 1])))
            elif k == "c":
                e = g.choice([1, 1, 2]) if ver is not None and ver >= 0x10011 else g.choice([0, 1, 2])
                cmd = [b"command=" + g.choice([b"/bin/ls", b"", b"\xff", b"%s%n"])] * g.randrange(0, 3) + [gen.rbytes(g, g.randrange(1, 9)).replace(b"\0", b"x").replace(b";", b":")] * g.randrange(0, 2)
                ops.append(("c", e, cmd))
            elif k == "v":
                ops.append(("v", g.choice([0, 1, -1])))
            else:
                ops.append(("x",))
        return ops

    def txt(ops):
        out = []
        for o in ops:
            out.append("c %d %s" % (o[1], " ".join(c.hex() for c in o[2])) if o[0] == "c" else " ".join(map(str, o)))
        return ";".join(out)

    def judge(ops, r):
        expect(r["sig"] == 0 and r["code"] == 0, "the example plugin crashes (signal %d, exit %d)" % (r["sig"], r["code"]), "crash")
        ver, pm = None, 1
        for k, o in enumerate(ops):
            evs = [e for e in r["ev"] if e.get("op") == k]
            ret = [e for e in evs if "ret" in e][0]
            out = [(e["printf"], bytes.fromhex(e["d"])) for e in evs if "printf" in e]
            expect(not [e for e in evs if "conv" in e], "the example asks questions", "conversation")
            if o[0] == "o":
                ver, pm = o[1], o[2]
                expect(ret["ret"] == 1 and ret["errstr"] == 0, "open returns %r" % ret, "open")
                expect(out == [], "open prints %r" % out, "open prints")
            elif o[0] == "c":
                expect(ret["ret"] == 0, "check returns %r (API %r)" % (ret["ret"], ver), "check accepts")
                if ver is None or pm == 1:
                    expect(out == [], "prints without an output function", "prints")
                else:
                    expect([l for l, _ in out] == [4] and b"denied" in out[0][1] and out[0][1].endswith(b"\n"), lambda: "the denial is printed as %r" % out, "denial text")
                if ver is None or ver < 0x10011:
                    expect(ret["errstr"] == 0, "errstr is set with API version %r" % ver, "errstr set")
                elif pm != 1:
                    expect(ret["errstr"] not in (0, 1), "errstr isn't set with API version %#x" % ver, "errstr unset")
                ctx.count("checks refused")
            elif o[0] == "v":
                if ver is None or pm == 1:
                    expect(out == [], "prints without an output function", "prints")
                else:
                    expect([l for l, _ in out] == [4] and b"1.0" in out[0][1], lambda: "the version is printed as %r" % out, "version text")
                    expect(ret["ret"] == 1 or pm == 2, "show_version returns %r" % ret["ret"], "show_version")
                ctx.count("versions")
    for k in range(ctx.n(12000, 300000)):
        ops = seq(rng)
        p.stdin.write((txt(ops) + "\n").encode()); p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            ctx.incon("driver died")
            break
        r = json.loads(line)
        ctx.saw(txt(ops), {"sequence": txt(ops), "events": r["ev"][:6]} if len(ops) > 2 else None, nontrivial=any(o[0] == "c" for o in ops))
        try:
            judge(ops, r)
        except Violation as v:
            ctx.violate(v.what, {"sequence": txt(ops), "result": r}, v.sig)
            if len(ctx.viol) > 6:
                break
    p.stdin.close()
    p.wait()


# ------------------------------------------------------------------ C25
STANDIN = {
    "socat": "exit ${SP_SOCAT:-0}\n",
    "sudo": "exit ${SP_SUDO:-0}\n",
    "stty": "[ \"$1\" = -g ] && echo saved\nexit 0\n",
    "clear": "exit 0\n",
}
GETENT = """#!/bin/bash
case "$1" in passwd) t="$SP_USERS" ;; group) t="$SP_GROUPS" ;; *) exit 1 ;; esac
for x in $t; do
    if [ "${x%%:*}" = "$2" ] || [ "${x#*:}" = "$2" ]; then
        if [ "$1" = passwd ]; then echo "${x#*:}:x:${x%%:*}:${x%%:*}::/:/bin/sh"; else echo "${x#*:}:x:${x%%:*}:"; fi
        exit 0
    fi
done
exit 2
"""


def valid_id(s):
    return re.fullmatch(r"0|[1-9][0-9]{0,9}", s) is not None


def approval(ctx, standin=STANDIN):
    """The shipped script under stand-ins, and the model of one run of it."""
    pre = build.c_program("redirect", shared=True)
    base_ = ctx.scratch.new()
    os.chmod(base_, 0o755)
    shutil.copy(pre, base_ + "/redirect.so"); os.chmod(base_ + "/redirect.so", 0o755)
    shutil.copy(os.path.join(build.REPO, "sample/bin/sudo_approve"), base_ + "/sudo_approve"); os.chmod(base_ + "/sudo_approve", 0o755)
    os.mkdir(base_ + "/bin"); os.chmod(base_ + "/bin", 0o755)
    for n, body in standin.items():
        with open(base_ + "/bin/" + n, "w") as f:
            f.write("#!/bin/bash\n{ printf '%s\\0' " + n + " \"$@\"; printf '\\1'; } >>\"$SP_LOG\"\n" + body)
        os.chmod(base_ + "/bin/" + n, 0o755)
    with open(base_ + "/bin/getent", "w") as f:
        f.write(GETENT)
    os.chmod(base_ + "/bin/getent", 0o755)
    script = base_ + "/sudo_approve"
    USERS = {0: "root", 1: "daemon", 2: "bin", 7: "u7", 1882: "alice", 1001: "bob", 65534: "nobody"}
    GROUPS = {0: "root", 1: "daemon", 7: "g7", 500: "ops", 1882: "alice", 65534: "nogroup"}

    def execute(d, ruid, rgid, groups, args, sudo_uid, g, extra, timeout=60):
        log = d + "/log"
        open(log, "wb").close(); os.chmod(log, 0o666)
        env = {"PATH": base_ + "/bin:/usr/bin:/bin", "SP_LOG": log, "SP_REAL": d + "/sock", "LD_PRELOAD": base_ + "/redirect.so", "LC_ALL": "C", "TERM": "dumb",
               "SP_USERS": " ".join("%d:%s" % x for x in USERS.items()), "SP_GROUPS": " ".join("%d:%s" % x for x in GROUPS.items())}
        if sudo_uid is not None:
            env["SUDO_UID"] = sudo_uid
        env.update(extra)
        try:
            p = subprocess.run([script] + args, env=env, cwd=d, user=ruid, group=rgid, extra_groups=groups, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("script timeout")
        calls = [c.decode("utf-8", "surrogateescape").split("\0")[:-1] for c in open(log, "rb").read().split(b"\1")[:-1]]
        return p.returncode, [c for c in calls if c[0] == "socat"], [c for c in calls if c[0] == "sudo"], p

    def parse_sudo(c):
        """-> (user, group, rest)"""
        a, u, gr = c[1:], None, None
        while a and a[0].startswith("-"):
            o = a.pop(0)
            if o == "--": break
            if o in ("-u", "--user"): u = a.pop(0) if a else None
            elif o in ("-g", "--group"): gr = a.pop(0) if a else None
            elif o.startswith("--user="): u = o[7:]
            elif o.startswith("--group="): gr = o[8:]
            elif o.startswith("-u"): u = o[2:]
            elif o.startswith("-g"): gr = o[2:]
            else: raise Violation("sudo is run with %r" % c, "sudo options")
        return u, gr, a

    def verdict(st, run, out):
        """one run of the script against the model; returns the (uid, gid) it should go on as"""
        rc, socat, sudo, p = out
        args, su = run["args"], run["sudo_uid"]
        nothing = lambda why: expect(rc != 0 and not socat and not sudo, lambda: "%s: exit %d, %r" % (why, rc, socat + sudo), why)
        if len(args) != 2 or not all(map(valid_id, args)):
            return nothing("arguments that aren't a uid and a pid are acted on")
        if su not in (None, "") and not valid_id(su):
            return nothing("a SUDO_UID that isn't a uid is acted on")
        human = int(su) if su else run["uid"]
        name = "%s.%s.sock" % tuple(args)
        if st is None or st["name"] != name:
            return nothing("there is no such socket")
        if human == int(args[0]):
            return nothing("users may approve themselves")
        m = st["mode"]
        w = run["uid"] == 0 or (m & 0o200 if run["uid"] == st["uid"] else m & 0o020 if st["gid"] in [run["gid"]] + run["groups"] else m & 0o002)
        expect(len(socat) + len(sudo) <= 1, lambda: "more than one thing is run: %r" % (socat + sudo), "more than one")
        known = st["uid"] in USERS and st["gid"] in GROUPS
        if w:
            expect(not sudo, "sudo is run though the socket is writable", "sudo though writable")
            if not known:
                return
            expect(len(socat) == 1, lambda: "a writable socket isn't connected to (exit %d, %r)" % (rc, p.stderr[-200:]), "not connected")
            addr = [a for a in socat[0][1:] if re.match(r"(?i)unix(-connect|-client)?:", a)]
            expect(len(addr) == 1 and addr[0].split(":", 1)[1] == "/var/run/sudo_pair/" + name, lambda: "socat is run with %r, the socket is %s" % (socat[0], name), "wrong socket")
            expect(len(socat[0]) == 3, lambda: "socat is run with %r" % socat[0], "socat arguments")
            ctx.count("connects")
            return
        expect(not socat, lambda: "socat is run with %r though the socket isn't writable" % socat, "connects though not writable")
        if not known and not sudo:
            expect(rc != 0, "success though nothing was done", "silent success")
            return
        if not (m & 0o220):
            return nothing("nobody can write to the socket")
        expect(len(sudo) == 1, lambda: "the script doesn't run itself through sudo (exit %d, %r)" % (rc, p.stderr[-200:]), "no sudo")
        u, gr, rest = parse_sudo(sudo[0])
        expect(rest == [script] + args, lambda: "sudo runs %r" % rest, "sudo runs something else")
        if m & 0o200:
            expect(gr is None and u in (USERS.get(st["uid"]), "#%d" % st["uid"]), lambda: "sudo as %r:%r for a socket of uid %d" % (u, gr, st["uid"]), "wrong user")
            ctx.count("re-run as user")
            return (st["uid"], run["gid"], [])
        expect(u is None and gr in (GROUPS.get(st["gid"]), "#%d" % st["gid"]), lambda: "sudo as %r:%r for a socket of gid %d" % (u, gr, st["gid"]), "wrong group")
        ctx.count("re-run as group")
        return (run["uid"], st["gid"], run["groups"])

    from types import SimpleNamespace
    return SimpleNamespace(base=base_, script=script, execute=execute, verdict=verdict, USERS=USERS, GROUPS=GROUPS)


@check("C25", "One run of the shipped script as some user, directly or as if under sudo, with valid or hostile arguments and SUDO_UID, and a socket of some owner, group and mode; where it asks sudo to run itself again, that second run is made too. Non-trivial: distinct (identity, arguments, socket state).",
       "runtime monitor: the real bash script under recording stand-ins for socat, sudo, stty, clear and getent, with its socket directory redirected to scratch by a preloaded library; decision model",
       "getent, sudo and socat are stand-ins; only one redirection level of sudo is simulated.")
def c25(ctx):
    rng = ctx.rng
    A = approval(ctx)
    execute, verdict = A.execute, A.verdict
    lock = threading.Lock()

    def hostile(g, canary):
        return g.choice(["a[$(touch %s)]" % canary, "$(touch %s)" % canary, "`touch %s`" % canary, "x;touch %s" % canary, "1882;touch %s" % canary, "../../etc", "1882/../1882", "-1", "+5", "0x10", "1882 ", " 1882",
                         "", "1e3", "01882", "10#1882", "1882+0", "uid", "socket", "$SUDO_UID", "*", "-u", "--help", "1882\n", "\n1882", "18446744073709553498", "4294967296000", "\u0661", "a", "pid", "1882,u", "2>&1", "1||1", "UID", "EUID", "RANDOM",
                         "'", '"', "a[`touch %s`]" % canary, "BASHPID", "SUDO_UID"])

    cases = [dict(seed=rng.randrange(1 << 48)) for _ in range(ctx.n(5000, 30000))]

    def one(case):
        if len(ctx.viol) > 10:
            return
        g = rcase(case)
        d = ctx.scratch.new()
        canary = d + "/sock/canary"
        os.rename(d + "/s", d + "/sock")
        os.chmod(d, 0o777)
        os.mkdir(d + "/c"); os.chmod(d + "/c", 0o777)
        canary = d + "/c/canary"
        runs = []
        try:
            suid, pid = g.choice([1882, 1001, 1, 0, 42, 188, 4294967294]), g.choice([4711, 1, 2147483647, 47])
            st = None
            if g.random() < .92:
                st = dict(name="%d.%d.sock" % (suid, pid), uid=g.choice([0, 0, 7, 1, 65534, 1882, 1001, 9999]), gid=g.choice([0, 7, 500, 1, 9998]), mode=g.choice([0o200, 0o200, 0o020, 0o020, 0o220, 0, 0o002, 0o777, 0o600, 0o070, 0o640]))
                import socket as so_
                s = so_.socket(so_.AF_UNIX); s.bind(d + "/sock/" + st["name"])
                os.chmod(d + "/sock/" + st["name"], st["mode"]); os.chown(d + "/sock/" + st["name"], st["uid"], st["gid"])
                s.close()
            uid = g.choice([1882, 1001, 1, 7, 65534, suid if suid < 4294967294 else 1001, 0])
            run = dict(uid=uid, gid=g.choice([1882, 7, 500, 1001]), groups=g.choice([[], [], [7], [500]]), args=[str(suid), str(pid)], sudo_uid=None)
            x = g.random()
            if x < .45:        # under sudo
                run["sudo_uid"] = g.choice([str(suid), "1882", "1001", "1", "0", "7", ""])
                run["uid"] = g.choice([0, 0, st["uid"] if st else 7, 7])
            if g.random() < .22:
                run["args"] = [hostile(g, canary) if g.random() < .6 else a for a in run["args"]]
            if g.random() < .1:
                run["sudo_uid"] = hostile(g, canary)
            if g.random() < .06:
                run["args"] = g.choice([[], [str(suid)], run["args"] + ["x"], run["args"] * 2, ["--"] + run["args"], [str(suid), str(pid + 1 if pid < 2147483647 else 1)], [str(suid) + "." + str(pid), ""]])
            extra = {"socket": "/etc/passwd", "uid": "5", "ruid": "5"} if g.random() < .2 else {}
            for k, vs in (("SUDO_SOCKET_PATH", ["/tmp", d + "/c", "$(touch %s)" % canary]), ("TRACE", ["1", "touch %s" % canary, "a[$(touch %s)]" % canary]), ("SUDO_GID", ["0", "1882", "a[$(touch %s)]" % canary]),
                          ("SUDO_USER", ["root", "alice", "$(touch %s)" % canary]), ("USER", ["root", "alice"]), ("LOGNAME", ["bob"]), ("socket_path", ["/tmp"]), ("socket_mode", ["777"]), ("socket_user", ["root"]),
                          ("pid", ["1", "a[$(touch %s)]" % canary]), ("IFS", ["0", "8", ".", "/"]), ("SUDO_COMMAND", ["touch %s" % canary]), ("CDPATH", [d + "/c"]), ("POSIXLY_CORRECT", ["1"]), ("GLOBIGNORE", ["*"])):
                if g.random() < .08:
                    extra[k] = g.choice(vs)
            human = int(run["sudo_uid"]) if run["sudo_uid"] and valid_id(run["sudo_uid"]) else run["uid"]
            out = execute(d, run["uid"], run["gid"], run["groups"], run["args"], run["sudo_uid"], g, extra)
            runs.append((run, [out[0], out[1], out[2], out[3].stdout[-300:], out[3].stderr[-300:]]))
            nxt = verdict(st, run, out)
            if nxt:
                # what sudo would do: the same script as the target, with the real human in SUDO_UID
                run2 = dict(uid=nxt[0], gid=nxt[1], groups=nxt[2], args=run["args"], sudo_uid=str(human))
                out2 = execute(d, *nxt, run["args"], str(human), g, {})
                runs.append((run2, [out2[0], out2[1], out2[2], out2[3].stdout[-300:], out2[3].stderr[-300:]]))
                n2 = verdict(st, run2, out2)
                expect(n2 is None or nxt[0] == st["uid"], "the script run through sudo asks for sudo again", "sudo again")
            expect(not os.path.exists(canary), lambda: "arguments %r, SUDO_UID %r: a command in them is executed" % (run["args"], run["sudo_uid"]), "injection")
            left = set(os.listdir(d + "/sock"))
            expect(left == ({st["name"]} if st else set()), "the script changes the socket directory", "directory")
            ctx.saw([run["uid"], run["gid"], run["groups"], run["args"], run["sudo_uid"], st], {"run": run, "socket": st, "socat": out[1], "sudo": out[2], "exit": out[0]})
        except Violation as v:
            ctx.violate(v.what, {"socket": st, "runs": runs}, v.sig)
        except Inconclusive as e:
            ctx.incon(str(e))
        finally:
            ctx.scratch.done(d)
    it = iter(cases)

    def work():
        while True:
            with lock:
                c = next(it, None)
            if c is None:
                return
            try:
                one(c)
            except BaseException as e:
                ctx.incon("harness: %r" % e)
                return
    ts = [threading.Thread(target=work) for _ in range(ctx.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
