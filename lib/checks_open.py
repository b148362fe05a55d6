"""Checks of what opening the plugin does: the approval, the socket, the process' state."""
import os, random, shutil, socket, stat
import build, gen, lits, model, sim
from common import *
from framework import Violation, Inconclusive, expect
from gen import Inv
from registry import check
from sim import hx

TRACE = "system-call-boundary runtime monitor (ptrace) over the real plugin, "


def rcase(case):
    return random.Random(case["seed"])


# ------------------------------------------------------------------ C01
@check("C01", "A session that requires pairing is opened in the real plugin while a scripted pair plays one combination of first byte, later bytes, action times and ending; non-trivial: a client connected.",
       TRACE + "oracle: grant iff the accepted client's first byte was y/Y",
       "All 256 answers are enumerated; peer timings are sampled at system-call boundaries. Trusts the kernel's FIFO accept order.")
def c01(ctx):
    rng = ctx.rng
    cases = []
    for b in range(256):
        cases.append(dict(seed=b, first=b, rest="", at="block", sat="idle", end=None, extra=[]))
        cases.append(dict(seed=b, first=b, rest=rng.choice(["0a", "79", "59", "6e0a", "00", "790a79"]), at=rng.choice(["block", "exists"]), sat=rng.choice(["block", "now"]), end=None, extra=[]))
    tails = ["", "0a", "79", "6e", "59", "00", "6e6e6e6e", "0d0a", "79" * 40]
    for k in range(ctx.n(5000, 40000)):
        first = rng.choice([0x79, 0x59, 0x79, 0x59, 0x6e, 0x4e, 0x0a, 0x0d, 0x20, 0, 0x58, 0x5a, 0x78, 0x7a, 0xf9, 0xd9, 0xff, rng.randrange(256), None, None])
        cases.append(dict(seed=1000 + k, first=first, rest=rng.choice(tails), late=rng.choice(tails), at=rng.choice(["block", "block", "exists", "idle"]),
                          sat=rng.choice(["block", "now", "idle", "idle", "at:0:%d" % rng.randrange(5, 70)]), end=rng.choice([None, None, None, "close", "shutwr", "shutrd", "rst"]),
                          eat=rng.choice(["now", "idle", "idle", "at:0:%d" % rng.randrange(5, 70)]),
                          extra=[[rng.choice(["exists", "block"]), rng.choice(["", "79", "6e", "59", "00"])] for _ in range(rng.choice([0, 0, 0, 1, 2]))],
                          extra_after=[rng.choice(["", "79", "59", "6e"]) for _ in range(rng.choice([0, 0, 1]))]))
    for k in range(ctx.n(6, 60)):    # nobody comes
        cases.append(dict(seed=k, first=None, rest="", at=None, sat="block", end=None, extra=[]))

    def mk(case, d):
        i = gen.paired(rcase(case), d)
        if model.View(i.env()).decision != "pair":
            i = Inv(d)
        sc = base(i, case["seed"] + 1)
        sc.opt("trace", 1)
        sc.open()
        sc.log("stdout", b"after")
        sc.close(0, 0)
        for tr, data in case["extra"]:
            sc.step(tr, "extra " + (data or "-"))
        if case["at"]:
            sc.step(case["at"], "connect")
            for data in case.get("extra_after", []):
                sc.step("block", "extra " + (data or "-"))
            if case["first"] is not None:
                if case["sat"] in ("block", "idle"):
                    sc.passes()
                sc.step(case["sat"], "send %02x%s" % (case["first"], case["rest"]))
            if case.get("late") and case["first"] is not None:
                sc.step("idle", "send " + case["late"])
            if case["end"]:
                sc.step(case.get("eat", "idle"), case["end"])
        return sc

    def judge(case, sc, r):
        v = view(sc)
        o = open_outcome(r)
        t_ret = min([e["t"] for e in r.of("end", 0)] + [1 << 60])
        clients = sorted([(e["t"], "pair") for e in r.of("connect")] + [(e["t"], "extra", k) for k, e in enumerate(r.of("extra"))])
        clients = [c for c in clients if c[0] < t_ret]
        ctx.count(o)
        ctx.count("clients", len(clients))
        key = [case["first"], case["at"], case["sat"], case["end"], case["rest"], case.get("late"), case["extra"], case.get("eat"), v.to_user]
        ctx.saw(key, {"case": case, "outcome": o, "received": r.received()} if case["end"] else None, nontrivial=bool(clients))
        if not clients:
            expect(o != "granted", "open grants a session although nobody connected")
            expect(o == "waiting" or v.sock_name.decode() not in names(r), "open gives up without a pair")
            return
        if clients[0][1] == "extra":
            ex = case["extra"][clients[0][2]][1] if clients[0][2] < len(case["extra"]) else ""
            said = bytes.fromhex(ex)
            intact = True
        else:
            said = b"".join(bytes.fromhex(e["d"])[:max(0, e["n"])] for e in r.of("send") if e["t"] < t_ret)
            ended = [e for k in ("hangup", "hangup_unread", "shutwr", "shutrd", "rderr") for e in r.of(k) if e["t"] < t_ret]
            intact = not ended
        yes = said[:1] in (b"y", b"Y")
        if o == "granted":
            expect(yes, "open grants the session although the pair's first byte was %r" % said[:1], "granted without y")
        if intact:
            if yes:
                expect(o == "granted", "open does not grant the session (%s) although the pair answered %r and stayed" % (o, said[:1]), "approval ignored")
            elif said:
                expect(o == "refused", "open is still waiting although the pair answered %r" % said[:1], "answer not read")
            else:
                expect(o == "waiting", "open returned although the connected pair said nothing", "answer not awaited")
            if said and clients[0][1] == "pair":
                expect(r.received(0) == pair_prompt(v) + said[:1] + b"\n", lambda: "the pair saw %r, not the prompt and its answer echoed" % r.received(0), "echo")
        elif o == "waiting":
            expect(not ended or all(e["e"] == "shutrd" for e in ended), "open keeps waiting for a pair that hung up", "waits after hang-up")
        if o == "refused" and intact:
            expect(r.printed(3, 0).endswith(message(model.MSG["declined"])), lambda: "the refusal printed %r" % r.printed(3, 0), "message")
        if o == "granted" and intact and not case["end"]:
            expect(r.ret(1) == 1, "output is refused after the grant", "later bytes changed the decision")
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C02
def overlapping(rng, d):
    """A configuration in which every exemption has a fair chance of holding or nearly holding."""
    i = Inv(d)
    U, G = [0, 1, 2, 1000, 1001], [0, 1, 7, 100, 1000]
    if rng.random() < .2:
        U[rng.randrange(1, 5)] = rng.choice(lits.IDS + [65534, 33])
    if rng.random() < .2:
        G[rng.randrange(1, 5)] = rng.choice(lits.IDS + [65534, 27])
    uid = rng.choice(U[1:] if rng.random() < 0.85 else U)
    i.user.update(uid=uid, gid=rng.choice(G), euid=rng.choice([0, 0, 0, 0, 0, 0, 0, uid, 2]), egid=rng.choice(G), groups=",".join(map(str, gen.grouplist(rng, 3, G))))
    ru = rng.choice([uid, uid] + U)
    rg = rng.choice([i.user["gid"], i.user["gid"]] + G)
    i.cmd.update(runas_uid=ru, runas_gid=rg, runas_groups=",".join(map(str, gen.grouplist(rng, 3, G))))
    if rng.random() < 0.35:
        i.cmd["runas_euid"] = rng.choice([uid] + U)
    if rng.random() < 0.35:
        i.cmd["runas_egid"] = rng.choice([i.user["gid"]] + G)
    for k in ("runas_uid", "runas_gid", "runas_groups", "runas_groups"):
        x = rng.random()
        if x < 0.08:
            i.cmd[k] = None
        elif x < 0.12:
            i.cmd[k] = rng.choice(["", "x", "-1", "1,,2", "4294967296", "0x0", "1 "])
    for k in ("iolog_ttyout", "iolog_stdout", "iolog_stderr"):
        i.cmd[k] = rng.choice([True, False, True, False, None, "1", "TRUE", "yes", ""])
    if rng.random() < 0.75:
        i.cmd["iolog_stdout"] = True
    i.cmd["iolog_stdin"], i.cmd["iolog_ttyin"] = rng.choice([True, False, None]), rng.choice([True, False, None])
    i.cmd["preserve_groups"] = rng.random() < 0.3
    cmds = ["/usr/bin/sudo_approve", "/bin/ls", "/usr/bin/sudo_approve2", "sudo_approve", "/usr/bin/sudo_approv", "/bin/sudo_approve", "/usr/bin", "/USR/BIN/sudo_approve"]
    cmds.append(rng.choice([s for s in lits.NOSTR if s.startswith("/")] or ["/"]))
    i.cmd["command"] = rng.choice(cmds + ["/bin/ls"] * 12)
    if rng.random() < 0.25:
        i.opt["binary_path"] = rng.choice(cmds)
    if rng.random() < 0.06:           # the same file by another name, or a name that only looks the same
        os.makedirs(d + "/b")
        open(d + "/b/approve", "w").close()
        os.symlink("approve", d + "/b/link")
        os.link(d + "/b/approve", d + "/b/hard")
        pool = [d + "/b/approve", d + "/b/link", d + "/b/hard", d + "/b/../b/approve"]
        i.opt["binary_path"], i.cmd["command"] = rng.choice(pool), rng.choice(pool)
    elif rng.random() < 0.02:
        i.opt["binary_path"], i.cmd["command"] = "/opt/a\ufffd", rng.choice([b"/opt/a\xff", "/opt/a\ufffd", "/opt/a"])
    i.argv = [i.cmd["command"], "-x"] if rng.random() < 0.8 else ["/usr/bin/sudo_approve"]
    i.argv = [a.encode() if isinstance(a, str) else a for a in i.argv]
    if rng.random() < 0.6:
        i.opt["gids_enforced"] = rng.choice([",".join(map(str, gen.grouplist(rng, 5, G))) for _ in range(3)] + ["", "0,", "x", "7", "4294967295", "0,7", " 0"])
    if rng.random() < 0.5:
        i.opt["gids_exempted"] = rng.choice([",".join(map(str, gen.grouplist(rng, 2, G))), "", "x", "1000", "77", "4294967295"])
    if rng.random() < 0.4:
        i.settings["runas_group"] = rng.choice(["wheel", "", "#7", b"\xff", "#0", "#-1", "root", rng.choice(lits.WORDS)])
        if rng.random() < 0.6:
            i.cmd["runas_euid"] = uid
    if rng.random() < 0.3:
        i.settings["runas_user"] = rng.choice(["root", "", "#0", "#-1", i.user["user"], rng.choice(lits.WORDS)])
    if rng.random() < .15:            # ids that are the same in fewer bits
        off = rng.choice([65536, 32768, 1 << 31, 1 << 24, 256])
        near = lambda x: str((int(x) + off) % (1 << 32))
        m, k = rng.choice([(i.user, "uid"), (i.user, "euid"), (i.user, "gid"), (i.cmd, "runas_uid"), (i.cmd, "runas_gid"), (i.cmd, "runas_euid"), (i.cmd, "runas_egid"),
                           (i.user, "groups"), (i.cmd, "runas_groups"), (i.opt, "gids_enforced"), (i.opt, "gids_exempted")])
        l = str(m.get(k, "")).split(",")
        j = rng.randrange(len(l))
        if l[j].isdigit():
            l[j] = near(l[j])
            m[k] = ",".join(l)
    if rng.random() < .1:             # members of many groups
        for m, k in ((i.user, "groups"), (i.cmd, "runas_groups"), (i.opt, "gids_enforced"), (i.opt, "gids_exempted")):
            if m.get(k) and rng.random() < .6:
                many = [str(20000 + x) for x in range(rng.choice([7, 15, 16, 31, 32, 63, 64, 200, 1000]))]
                m[k] = ",".join(many + [m[k]] if rng.random() < .6 else [m[k]] + many)
    return i


@check("C02", "A random invocation and plugin configuration built so that each exemption often holds or almost holds; the pair answers y or n. Non-trivial: distinct truth assignment of all six exemptions plus decision inputs.",
       TRACE + "oracle: an independent executable model of the documented exemption rule",
       "Configurations are sampled from small overlapping id pools; both release and debug-assertion builds would agree because only conforming vectors are used.")
def c02(ctx):
    rng = ctx.rng
    cases = [dict(seed=rng.randrange(1 << 48), yes=rng.random() < 0.6) for _ in range(ctx.n(12000, 300000))]

    def mk(case, d):
        i = overlapping(rcase(case), d)
        sc = base(i, case["seed"] % 1000)
        sc.open()
        sc.log("stdin", b"typed")
        sc.log("ttyout", b"shown")
        sc.winsize(3, 4)
        sc.close(0, 0)
        sc.pair(b"y" if case["yes"] else b"n")
        return sc

    def judge(case, sc, r):
        v = view(sc)
        d = v.decision
        o = open_outcome(r)
        sock = v.bad is None and v.sock_name.decode() in names(r)
        ctx.count(d)
        if not v.bad:
            for e in v.exemptions:
                ctx.count("exempt-" + e)
            ctx.count("exemptions=%d" % len(v.exemptions))
        u, c = (v.user, v.cmd) if not v.bad else ({}, {})
        ctx.saw([d, v.bad or v.exemptions, v.bad or (v.to_user, v.to_group, v.explicit_group, u["uid"], u["gid"], u["euid"], sorted(u["groups"]), c["runas_euid"], c["runas_egid"], sorted(v.gids), sorted(v.opt["gids_enforced"]), sorted(v.opt["gids_exempted"]), c["command"] == v.opt["binary_path"], c["iolog_ttyout"], c["iolog_stdout"], c["iolog_stderr"]), case["yes"]],
                {"decision": d, "exemptions": None if v.bad else v.exemptions, "outcome": o})
        prompt = r.printed(4) + r.printed(3)
        if d == "bad":
            expect(o == "refused" and not sock, "open does not refuse unusable arguments (%s)" % v.bad, "bad arguments accepted")
        elif d == "exempt":
            expect(o == "granted", "an exempt session (%s) is not granted but %s" % (",".join(v.exemptions), o), "exempt session not granted")
            expect(not sock and dir_events(r) == 0, "an exempt session touches the socket directory", "exempt session creates a socket")
            expect(prompt == b"", "an exempt session prints %r" % prompt, "exempt session prints")
            expect(not r.of("connect"), "a pair could connect to an exempt session")
            expect([r.ret(k) for k in (1, 2, 3)] == [1, 1, 1], lambda: "an exempt session's callbacks return %r" % [r.ret(k) for k in (1, 2, 3)], "exempt session refuses data")
        elif d == "both":
            expect(o == "refused", "-u with -g is not refused", "both")
        elif d == "refuse":
            expect(o != "granted", "granted although nobody could have approved", "unapprovable session granted")
        else:
            expect(sock, "a session which requires pairing made no socket", "pairing not demanded")
            expect(o == ("granted" if case["yes"] else "refused"), "pair answered %s, open %s" % ("y" if case["yes"] else "n", o), "pairing outcome")
            if o == "granted":
                expect(r.ret(1) not in (1, None), "redirected stdin is accepted in a paired session", "stdin accepted in paired session")
                expect(r.received(2) == b"shown" and r.ret(2) == 1, "output isn't mirrored to the pair", "not mirrored")
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C03
@check("C03", "Invocations with a changed target user and an explicit group in many spellings (and near misses: no group, same user, exempt). Non-trivial: distinct (spelling, identities, exemption) with -g present.",
       TRACE + "oracle: refusal, exact message, no prompt and no event in the socket directory",
       "Spellings of -u/-g are sampled byte strings; orders of the settings vector are shuffled.")
def c03(ctx):
    rng = ctx.rng
    cases = [dict(seed=rng.randrange(1 << 48)) for _ in range(ctx.n(8000, 50000))]

    def mk(case, d):
        g = rcase(case)
        i = gen.paired(g, d)
        uid, gid = i.user["uid"], i.user["gid"]
        same_user = g.random() < 0.2
        i.cmd.update(runas_uid=uid if same_user else g.choice([x for x in (0, 7, 1001) if x != uid]))
        rg = g.choice([0, 7, gid, 500])
        i.cmd.update(runas_gid=rg, runas_egid=g.choice([None, rg, gid]), runas_groups=",".join(map(str, [0] + gen.grouplist(g, 2))))
        if g.random() < 0.2:
            i.cmd["runas_euid"] = g.choice([uid, 0, 7])
        i.settings.pop("runas_group", None), i.settings.pop("runas_user", None)
        if g.random() < 0.85:
            i.settings["runas_group"] = g.choice([b"wheel", b"", b"\xff\xfe", b"caf\xe9", b"#0", "gr\u00fcn".encode(), b"a b", b"x=y", b"=", b"runas_group", b"%s%n", bytes([g.randrange(1, 256) for _ in range(g.randrange(1, 9))])])
        if g.random() < 0.7:
            i.settings["runas_user"] = g.choice([b"root", b"", b"\xff\xfe", b"#7", b"a=b"])
        if g.random() < 0.1:
            i.opt["gids_enforced"] = "31337"
        tty = g.random() < 0.3
        if tty:
            i.user["tty"] = d + "/tty"
            open(d + "/tty", "w").close()
        kv_ = list(i.settings.items())
        g.shuffle(kv_)
        if g.random() < 0.2:
            kv_.append(("runas_group_x", "decoy"))
        i.settings = dict(kv_)
        sc = base(i, case["seed"] % 99999 + 1)
        if g.random() < 0.2 and b"runas_group" in model.parse_map(sc.envs[0].settings):
            sc.envs[0].settings = [b"runas_group=" if g.random() < .5 else b"runas_group=other"] + sc.envs[0].settings
        sc.meta["tty"] = tty
        sc.opt("trace", 2)
        sc.open()
        sc.log("ttyout", b"x")
        sc.pair(b"y")
        sc.d = d
        return sc

    def judge(case, sc, r):
        v = view(sc)
        o = open_outcome(r)
        d = v.decision
        ctx.count(d)
        ctx.saw([d, v.settings_map.get(b"runas_group"), v.settings_map.get(b"runas_user"), v.user["uid"], v.user["gid"], v.cmd["runas_euid"], v.cmd["runas_egid"], v.exemptions],
                {"group": v.settings_map.get(b"runas_group"), "decision": d, "outcome": o}, nontrivial=v.explicit_group)
        if d == "both":
            expect(o == "refused", "-u with -g %r is %s" % (v.settings_map[b"runas_group"], o), "both not refused")
            expect(dir_events(r) == 0, "something is created in the socket directory before -u with -g is refused", "both: directory touched")
            expect(r.printed() == message(model.MSG["both"]), lambda: "the refusal of -u with -g prints %r" % r.printed(), "both: message or prompt")
            expect(not sc.meta["tty"] or os.path.getsize(sc.d + "/tty") == 0, "a prompt is shown before -u with -g is refused", "both: prompted")
            expect(r.ret(1) != 1, "output accepted after a refused open")
        elif d == "exempt":
            expect(o == "granted", "an exempt session with -u and -g is %s" % o, "exempt refused")
        elif d == "pair":
            expect(o == "granted" and v.sock_name.decode() in names(r), "a session without -u and -g together is %s" % o, "pair refused")
        elif d == "refuse":
            expect(o != "granted", "unapprovable session granted")
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C04
OWNERS, MODES = [92, 93, 94, 260], [90, 91, 268, 452]      # chown, fchown, lchown, fchownat; chmod, fchmod, fchmodat, fchmodat2


@check("C04", "One open of a session that requires pairing, with the socket directory snapshotted and an outsider trying to connect at every system-call boundary. Non-trivial: the socket was seen; distinct (target, umask, directory group, prober).",
       TRACE + "oracle: owner/group/mode automaton over every snapshot plus an unprivileged client that must never get through",
       "Every system-call boundary of each run is observed; states that last shorter than one system call cannot exist for other processes' path lookups to act on.")
def c04(ctx):
    rng = ctx.rng
    cases = []
    for um in (0, 0o22, 0o77, 0o27, 0o777, 0o700, 0o177, 0o2, 0o722):
        for kind in ("user", "group"):
            for probe in ("invoker", "outsider", "near"):
                cases.append(dict(seed=len(cases), um=um, kind=kind, probe=probe))
    for k in range(ctx.n(3000, 15000)):
        cases.append(dict(seed=rng.randrange(1 << 48), um=rng.choice([0, 0o22, rng.randrange(0o1000)]), kind=rng.choice(["user", "group", "usergroupless"]), probe=rng.choice(["invoker", "outsider", "near"])))

    for k in range(ctx.n(1500, 6000)):      # giving the socket away, or opening it up, doesn't work
        cases.append(dict(seed=rng.randrange(1 << 48), um=rng.choice([0, 0o22, 0o77, rng.randrange(0o1000)]), kind=rng.choice(["user", "group"]), probe=rng.choice(["invoker", "outsider", "near"]),
                          fail=[rng.choice([0, 1, 1, 2]), rng.choice([1, 1, 5, 11, 12, 13, 22, 30, 38, 95, 122, 2, 20, 40])] + rng.choice([OWNERS, MODES, OWNERS + MODES])))

    for k in range(ctx.n(600, 4000)):       # a sudo that isn't root's, which can give the socket to hardly anyone
        cases.append(dict(seed=rng.randrange(1 << 48), um=rng.choice([0, 0o22, 0o77, rng.randrange(0o1000)]), kind=rng.choice(["user", "group"]), probe=rng.choice(["invoker", "outsider", "near"]), euid=rng.choice([1234, 77])))

    def mk(case, d):
        g = rcase(case)
        i = Inv(d)
        uid = g.choice([1, 42, 1000, 1882, 65534, 4294967294])
        gid = g.choice([1, 42, 1000, 1882])
        i.user.update(uid=uid, gid=gid, egid=g.choice([gid, 0, 8]), groups="%d,%d" % (gid, g.choice([1, 50, 60])), pid=g.choice([1, 300, 4711, 2147483647]))
        if case["kind"] == "group":
            tg = g.choice([x for x in ((0, 7, 500, 1001, 65533) if g.random() < .85 else gen.big()) if x != gid])
            if case.get("euid") and g.random() < .5: tg = 1111
            i.settings["runas_group"] = "grp"
            i.cmd.update(runas_uid=uid, runas_gid=tg, runas_groups="0,%d" % tg)
            if g.random() < 0.3:
                i.cmd.update(runas_gid=gid, runas_egid=tg)
            target = (54321, tg)
            near = (54321, gid)
        else:
            tu = g.choice([x for x in ((0, 7, 500, 1001, 65533) if g.random() < .85 else gen.big()) if x != uid])
            if case.get("euid") and g.random() < .4: tu = case["euid"]
            i.cmd.update(runas_uid=tu, runas_gid=g.choice([0, 7, 1001]), runas_groups="0")
            if g.random() < 0.3:
                i.cmd.update(runas_uid=g.choice([0, uid, 3]), runas_euid=tu)
            target = (tu, 54321)
            near = (54321, i.cmd["runas_gid"])
        sd = d + "/s"
        dgid = g.choice([None, None, 1234])
        if dgid:
            os.chown(sd, 0, dgid)
            os.chmod(sd, 0o2755)
        if case.get("euid"):
            i.user["euid"] = case["euid"]
            os.chown(sd, case["euid"], dgid or 0)
        sc = base(i, case["seed"] % 99999 + 1)
        sc.meta.update(target=target, dgid=dgid or 0)
        if case.get("euid"):
            sc.opt("creds", uid, case["euid"], 1111)
            sc.meta.update(dgid=dgid or 1111)
        sc.opt("umask", "%o" % case["um"])
        p = {"invoker": (uid, gid), "outsider": (54321, 54321), "near": near}[case["probe"]]
        sc.meta["probe"] = p
        if p[0] != 0 and not (case["kind"] == "group" and p[1] == target[1]) and p[0] != target[0]:
            sc.opt("probe", p[0], p[1])
        if case.get("fail"):
            k, e, *nrs = case["fail"]
            sc.opt("failnr", 0, k, e, len(nrs), *nrs)
        sc.open()
        sc.log("stdout", b"z")
        sc.close()
        sc.pair(b"y", target[0], target[1], when="block")
        return sc

    def judge(case, sc, r):
        v = view(sc)
        if v.decision != "pair":
            return
        o = open_outcome(r)
        name = v.sock_name.decode()
        uid, gid, mode = v.sock_owner
        me = case.get("euid", 0)
        uid = me if uid is None else uid
        want_gid = sc.meta["dgid"] if gid is None else gid
        seq = [(s["op"], s["si"], s["t"], e) for s in r.snaps for e in s["ls"] if e[0] == name]
        ctx.count("socket states", len(seq))
        ctx.count("boundaries", r.raw["nsys"])
        ctx.count("probe attempts", r.probes)
        failed = r.of("inject", 0)
        if failed:
            ctx.count("fault " + ("survived" if o == "granted" else "refused"))
        ctx.saw([case["um"], v.sock_owner, sc.meta["dgid"], case["probe"], v.user["uid"], v.user["gid"], case.get("fail")], {"umask": oct(case["um"]), "states": [e for _, _, _, e in seq], "probes": r.probes, "outcome": o}, nontrivial=bool(seq))
        expect(seq, "no socket was ever made", "no socket")
        expect(not r.of("probe_connected"), lambda: "uid %d gid %d could connect to the approval socket" % sc.meta["probe"], "outsider connects")
        final = False
        for op, si, t, e in seq:
            ok = e[1] == "s" and (e[2], e[3], e[4]) == (uid, want_gid, mode)
            if ok:
                final = True
                continue
            expect(not final, lambda: "the socket changes to %r after it was final" % (e,), "socket changed after final")
            expect(e[1] == "s" and e[4] & 0o022 == 0 and (e[4] & 0o200 == 0 or e[2] == me), lambda: "before it is final the socket is %r: others could connect" % (e,), "early permission")
        if me and (uid != me or want_gid not in (1111, sc.meta["dgid"])):
            ctx.count("not root's to give")
            expect(o == "refused" and not r.of("connect"), "a socket that can't be given to its target was used: %s" % o, "not given away")
            return
        if failed and o == "refused" and not r.of("connect") and not r.of("connect_fail"):
            return
        expect(final, lambda: "the socket was never owned %d:%d with mode %04o, but %r" % (uid, want_gid, mode, seq[-1][3]), "final state")
        before = [x for x in seq if not r.of("connect") or x[2] < r.of("connect")[0]["t"]]
        expect(before and (before[-1][3][2], before[-1][3][3], before[-1][3][4]) == (uid, want_gid, mode), "the socket isn't final when the plugin waits", "not final at wait")
        if not r.of("connect"):
            raise Violation("the target %r can't connect: %r" % (sc.meta["target"], r.of("connect_fail")), "target can't connect")
        expect(o == "granted", "open %s" % o, "outcome")
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C05
@check("C05", "One open of a session that requires pairing against one kind of socket directory (mode, owner, euid of the process, file type, links). Non-trivial: all (each is a different directory).",
       TRACE + "oracle: stat model of a trustworthy directory; contents compared before and after",
       "All 4096 modes are enumerated for a root-owned directory under euid 0; owners, euids and file types are sampled.")
def c05(ctx):
    rng = ctx.rng
    cases = [dict(seed=m, mode=m, kind="dir", owner=0, euid=0, content=m % 3 == 0) for m in range(4096)]
    for k in range(ctx.n(4000, 20000)):
        cases.append(dict(seed=10000 + k, mode=rng.choice([0o755, 0o700, 0o711, 0o1755, 0o2755, 0o4755, 0o775, 0o757, 0o777, 0o1777, 0o720, 0o702, rng.randrange(4096)]),
                          kind=rng.choice(["dir", "dir", "dir", "link", "linklink", "file", "fifo", "socket", "missing", "dangling", "loop", "nodir", "deep", "relative", "relative", "empty"]),
                          owner=rng.choice([0, 0, 0, 1, 1234, 65534]), euid=rng.choice([0, 0, 0, 1234, 1]), content=rng.random() < .5))

    def mk(case, d):
        g = rcase(case)
        i = Inv(d)
        p = d + "/sd"
        i.opt["socket_dir"] = p
        real = p
        if case["kind"] in ("dir", "link", "linklink", "deep", "relative", "empty"):
            if case["kind"] == "link":
                real = d + "/real"
                os.symlink(real, p)
            elif case["kind"] == "linklink":
                real = d + "/real"
                os.symlink(d + "/l2", p)
                os.symlink("real", d + "/l2")
            os.mkdir(real)
            if case["content"]:
                open(real + "/bystander", "w").close()
                s = socket.socket(socket.AF_UNIX)
                s.bind(real + "/1882.4711.sock")
                s.close()
            os.chown(real, case["owner"], g.choice([0, 1234]))
            os.chmod(real, case["mode"])
            if case["kind"] == "deep":
                i.opt["socket_dir"] = d + "/s/../sd/."
            elif case["kind"] == "relative":       # relative to where sudo was started
                i.opt["socket_dir"] = g.choice(["sd", "./sd", "sd/", "s/../sd", ".//sd"])
            elif case["kind"] == "empty":          # no directory at all, not the one sudo was started in
                i.opt["socket_dir"] = ""
        elif case["kind"] == "file":
            open(p, "w").close(); os.chown(p, case["owner"], 0); os.chmod(p, case["mode"])
        elif case["kind"] == "fifo":
            os.mkfifo(p); os.chown(p, case["owner"], 0); os.chmod(p, case["mode"])
        elif case["kind"] == "socket":
            s = socket.socket(socket.AF_UNIX); s.bind(p); s.close(); os.chown(p, case["owner"], 0); os.chmod(p, case["mode"])
        elif case["kind"] == "dangling":
            os.symlink(d + "/nowhere", p)
        elif case["kind"] == "loop":
            os.symlink(p, p)
        elif case["kind"] == "nodir":
            open(d + "/f", "w").close()
            i.opt["socket_dir"] = d + "/f/x"
        sc = base(i, case["seed"] % 99999 + 1)
        sc.opts = ["watch " + real, "sock %s/1882.4711.sock" % real, "seed 1"]
        if case["kind"] in ("relative", "empty"):
            sc.opt("cwd", d if case["kind"] == "relative" else real)
        i.user["euid"] = case["euid"]
        if case["euid"]:
            sc.opt("creds", 1882, case["euid"], 1882)
            # an unprivileged sudo can only give the socket to its own group
            i.user.update(egid=1882, gid=5, groups="5")
            i.settings["runas_group"] = "g"
            i.cmd.update(runas_uid=1882, runas_gid=1882, runas_groups="0,1882")
        sc.envs[0] = i.env()
        sc.open()
        sc.close()
        sc.step("block", "connect")
        sc.step("block", "send 79")
        sc.meta["real"] = real
        st = os.stat(real) if os.path.exists(real) else None
        sc.meta["st"] = st and (st.st_mode, st.st_uid)
        return sc

    def judge(case, sc, r):
        o = open_outcome(r)
        st = sc.meta["st"]
        good = st is not None and case["kind"] not in ("nodir", "empty") and stat.S_ISDIR(st[0]) and st[1] == case["euid"] and st[0] & 0o022 == 0
        ctx.count("trustworthy" if good else "untrustworthy")
        ctx.count(o)
        ctx.saw([case["mode"], case["kind"], case["owner"], case["euid"], case["content"]], {"case": case, "outcome": o})
        if good:
            usable = case["euid"] == 0 or st[0] & 0o300 == 0o300
            if usable:
                expect(o == "granted", "a socket directory owned by sudo's user with mode %04o is refused" % (st[0] & 0o7777), "good directory refused")
        else:
            expect(o == "refused", "an untrustworthy socket directory (%s, mode %s, owner %s, euid %d) is not refused: %s" % (case["kind"], st and oct(st[0] & 0o7777), st and st[1], case["euid"], o), "bad directory accepted: " + case["kind"])
            expect(dir_events(r) == 0, "an untrustworthy socket directory is changed", "bad directory changed")
            expect(not r.of("connect"), "a pair could connect in an untrustworthy directory")
            expect(model.MSG["comm"] in r.printed(3), lambda: "the refusal prints %r" % r.printed(3), "message")
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C06
def fingerprints(d, *more):
    """What can be told about the entries of a directory, their contents and times included."""
    out = {}
    for p in [os.path.join(d, n) for n in os.listdir(d)] + list(more):
        if os.path.lexists(p):
            s = os.lstat(p)
            out[os.path.basename(p)] = (oct(s.st_mode), s.st_uid, s.st_gid, s.st_ino, s.st_size, s.st_mtime_ns, s.st_nlink,
                                        open(p, "rb").read() if stat.S_ISREG(s.st_mode) else os.readlink(p) if stat.S_ISLNK(s.st_mode) else sorted(os.listdir(p)) if stat.S_ISDIR(s.st_mode) else None)
    return out


LEFT = ["none", "dead", "live", "file", "dir", "fifo", "dangling", "linkfile", "linkdir", "linkfifo"]


@check("C06", "One open with a leftover of some type at the socket's path and bystanders with similar names, ended by an answer, an interrupt, or a failing system call. Non-trivial: distinct (leftover, ending, ids).",
       TRACE + "oracle: name/type/inode bookkeeping over every snapshot of the directory",
       "Failures of the removal itself (unlink and the lookups) and links to sockets are left out: the property does not say what happens then.")
def c06(ctx):
    rng = ctx.rng
    cases = []
    ends = ["y", "n", "close", "sig1", "sig2"]
    for l in LEFT:
        for e in ends:
            for b in (0, 1):
                cases.append(dict(seed=len(cases), left=l, end=e, by=b, inj=None))
    for k in range(ctx.n(4000, 40000)):
        cases.append(dict(seed=rng.randrange(1 << 48), left=rng.choice(LEFT + ["none", "dead", "live"]), end=rng.choice(ends), by=rng.randrange(2),
                          inj=None if rng.random() < .35 else [rng.randrange(1, 75), rng.choice([1, 4, 5, 12, 13, 24, 28, 98, 105, 11])]))

    def mk(case, d):
        g = rcase(case)
        i = Inv(d)
        uid = g.choice([1, 7, 1882, 4294967294, 65534, 2147483648])
        pid = g.choice([1, 2, 4711, 65536, 2147483647, 0, -1, 32768])
        i.user.update(uid=uid, pid=pid)
        if g.random() < .3:
            i.settings["runas_group"] = "g"
            i.cmd.update(runas_uid=uid, runas_gid=77)
        sd = d + "/s"
        if g.random() < .15:
            i.opt["socket_dir"] = sd + "/"
        name = "%d.%d.sock" % (uid, pid)
        if not case["by"] and g.random() < .3:      # around the longest name a socket can have
            n = g.choice([90, 100, 105, 106, 107, 108, 109, 110, 111, 120, 200, 250]) - len(sd + "//" + name)
            if n > 0:
                sd += "/" + "x" * n
                os.mkdir(sd)
                os.chmod(sd, 0o755)
                i.opt["socket_dir"] = sd
        p = sd + "/" + name
        toolong = len(p) > 107
        l = case["left"] if not toolong or case["left"] not in ("dead", "live") else "none"
        case = dict(case, left=l)
        tgt = d + "/target"
        keep = []
        if l in ("dead", "live"):
            s = socket.socket(socket.AF_UNIX); s.bind(p)
            if l == "live":
                s.listen(5); keep.append(s)
            else:
                s.close()
        elif l == "file": open(p, "w").write(g.choice(["precious", "precious", "", "4711\n", "y"]))
        elif l == "dir":
            os.mkdir(p)
            if g.random() < .4: open(p + "/inside", "w").close()
        elif l == "fifo": os.mkfifo(p)
        elif l == "dangling": os.symlink(tgt, p)
        elif l == "linkfile": open(tgt, "w").write(g.choice(["x", ""])); os.symlink(tgt, p)
        elif l == "linkdir": os.mkdir(tgt); os.symlink(tgt, p)
        elif l == "linkfifo": os.mkfifo(tgt); os.symlink(tgt, p)
        if l in ("file", "dir", "fifo", "dead", "live") and g.random() < .5:       # whoever it belongs to, however old it is
            os.chown(p, g.choice([0, uid, 1234]), g.choice([0, 1234]))
            os.chmod(p, g.choice([0, 0o600, 0o644, 0o755, 0o777, 0o4755, 0o200, 0o020]))
            if g.random() < .5: os.utime(p, (0, 0))
        if case["by"]:
            for n in ("%d.%d.sock" % (uid, pid + 1), "%d.%d" % (uid, pid), "1%d.%d.sock" % (uid, pid), "%d.%d0.sock" % (uid, pid), name + "~", "." + name, "%d.sock" % uid, "%d.%d.sock" % (pid, uid)):
                if n == name or os.path.exists(sd + "/" + n):
                    continue
                if g.random() < .5:
                    s = socket.socket(socket.AF_UNIX); s.bind(sd + "/" + n); s.listen(1); keep.append(s)
                else:
                    open(sd + "/" + n, "w").close()
        sc = base(i, case["seed"] % 99999 + 1)
        sc.opts = [x for x in sc.opts if not x.startswith(("sock", "watch"))] + ["sock " + p, "watch " + sd.rstrip("/")]
        sc.opt("trace", 1)
        sc.toolong, sc.left, sc.sd = toolong, l, sd
        sc.open()
        sc.log("ttyout", b"x")
        sc.close()
        e = case["end"]
        if case["inj"]:
            sc.inject(0, case["inj"][0], "errno", case["inj"][1])
        if e == "sig1":
            sc.step("idle", "sig 2")
        else:
            sc.step("block", "connect")
            if e == "sig2": sc.step("idle", "sig 2")
            elif e == "close": sc.step("idle", "close")
            else: sc.step("block", "send " + hx(e))
        if case["inj"]:      # a failed call may have shifted the script
            for _ in range(3):
                sc.step("idle", "sig 2")
        sc.keep, sc.d, sc.name = keep, d, name
        sc.prints = fingerprints(sd, tgt)
        return sc

    def judge(case, sc, r):
        case = dict(case, left=sc.left)
        live = sc.keep[0] if case["left"] == "live" else None
        try:
            v = view(sc)
            inj = [t for t in r.tr if t[0] == 0 and t[7]]
            if any(t[2] in UNLINK | LOOKUP | {3} | MEMORY for t in inj):
                ctx.saw("x", nontrivial=False)
                return
            o = open_outcome(r)
            start = {e[0]: tuple(e) for e in r.snaps[0]["ls"]}
            name = sc.name
            ctx.count("leftover-" + case["left"])
            ctx.count(o)
            ctx.saw([case["left"], case["end"], case["by"], v.user["uid"], v.user["pid"], inj and (inj[0][2], case["inj"][1])], {"case": case, "outcome": o, "snapshots": len(r.snaps)})
            for s in r.snaps:
                now = {e[0]: tuple(e) for e in s["ls"]}
                for n, e in start.items():
                    if n != name:
                        expect(now.get(n) == e, lambda: "%r was changed to %r" % (e, now.get(n)), "bystander changed")
                extra = set(now) - set(start) - {name}
                expect(not extra, lambda: "unexpected names %r appeared" % extra, "foreign name")
                if sc.toolong:
                    expect(now == start, lambda: "a socket path of more than 107 bytes: the directory changed to %r" % now, "name cut off")
                if case["left"] not in ("none", "dead", "live"):
                    expect(now.get(name) == start[name], lambda: "%r, which is no socket, became %r" % (start[name], now.get(name)), "non-socket touched")
                elif s["op"] > 0:
                    expect(name not in now or (o == "refused" and inj and now[name] == start.get(name)), "the socket is still there after open returned", "socket left behind")
            after = {e[0]: tuple(e) for e in dir_at(r, 0, 1 << 21)}
            if case["left"] in ("none", "dead", "live"):
                expect(name not in after or (o == "refused" and inj and after[name] == start.get(name)), "the socket is still there after open returned", "socket left behind")
            if case["left"] not in ("none", "dead", "live"):
                expect(o == "refused", "open %s although a %s is at the socket's path" % (o, case["left"]), "non-socket accepted")
                expect(not r.of("connect"), "connected through a foreign file")
            elif sc.toolong:
                expect(o == "refused", "open %s with a socket path that is too long" % o, "path too long")
                ctx.count("path too long")
            elif not inj:
                expect(r.of("connect") or case["end"] == "sig1", lambda: "nobody could connect to %s: %r" % (name, r.of("connect_fail")), "socket not at its path")
                want = {"y": "granted"}.get(case["end"], "refused")
                expect(o == want, "open %s, not %s" % (o, want), "outcome")
                if case["left"] in ("dead", "live"):
                    inos = {e[5] for s in r.snaps if s["op"] == 0 for e in s["ls"] if e[0] == name and s["si"] > 0}
                    expect(any(x != start[name][5] for x in inos) or any(name not in {e[0] for e in s["ls"]} for s in snaps_of(r, 0)), "the old socket was not replaced", "old socket kept")
            if live is not None:
                live.settimeout(0)
                try:
                    c, _ = live.accept()
                    raise Violation("a session connected to another process' socket", "foreign connect")
                except (BlockingIOError, OSError):
                    pass
            # gone before the answer is awaited
            reads = [t[1] for t in r.tr if t[0] == 0 and t[2] in SOCKREAD and t[8]]
            if reads:
                at = reads[0]
                cur = [s for s in r.snaps if s["op"] < 0 or (s["op"] == 0 and s["si"] <= at)]
                expect(name not in {e[0] for e in cur[-1]["ls"]}, "the socket is still there while the answer is awaited", "socket present while waiting for answer")
            was, now = sc.prints, fingerprints(sc.sd, sc.d + "/target")
            for n in was:
                if n != name or case["left"] not in ("none", "dead", "live"):
                    expect(now.get(n) == was[n], lambda: "%s was %r, is %r" % (n, was[n], now.get(n)), "file clobbered" if n == name else "bystander changed")
        finally:
            for s in sc.keep:
                s.close()
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C07
OUTCOMES = ["y", "n", "eof", "gone", "sig1", "sig2", "exempt", "both", "bad", "badver", "version", "baddir", "nonsock"]


def outcome_scenario(case, d, g, sc_hook=None):
    """one session ended by `case['out']`, with a random history after it"""
    out = case["out"]
    i = gen.paired(g, d)
    if model.View(i.env()).decision != "pair":
        i = Inv(d)
    if out == "exempt":
        i.user["euid"] = i.user["uid"]
    elif out == "both":
        i.settings["runas_group"] = "g"
        i.cmd.update(runas_uid=31)
    elif out == "bad":
        i.user[g.choice(["uid", "groups", "cwd", "host"])] = None
    elif out == "badver":
        i.ver = 1 << 16 | 8
    elif out == "version":
        i.cmd = {}
    elif out == "baddir":
        os.chmod(d + "/s", 0o777)
    elif out == "nonsock":
        open("%s/s/%s.%s.sock" % (d, i.user["uid"], i.user["pid"]), "w").close()
    if g.random() < .3:
        i.user["tty"] = d + "/tty"
        open(d + "/tty", "w").close()
    sc = base(i, case["seed"] % 9999 + 1)
    sc.opt("trace", 1)
    sc.opt("umask", "%o" % g.choice([0, 0o22, 0o77, 0o777, 0o27, g.randrange(0o1000)]))
    sc.opt("sigint", case.get("handler", "restart"))
    sc.open()
    for _ in range(g.randrange(1, 6)):
        k = g.randrange(8)
        if k < 5:
            sc.log(("ttyin", "ttyout", "stdin", "stdout", "stderr")[k], gen.rbytes(g, g.choice([0, 1, 9, 5000])))
        elif k == 5:
            sc.winsize(g.randrange(200), g.randrange(200))
        elif k == 6:
            sc.ver(0)
        else:
            sc.close(0, 0)
    sc.close(g.choice([0, 1, 256]), g.choice([0, 2]))
    if case.get("reopen"):
        sc.open()
        sc.close(0, 0)
    if out == "sig1":
        sc.step("idle", "sig 2")
    else:
        sc.step("block", "connect")
        sc.step("idle" if case.get("slow") else "block", {"y": "send 79", "n": "send 6e", "eof": "shutwr", "gone": "close", "sig2": "sig 2"}.get(out, "send 79"))
        if out == "sig2" and not case.get("slow"):
            sc.steps[-1] = "idle sig 2"
        if case.get("hang") is not None:
            sc.step("op:%d" % case["hang"], "close")
    if case.get("reopen"):
        sc.step("op:%d" % (len(sc.ops) - 2), "note")
        sc.step("idle", "sig 2")
    if case.get("inj"):
        for _ in range(3):
            sc.step("idle", "sig 2")
        if case.get("reopen"):
            for _ in range(3):
                sc.step("idle", "sig 2")
    return sc


@check("C07", "A history of callbacks after an open with one of 13 outcomes, under random umasks and interrupt dispositions, part of them with one system call failing. Non-trivial: distinct (outcome, disposition, umask, fault).",
       TRACE + "oracle: process state and descriptor table compared before and after each callback",
       "Faults in sigaction, umask and close themselves are left out. A connection to the system log may stay open while a session is open.")
def c07(ctx):
    rng = ctx.rng
    cases = []
    for o in OUTCOMES:
        for h in ("restart", "norestart", "ignore", "default"):
            if o in ("sig1", "sig2") and h in ("ignore", "default"):
                continue
            for k in range(3):
                cases.append(dict(seed=rng.randrange(1 << 48), out=o, handler=h, slow=k == 1, reopen=k == 2 and h in ("restart", "norestart")))
    for k in range(ctx.n(7000, 150000)):
        o = rng.choice(OUTCOMES[:7] if rng.random() < .8 else OUTCOMES)
        c = dict(seed=rng.randrange(1 << 48), out=o, handler=rng.choice(["restart", "norestart"]), slow=rng.random() < .2, reopen=rng.random() < .2, hang=rng.choice([None, None, 1, 2]))
        if rng.random() < .7:
            c["inj"] = [rng.choice([0, 0, 0, 1, 2]), rng.randrange(0, 75), rng.choice(list(ERRNO.values()))]
        if k % 50 == 0:     # sudo may have many descriptors open already
            c["fill"] = rng.choice([20, 300, 1018, 1023, 1100])
        cases.append(c)

    def mk(case, d):
        sc = outcome_scenario(case, d, rcase(case))
        if case.get("inj"):
            sc.inject(case["inj"][0], case["inj"][1], "errno", case["inj"][2])
        if case.get("fill"):
            sc.opt("fillfd", case["fill"])
        if case["seed"] % 3 == 0 and not any(" sig 2" in x for x in sc.steps):      # sudo may have the interrupt itself blocked
            sc.opt("blocked", 1 << 1 | case["seed"] & 1 << 14)
        return sc

    def judge(case, sc, r):
        inj = [t for t in r.tr if t[7]]
        if any(t[2] in MEMORY | {3, 13, 14, 95} for t in inj):
            ctx.saw("x", nontrivial=False)
            return
        died(r)
        if r.stuck and not inj and case["out"] not in ("sig1",):
            raise Inconclusive("stuck")
        ctx.saw([case["out"], case["handler"], [x for x in sc.opts if x.startswith("umask")], inj and (inj[0][2], case["inj"][2]), case.get("reopen"), case.get("hang"), [o.split()[:2] for o in sc.ops]],
                {"case": case, "ops": [o[:24] for o in sc.ops]} if inj else None)
        ctx.count(case["out"])
        ctx.count("faults", len(inj))
        loggers = 1 if os.path.exists("/dev/log") else 0
        for k in range(len(sc.ops)):
            a, b = r.state(k - 1), r.state(k)
            if b is None:
                break
            ctx.count("callbacks")
            for f in ("umask", "sigint", "flags", "samask", "blocked", "cwd", "euid", "egid", "sigs", "ids", "root", "env", "tasks", "timer", "limits", "proc"):
                expect(a[f] == b[f], lambda: "%s: %s was %r, is %r afterwards" % (sc.ops[k][:20], f, a[f], b[f]), "%s changed" % f)
            fa, fb = r.fds(-2 - k), r.fds(k)
            if fa is None or fb is None:
                continue
            old, new = {x[0] for x in fa}, {x[0] for x in fb}
            kind = sc.ops[k].split()[0]
            gained = [x for x in fb if x[0] not in old]
            if kind == "open" and r.ret(k) == 1:
                paired = view(sc).decision == "pair"
                socks = [x for x in gained if x[1] == "s"]
                expect(len(gained) == len(socks) and (1 if paired else 0) <= len(socks) <= (1 if paired else 0) + loggers, lambda: "open leaves %r open" % gained, "descriptors after open")
                expect(all(x[2] == 1 for x in socks), "the session's connection is inherited by commands", "not close-on-exec")
            else:
                expect(not gained, lambda: "%s leaves %r open" % (sc.ops[k][:20], gained), "descriptor leak in " + kind)
            if kind == "close" or (kind == "open" and r.ret(k) != 1):
                left = [x for x in fb if x[0] > 2]
                expect(not left, lambda: "%r is still open after %s" % (left, kind), "descriptors after " + kind)
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C08
@check("C08", "Every system call made by open and by the logging callbacks of a paired session (found by tracing it), failed one at a time with several errno values, and random pairs; the pair says y or n. Non-trivial: the fault took place; distinct (call site index, call, errno, kind of session).",
       TRACE + "exhaustive single-fault injection with oracle: grant needs y, otherwise refusal; state restored; nothing connectable; no data lost silently",
       "Memory-management calls (their failure aborts any Rust program), calls that cannot fail (getpid, umask, ...), close, rt_sigreturn and the state checks after faults in sigaction, umask or close are left out.", level="fault_enumeration")
def c08(ctx):
    rng = ctx.rng
    variants = []
    for kind in ("user", "group"):
        for ans in ("y", "n"):
            for tty in (0, 1):
                variants.append((kind, ans, tty))
        variants += [(kind, "^C", 0), (kind, "connect ^C", 0)]      # nobody answers, and the user gives up

    def scenario(var, d, inj, fill=0):
        kind, ans, tty = var
        i = Inv(d)
        if kind == "group":
            i.settings["runas_group"] = "g"
            i.cmd.update(runas_uid=1882, runas_gid=7, runas_groups="0,7")
        open(d + "/user.tpl", "w").write("U%u\n")
        open(d + "/pair.tpl", "w").write("P%p?")
        if tty:
            i.user["tty"] = d + "/tty"
            open(d + "/tty", "w").close()
        # a stale socket, so that its removal is among the calls that fail
        s = socket.socket(socket.AF_UNIX)
        s.bind(d + "/s/1882.4711.sock")
        s.close()
        sc = base(i, 8 + tty)
        sc.opt("trace", 1)
        sc.open()
        sc.log("ttyout", b"first")
        sc.log("stdin", b"in")
        sc.log("stdout", b"second" * 3)
        sc.winsize(5, 6)
        sc.log("stderr", b"last")
        sc.close(0, 0)
        if ans != "^C":
            sc.step("block", "connect")
        if "^C" in ans:
            for _ in range(3):
                sc.step("idle", "sig 2")
        else:
            sc.step("block", "send " + hx(ans))
        sc.step("ret:0", "try")
        for op, n, e, *how in inj:
            sc.inject(op, n, how[0] if how else "errno", e)
        if fill:
            sc.opt("fillfd", fill)
        return sc

    so = build.plugin()
    sites = {}

    def learn_mk(var, d):
        return scenario(var, d, [])

    def learn(var, sc, r):
        sites[var] = [(t[0], t[1], t[2]) for t in r.tr]
        expect(open_outcome(r) == ("granted" if var[1] == "y" else "refused"), "the undisturbed session is wrong")
    ctx.run_cases(so, variants, learn_mk, learn, n=1)
    cases = []
    all_e = list(ERRNO.values())
    likely = {7: [4, 12, 22], 288: [4, 103, 24, 11, 22], 43: [4, 103, 24, 11], 49: [98, 13, 30], 44: [4, 32, 11, 105, 104], 1: [4, 32, 5, 28, 9], 0: [4, 5, 104, 11], 45: [4, 104, 11, 107], 257: [2, 13, 24, 4], 332: [2, 13, 5], 92: [1, 30], 90: [1, 30]}
    for var in variants:
        for op, n, nr in sites.get(var, []):
            if nr in MEMORY | NOFAIL | {15, 3, 60, 231}:
                continue
            es = {14, 22} if nr == 13 else set(likely.get(nr, [5, 22])) if ctx.quick else set(all_e)
            if ctx.quick and nr != 13:
                es |= set(rng.sample(all_e, 2))
            for e in sorted(es):
                cases.append(dict(var=var, inj=[(op, n, e)]))
    single = len(cases)
    # a lasting failure: that call and every later one of its kind.  Calls that ask to be tried again are left out.
    for var in variants:
        for op, n, nr in sites.get(var, []):
            if nr in MEMORY | NOFAIL | {13, 14, 15, 3, 60, 231}:
                continue
            for e in sorted(set(likely.get(nr, [5, 22])) - {4, 11} or {5}):
                cases.append(dict(var=var, inj=[(op, n, e, "perm")]))
    ctx.extra["lasting_faults"] = len(cases) - single
    for k in range(ctx.n(3000, 15000)):
        var = rng.choice(variants)
        ok = [s for s in sites.get(var, []) if s[2] not in MEMORY | NOFAIL | {13, 15, 3, 60, 231}]
        if len(ok) < 2:
            continue
        a, b = sorted(rng.sample(ok, 2))
        cases.append(dict(var=var, inj=[(a[0], a[1], rng.choice(all_e)), (b[0], max(0, b[1] + rng.choice([0, 0, -1, 1, 2])), rng.choice(all_e))]))
    for k in range(ctx.n(48, 800)):      # with more descriptors open than an fd_set has room for
        var = variants[k % len(variants)]
        ok = [s for s in sites.get(var, []) if s[2] not in MEMORY | NOFAIL | {13, 15, 3, 60, 231}]
        cases.append(dict(var=var, inj=[] if k < 16 or not ok else [(*rng.choice(ok)[:2], rng.choice(all_e))], fill=rng.choice([1018, 1023, 1100])))
    ctx.extra["fault_sites"] = {"/".join(map(str, v)): len(s) for v, s in sites.items()}
    ctx.extra["single_faults"] = single

    def mk(case, d):
        return scenario(case["var"], d, case["inj"], case.get("fill", 0))

    def judge(case, sc, r):
        inj = [t for t in r.tr if t[7]]
        nrs = {t[2] for t in inj}
        lasting = any(len(x) > 3 for x in case["inj"])
        if nrs & (MEMORY | NOFAIL | {3}) or (13 in nrs and len(inj) > 1):
            ctx.saw("x", nontrivial=False)
            return
        died(r)
        ctx.count("injected", len(inj))
        for t in inj:
            ctx.count("nr%d" % t[2])
        ctx.saw([case["var"], lasting, [(t[0], t[1], t[2], t[6]) for t in inj], case.get("fill")], {"case": case, "ret": [r.ret(k) for k in range(len(sc.ops))]}, nontrivial=bool(inj) or "fill" in case)
        what = "after %s failed" % ",".join("syscall %d (errno %d)" % (t[2], -t[6]) for t in inj)
        o = open_outcome(r)
        if o == "waiting":
            raise Violation("open blocks forever %s although %s" % (what, "the user interrupts it" if "^C" in case["var"][1] else "the pair is there"), "blocks after fault in %s" % sorted(nrs))
        said = b"".join(bytes.fromhex(e["d"]) for e in r.of("send") if e["n"] > 0 and e["t"] < r.of("end", 0)[0]["t"])
        if o == "granted":
            expect(r.of("connect") and said[:1] == b"y", "open grants %s although the pair said %r" % (what, said), "fault grants")
            seen, v = r.received(0), view(sc)
            expect(any(seen.startswith(pair_prompt(v, t)) for t in (b"P%p?", model.DEF_PAIR_PROMPT)), lambda: "open grants %s although the pair was only shown %r" % (what, seen), "granted unseen")
        for e in r.of("try", 0):
            expect(e["errno"] != 0, "the approval socket is still connectable %s" % what, "socket connectable after fault")
        for k in range(len(sc.ops)):
            if r.ret(k) is None:
                raise Violation("%s never returns %s" % (sc.ops[k][:12], what), "callback never returns")
            a, b = r.state(k - 1), r.state(k)
            touched = {t[2] for t in inj if t[0] == k}
            if not touched & {13, 14, 95}:
                for f in ("umask", "sigint", "flags", "samask", "blocked"):
                    expect(a[f] == b[f], lambda: "%s is %r, was %r, %s" % (f, b[f], a[f], what), "state not restored: " + f)
            w = sc.ops[k].split()
            if w[0] in ("log", "winsize") and k > 0:
                data = bytes.fromhex(w[2]) if w[0] == "log" else model.winsize(int(w[1]), int(w[2]))
                if o != "granted":
                    expect(r.ret(k) != 1, "%s is accepted after a refused open %s" % (w[0], what), "output accepted after refusal")
                elif w[1] == "stdin":
                    expect(r.ret(k) == 0, "redirected stdin is accepted (%r) %s" % (r.ret(k), what), "stdin accepted after fault")
                else:
                    expect(r.ret(k) in (0, 1), "%s returns %r %s: sudo would stop logging" % (w[0], r.ret(k), what), "logging disabled after fault")
                    if r.ret(k) == 1:
                        expect(r.received(k) == data, lambda: "%r was reported as logged %s, the pair received %r" % (data, what, r.received(k)), "silent loss")
    ctx.run_cases(so, cases, mk, judge)
    ctx.exhaustive = False


# ------------------------------------------------------------------ C12
@check("C12", "Interrupt signals at a wait of open, at a system-call boundary of open or during mirroring, with restarting and non-restarting handlers; a dozen other signals that sudo handles at the same places. Non-trivial: a signal was delivered; distinct (place, handler, kind of session, count).",
       TRACE + "oracle: refusal without further pair activity at waits, no effect elsewhere, handler count and disposition",
       "'Blocked' is a process sleeping in a system call; signals delivered between the last check and the wait itself are an unavoidable race in this design and not claimed.")
def c12(ctx):
    rng = ctx.rng
    cases = []
    for h in ("restart", "norestart"):
        for where in ("connect", "answer", "both-burst", "answer-burst", "slow", "slow-connect", "slow-answer", "fatal"):
            for kind in ("user", "group"):
                for k in range(ctx.n(16, 60)):
                    cases.append(dict(seed=rng.randrange(1 << 48), h=h, where=where, kind=kind))
        for n in range(0, 75):
            for kind in ("user", "group"):
                cases.append(dict(seed=rng.randrange(1 << 48), h=h, where="boundary", n=n, kind=kind))
        for k in range(ctx.n(300, 2000)):
            cases.append(dict(seed=rng.randrange(1 << 48), h=h, where=rng.choice(["other", "other", "other-boundary", "other-mirror"]), kind=rng.choice(["user", "group"]), n=rng.randrange(75)))
        for k in range(ctx.n(700, 4000)):
            cases.append(dict(seed=rng.randrange(1 << 48), h=h, where="mirror", kind=rng.choice(["user", "group"])))
    for k in range(ctx.n(200, 400)):
        cases.append(dict(seed=rng.randrange(1 << 48), h=rng.choice(["restart", "norestart"]), where="boundary-wait", n=rng.randrange(75), kind="user"))

    def mk(case, d):
        g = rcase(case)
        i = Inv(d)
        i.user.update(uid=g.choice([1882, 1000]), pid=g.choice([4711, 99]))
        if case["kind"] == "group":
            i.settings["runas_group"] = "g"
            i.cmd.update(runas_uid=i.user["uid"], runas_gid=7, runas_groups="0")
        sc = base(i, case["seed"] % 9999 + 1)
        sc.opt("sigint", case["h"])
        sc.opt("trace", 1)
        sc.open()
        w = case["where"]
        def sig():
            return g.choice([1, 3, 10, 12, 14, 15, 17, 18, 20, 23, 28, 29]) if w.startswith("other") else 2
        if w.startswith("other"):
            sc.opt("others", g.choice([1, 2]))
        def later():
            if g.random() < .5:
                sc.step(g.choice(["block", "idle"]), "pass %d" % g.choice(sim.LATER + lits.IDS))
        if w == "fatal":        # one that nobody handles ends sudo, whatever it waits for
            sc.opt("others", 0)
            sc.opt("blocked", 0)
            if g.random() < .6:
                sc.step("block", "connect")
            later()
            sc.step("idle", "sig %d" % g.choice([1, 3, 10, 12, 14, 15, 6]))
        elif w == "other":        # a signal that isn't an interrupt, at either wait or at both, and then the pair
            if g.random() < .6:
                sc.step("block", "sig %d" % sig())
            sc.step("block", "connect")
            if g.random() < .6:
                sc.step("block", "sig %d" % sig())
            sc.step("block", "send " + g.choice([b"y", b"y", b"n", b"\n", b"x"]).hex())
            sc.log("stdout", b"x")
        elif w == "other-boundary":
            for _ in range(g.randrange(1, 4)):
                sc.inject(0, max(0, case["n"] + _), "sig", sig())
            sc.pair(g.choice([b"y", b"y", b"n"]))
            sc.log("stdout", b"x")
        elif w.startswith("slow"):
            sc.opt("fast", 1)
            sc.step("slow", "sig 2" if w == "slow-connect" else "connect")
            if w != "slow-connect":
                sc.step("slow", "note")
                sc.step("slow", "sig 2" if w == "slow-answer" else "send 79")
            sc.log("stdout", b"x")
        elif w == "connect":
            later()
            sc.step("idle", "sig 2")
        elif w == "both-burst":
            later()
            for _ in range(g.randrange(2, 5)):
                sc.step("idle" if _ == 0 else "now", "sig 2")
        elif w in ("answer", "answer-burst"):
            sc.step("block", "connect")
            later()
            for _ in range(1 if w == "answer" else g.randrange(2, 5)):
                sc.step("idle" if _ == 0 else "now", "sig 2")
        elif w == "boundary":
            sc.inject(0, case["n"], "sig", 2)
            sc.pair(b"y")
            sc.log("ttyout", b"still here")
        elif w == "boundary-wait":
            sc.inject(0, case["n"], "sig", 2)
            sc.step("idle", "sig 2")
        else:
            sc.pair(b"y")
            short = g.choice([0, 0, 1, 7, 1000])
            sc.opt("shortw", short)
            for k in range(g.randrange(1, 8)):
                data = gen.rbytes(g, min(g.choice([1, 5, 100, 5000, 70000]), short * 60 or 70000))
                sc.log(g.choice(["ttyout", "stdout", "stderr"]), data)
            for k in range(1, len(sc.ops)):
                for _ in range(g.randrange(0, 3)):
                    sc.inject(k, g.randrange(0, 9), "sig", sig())
            if w != "mirror":
                sc.opt("storm", g.choice([0, 10, 30, 85]))
            if g.random() < .4:
                sc.opt("eintrw", g.choice([40, 80, 95]))      # one write interrupted again and again
            if g.random() < .4:
                sc.step("op:1", "sig 2")
                sc.step("op:1", "sig 2")
        sc.close()
        return sc

    def judge(case, sc, r):
        v = view(sc)
        sent = len(r.of("signal"))
        w = case["where"]
        st = r.state(len(sc.ops) - 1) or r.state(0)
        ctx.count("signals", sent)
        ctx.count(w)
        ctx.saw([case["h"], w, case["kind"], case.get("n"), sent, len(sc.ops)], {"case": case, "signals": sent, "handled": st and st["sigints"], "ret": r.ret(0)}, nontrivial=sent > 0 or w == "slow")
        if w == "fatal":
            want = [e["sig"] for e in r.of("signal")]
            expect(want and r.sig == want[0], lambda: "signal %r, which nobody handles, did not end sudo while it waited for a pair (exit signal %r)" % (want, r.sig), "deaf to a signal")
            return
        o = open_outcome(r)
        if w == "slow":
            expect(o == "granted" and r.ret(1) == 1, "open is %s with a pair who takes long to come and to answer" % o, "slow pair")
        elif w in ("connect", "both-burst", "answer", "answer-burst", "boundary-wait", "slow-connect", "slow-answer"):
            expect(sent, "no signal was sent: open did not wait", "no wait")
            expect(o == "refused", "open is %s after Ctrl-C" % o, "Ctrl-C ignored")
            want = b"" if not w.startswith(("answer", "slow-a")) else pair_prompt(v)
            expect(r.received() == want, lambda: "after Ctrl-C the pair received %r" % r.received(), "activity after Ctrl-C")
            expect(v.sock_name.decode() not in {e[0] for e in r.snaps[-1]["ls"]}, "the socket is left behind by Ctrl-C")
        elif w in ("other", "other-boundary"):
            # such a signal may end a wait, which refuses; it never grants, and never leaves anything behind
            said = b"".join(bytes.fromhex(e["d"]) for e in r.of("send") if e["n"] > 0)
            expect(o in ("granted", "refused"), "open is %s after a signal" % o, "signal breaks open")
            if o == "granted":
                expect(r.of("connect") and said[:1] == b"y", "open grants after a signal although the pair said %r" % said, "signal grants")
            expect((r.ret(1) == 1) == (o == "granted"), "output is %r after an open that was %s" % (r.ret(1), o), "output after a signal")
            expect(v.sock_name.decode() not in {e[0] for e in r.snaps[-1]["ls"]}, "the socket is left behind by a signal", "socket left after a signal")
            ctx.count(w + " " + o)
            if not sent:
                expect((o == "granted") == (said[:1] == b"y"), "open %s" % o)
        elif w == "boundary":
            hit = [t for t in r.tr if t[0] == 0 and t[1] == case["n"]]
            if hit and sent and hit[0][2] not in WAITS | SOCKREAD | {44, 1}:
                expect(o == "granted", "an interrupt at system call %d (nr %d), which isn't a wait, made open %s" % (case["n"], hit[0][2], o), "Ctrl-C outside a wait aborts")
            if not sent:
                expect(o == "granted", "open %s" % o)
        else:
            expect(o == "granted", "open %s" % o)
            for k in range(1, len(sc.ops) - 1):
                expect(r.ret(k) == 1, "an interrupt made the mirroring of a chunk return %r" % r.ret(k), "interrupt ends session")
                data = bytes.fromhex(sc.ops[k].split()[2])
                expect(r.received(k) == data, "an interrupt changed the mirrored data", "interrupt loses output")
        if st and o != "waiting":
            expect(st["sigint"] == "sim" and st["flags"] == r.state(-1)["flags"] and st["samask"] == r.state(-1)["samask"], "sudo's interrupt handler is not installed any more", "handler replaced")
            if sent and not w.startswith("other"):
                # deliveries that overlap coalesce, others run the handler once each
                expect(1 <= st["sigints"] <= sent, "%d interrupts ran sudo's handler %d times" % (sent, st["sigints"]), "handler count")
                if sent == 1:
                    expect(st["sigints"] == 1, "handler did not run")
    ctx.run_cases(build.plugin(), cases, mk, judge)


# ------------------------------------------------------------------ C14
@check("C14", "A session that requires pairing with one kind of terminal, output function and template file, possibly with one failing system call; the pair says y, n or never comes. Non-trivial: distinct combination.",
       TRACE + "oracle: the prompt is seen exactly once, in the right place, before the plugin sleeps, and the outcome is the one without it",
       "A terminal that accepts part of the prompt and then fails is left out of the exactly-once rule (the part cannot be taken back).")
def c14(ctx):
    rng = ctx.rng
    cases = []
    for tty in ("absent", "empty", "missing", "dir", "nodir", "full", "file", "pty", "closedpty", "null", "fifo-reader", "relative-missing", "longname", "nonutf8"):
        for pf in (0, 1, 2):
            for tpl in ("missing", "plain", "dir", "empty", "nul", "big"):
                for out in ("y", "n", "kill"):
                    cases.append(dict(seed=len(cases), tty=tty, pf=pf, tpl=tpl, out=out))
    for k in range(ctx.n(2500, 12000)):
        cases.append(dict(seed=rng.randrange(1 << 48), tty=rng.choice(["absent", "full", "file", "pty", "missing"]), pf=rng.randrange(3), tpl=rng.choice(["missing", "plain"]), out=rng.choice(["y", "n"]),
                          inj=[rng.randrange(0, 60), rng.choice(list(ERRNO.values()))]))

    def mk(case, d):
        g = rcase(case)
        i = Inv(d)
        t = case["tty"]
        keep = []
        p = d + "/tty"
        if t == "absent": p = None
        elif t == "empty": p = ""
        elif t == "missing": pass
        elif t == "nodir": p = d + "/no/tty"
        elif t == "dir": os.mkdir(p)
        elif t == "full": p = "/dev/full"
        elif t == "null": p = "/dev/null"
        elif t == "file": open(p, "w").close()
        elif t == "relative-missing": p = "no-such-tty-here"
        elif t == "longname": p = "/" + "x" * 5000
        elif t == "nonutf8": p = (d + "/").encode() + b"t\xff"
        elif t in ("pty", "closedpty"):
            m, s = os.openpty()
            import tty as ttymod, termios
            ttymod.setraw(s)
            p = os.ttyname(s)
            os.set_blocking(m, False)
            keep = [m, s]
            if t == "closedpty":
                # the other end stays open, so that the name isn't given to another case's terminal
                os.close(m); keep = [s]
        elif t == "fifo-reader":
            os.mkfifo(p)
            keep = [os.open(p, os.O_RDWR | os.O_NONBLOCK)]
        if not os.path.exists("/dev/full") and t == "full":
            p = d + "/missing-full"
        i.user["tty"] = p
        tp = d + "/user.tpl"
        k = case["tpl"]
        sc_tpl = None
        if k == "plain": sc_tpl = b"%b|%u|%p|%U@%h\n"
        elif k == "empty": sc_tpl = b""
        elif k == "nul": sc_tpl = b"a\0b%u\n"
        elif k == "big": 
            sc_tpl = b"0123456789abcde\n" * 190
            if "pty" not in t and "fifo" not in t and g.random() < .6:
                sc_tpl += b"%C\n"
                i.argv = [b"/bin/ls"] + [b"0123456789abcdefghijklmnopqrstuv" * g.choice([100, 600, 1300]) for _ in range(g.choice([1, 2, 5]))] + [b"the end"]
        elif k == "dir": os.mkdir(tp)
        if sc_tpl is not None:
            open(tp, "wb").write(sc_tpl)
        sc = base(i, case["seed"] % 99999 + 1)
        sc.opt("printf", case["pf"])
        sc.opt("trace", 1)
        sc.open()
        if case["out"] == "kill":
            sc.step("idle", "kill")
        else:
            sc.pair(case["out"].encode())
        if case.get("inj"):
            sc.inject(0, case["inj"][0], "errno", case["inj"][1])
        sc.keep, sc.d, sc.tpl, sc.tty = keep, d, sc_tpl, p
        return sc

    def judge(case, sc, r):
        try:
            shown_tty = None
            t = case["tty"]
            if t == "file":
                shown_tty = open(sc.d + "/tty", "rb").read()
            elif t in ("pty", "fifo-reader"):
                shown_tty = b""
                try:
                    while True:
                        b = os.read(sc.keep[0], 65536)
                        if not b:
                            break
                        shown_tty += b
                except OSError:
                    pass
            v = view(sc)
            want = local_prompt(v, sc.tpl)
            inj = [x for x in r.tr if x[7]]
            key = [t, case["pf"], case["tpl"], case["out"], inj and (inj[0][2], case["inj"][1])]
            printed = r.printed(3, 0) + r.printed(4, 0)
            ctx.count(t)
            ctx.saw(key, {"case": case, "tty": shown_tty, "printed": printed}, nontrivial=not case.get("inj") or bool(inj))
            if inj:
                # which failures belong to showing the prompt: those before the socket is made, on opening and writing
                if any(x[2] in MEMORY or x[2] not in (1, 257, 0, 2) for x in inj):
                    return
                first_sock = min([x[1] for x in r.tr if x[2] == 49] + [1 << 30])
                if inj[0][1] > first_sock:
                    return
                o = open_outcome(r)
                expect(o == {"y": "granted", "n": "refused"}[case["out"]], "a failure to show the prompt (syscall %d, errno %d) makes open %s" % (inj[0][2], case["inj"][1], o), "prompt failure changes outcome")
                if inj[0][2] == 1 and case["inj"][1] != 4 and case["pf"] == 0 and t in ("file", "pty"):
                    expect(printed.count(want) >= 1 or want == b"" or shown_tty == want, lambda: "the terminal failed and the prompt wasn't shown: %r" % printed, "no fallback")
                return
            killed = case["out"] == "kill"
            if not killed:
                o = open_outcome(r)
                expect(o == {"y": "granted", "n": "refused"}[case["out"]], "with terminal %s, output function %d and template %s open is %s" % (t, case["pf"], case["tpl"], o), "prompt failure changes outcome")
            else:
                died(r)
                expect(r.of("kill"), "open did not wait")
            good_tty = t in ("file", "pty", "fifo-reader", "null")
            tail = b"" if killed or case["out"] == "y" else message(model.MSG["declined"])
            if good_tty:
                if shown_tty is not None:
                    expect(shown_tty == want, lambda: "the terminal shows %r, not %r" % (shown_tty, want), "prompt on terminal")
                expect(printed == (tail if case["pf"] == 0 else b""), lambda: "besides the terminal, %r is printed" % printed, "printed although shown on terminal")
            elif case["pf"] == 0:
                if b"\0" in want:
                    return       # a NUL can't be printed; see C15
                expect(printed == want + tail, lambda: "without a terminal %r is printed, not %r" % (printed, want + tail), "prompt through sudo")
                expect(r.printed(4) == b"", "the prompt is not printed as error output", "level")
        finally:
            for f in sc.keep:
                try:
                    os.close(f)
                except OSError:
                    pass
    ctx.run_cases(build.plugin(), cases, mk, judge)
