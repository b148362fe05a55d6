"""C22 over the whole plugin: an AddressSanitizer build in an instrumented host, and the shipped build among guard pages."""
import glob, os, random, re
import build, gen, model
from common import *
from framework import Violation, Inconclusive, expect
from gen import Inv
from sim import kv

EXIT = 77


def template(g):
    return b"".join(g.choice([b"%u", b"%d", b"%C", b"%h", b"%H", b"%g", b"%p", b"%U", b"%W", b"%b", b"%B", b"%", b"%%", b"\xff", b"text ", b"\n", b"%\n", b"%\0", b"x" * 3000]) for _ in range(g.randrange(0, 14)))


def odd(g, e):
    """conforming, but at the edges"""
    for n in ("user_env", "plugin_options"):
        x = g.random()
        if x < .12:
            setattr(e, n, None if n == "user_env" else [x for x in e.plugin_options])
        elif x < .3:
            setattr(e, n, (getattr(e, n) or []) + [b"", b"=", b"x" * g.choice([1, 5000, 70000]), gen.rbytes(g, 9, b"=%\xffa")])
    x = g.random()
    if x < .08:
        e.argv, e.argc = None, 0
    elif x < .16:
        e.argv = []
    elif x < .3:
        e.argv = [gen.rbytes(g, g.choice([0, 1, 4095, 4096, 5000])).replace(b"\0", b"n") for _ in range(g.randrange(1, 9))]
    if g.random() < .15:
        e.settings = e.settings + [gen.rbytes(g, g.randrange(1, 9), b"a=\xff") for _ in range(30)]
    if g.random() < .1:
        n = g.choice(["settings", "user_info", "command_info"])
        v = list(getattr(e, n))
        if v:
            k = g.randrange(len(v))
            v[k] = v[k][:g.randrange(len(v[k]) + 1)] + g.choice([b"", b"\xff", b"=", b"9" * 30])
        setattr(e, n, v)
    if g.random() < .05:
        e.ver = g.choice([0, 1 << 16, 1 << 16 | 8, 1 << 16 | 9, 0xffffffff])
    if g.random() < .06:
        e.command_info = g.choice([None, []])
    return e


def scenario(case, d):
    g = random.Random(case["seed"])
    i = gen.paired(g, d) if g.random() < .8 else gen.exempt(g, d)
    for k in ("ttyin", "ttyout", "stdin", "stdout", "stderr"):
        i.cmd["iolog_" + k] = g.random() < .7
    for n in ("user.tpl", "pair.tpl"):
        if g.random() < .5:
            with open(d + "/" + n, "wb") as f:
                f.write(template(g))
    if g.random() < .2:
        i.opt["gids_enforced"] = g.choice(["0,1,2", "", ",", "x", "4294967296", "0," * 50 + "0"])
    if g.random() < .1:
        i.opt["socket_dir"] = d + "/s" + "/" * g.choice([1, 50, 60, 100])
    if g.random() < .1:
        i.user["tty"] = g.choice(["/dev/null", "/nonexistent", d, "/dev/full"])
    if g.random() < .7:
        gen.vary(g, i)
    e = odd(g, i.env())
    sc = i.scenario()
    sc.envs[0] = e
    sc.opt("seed", case["seed"] % 99999 + 1)
    sc.opt("guard", case["guard"])
    x = g.random()
    if x < .1:
        sc.opt("printf", g.choice([1, 2]))
    if g.random() < .1:
        sc.opt("fillfd", g.choice([50, 1100]))
    if g.random() < .2:
        sc.opt("eintrw", 40)
    if g.random() < .1:
        sc.opt("shortw", g.choice([1, 7, 100]))
    if g.random() < .3:
        sc.opt("syslog", 1)
    if g.random() < .15:
        sc.log(g.choice(["ttyout", "stdin"]), b"early")
    rounds = g.choice([1, 1, 2, 3])
    for _ in range(rounds):
        sc.open(0)
        for _ in range(g.randrange(0, 7)):
            y = g.random()
            if y < .12:
                sc.winsize(g.randrange(1 << 32), g.randrange(1 << 32))
            elif y < .2:
                sc.ver(1)
            else:
                sc.log(g.choice(["ttyin", "ttyout", "stdin", "stdout", "stderr"]), g.randbytes(g.choice([0, 1, 7, 4095, 4096, 4097, 20000])))
        if g.random() < .85:
            sc.close(g.randrange(256), 0)
        if g.random() < .2:
            sc.log("stdout", b"late")
    z = g.random()
    for _ in range(rounds):
        if z < .7:
            sc.pair(g.choice([b"y", b"y", b"Y", b"n", b"yes\n", b"\xff"]))
        elif z < .8:
            sc.step("block", "try")
        elif z < .9:
            sc.step("block", "sig 2")
        else:
            sc.step("block", "connect").step("block", "close")
    return sc


def first_line(report):
    for l in report.split("\n"):
        if "ERROR: AddressSanitizer" in l:
            return re.sub(r"0x[0-9a-f]+|==\d+==|pc .*", "", l).strip()[:120]
    return "AddressSanitizer report"


def whole_plugin(ctx):
    logs = ctx.scratch.new()

    def judge(what):
        def j(case, sc, r):
            if r.code == EXIT:
                rep = ""
                for p in sorted(glob.glob(logs + "/asan.*"), key=os.path.getmtime)[-1:]:
                    rep = open(p, errors="replace").read()[:4000]
                raise Violation("the whole plugin under AddressSanitizer: %s\n%s" % (first_line(rep), rep), first_line(rep))
            died(r, "the whole plugin (%s)" % what)
            ctx.count(what + " calls", len(r.of("ret")))
            ctx.saw([what, case["seed"]], {"with": what, "ops": [o[:30] for o in sc.ops][:6]}, nontrivial=bool(r.of("ret")))
        return j
    asan, host = build.plugin_asan(), build.sim(asan=True)
    mk = lambda what, n: [dict(seed=ctx.sub(what, k).randrange(1 << 48), guard=0 if what == "asan" else 1) for k in range(n)]
    ctx.run_cases(asan, mk("asan", ctx.n(2500, 30000)), scenario, judge("asan plugin"), exe=host,
                  env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:exitcode=%d:log_path=%s/asan" % (EXIT, logs)})
    ctx.run_cases(build.plugin(), mk("guard", ctx.n(2500, 30000)), scenario, judge("guarded plugin"))
    ctx.run_cases(build.plugin_debug(), mk("guard debug", ctx.n(800, 10000)), scenario, judge("guarded debug plugin"))
