"""Pieces the plugin-level oracles share."""
import copy, os, random
import model, sim, gen
from framework import Violation, Inconclusive, expect

REFUSED = (-1, -2)
WAITS = {7, 23, 270, 271, 232, 281, 43, 288}        # poll, select, pselect6, ppoll, epoll_wait, epoll_pwait, accept, accept4
SOCKREAD = {0, 19, 45, 47}
MEMORY = {9, 10, 11, 12, 25, 28, 158, 202, 218, 334, 318}   # mmap.. madvise, futex, getrandom: the process' own housekeeping
NOFAIL = {39, 186, 95, 102, 104, 107, 108, 110, 111, 24}  # getpid, gettid, umask, get*id, sched_yield
LOOKUP = {4, 5, 6, 262, 332, 21, 269, 439}          # stat family, access
UNLINK = {87, 263, 84}
ERRNO = {"EPERM": 1, "ENOENT": 2, "EINTR": 4, "EIO": 5, "EAGAIN": 11, "ENOMEM": 12, "EACCES": 13, "EEXIST": 17, "ENOTDIR": 20, "EINVAL": 22,
         "EMFILE": 24, "ENOSPC": 28, "EROFS": 30, "EPIPE": 32, "EADDRINUSE": 98, "ENOBUFS": 105, "ECONNRESET": 104, "ENOTCONN": 107}


def died(r, what="the plugin"):
    """a violation when the process went away or spun on its own account"""
    if r.of("runaway") or r.code == 96 or r.sig == 24 or r.sig == 9 and not r.stuck and not r.of("kill") and not r.watchdog:
        raise Violation("%s never finishes" % what, "runaway")
    if r.stuck or r.of("kill"):
        return
    if r.sig:
        raise Violation("%s killed sudo with signal %d" % (what, r.sig), "signal %d" % r.sig)
    if r.code in (98, 99):
        raise Inconclusive("could not set up the process")
    if r.code != 0:
        raise Violation("%s made sudo exit with %d" % (what, r.code), "exit %d" % r.code)


def returned(r, op=0, what="open"):
    died(r, what)
    v = r.ret(op)
    if v is None:
        raise Violation("%s never returns" % what, "%s never returns" % what)
    return v


def open_outcome(r, op=0):
    """granted | refused | waiting"""
    died(r, "open")
    v = r.ret(op)
    if v is None:
        return "waiting"
    if v == 1:
        return "granted"
    if v in REFUSED:
        return "refused"
    if v == 0:
        raise Violation("open returns 0, which makes sudo run the command without the plugin", "open disables the plugin")
    raise Violation("open returns %d" % v, "open returns a bad status")


def names(r, snaps=None):
    return {e[0] for s in (r.snaps if snaps is None else snaps) for e in s["ls"]}


def snaps_of(r, op):
    return [s for s in r.snaps if s["op"] == op]


def dir_at(r, op, si):
    """the directory's listing at a point (snapshots are only recorded when it changed)"""
    cur = None
    for s in r.snaps:
        if (s["op"], s["si"]) <= (op, si):
            cur = s
    return cur["ls"] if cur else []


def dir_events(r):
    """how often the directory changed after the beginning"""
    return len(r.snaps) - 1


def final_ls(r):
    return sorted(map(tuple, r.snaps[-1]["ls"]))


def before(g, i):
    """A session that takes place in the same process before the one under test, much like it or not."""
    p = copy.deepcopy(i)
    other = gen.paired(g, i.d) if g.random() < .7 else gen.exempt(g, i.d)
    for k in ("settings", "user", "cmd", "opt", "user_env"):
        mine, its = getattr(p, k), getattr(other, k)
        if not isinstance(mine, dict):
            continue
        x = g.choice([0, .15, .5, 1])
        for f in list(mine) + list(its):
            if g.random() < x:
                if f in its: mine[f] = its[f]
                else: mine.pop(f, None)
    if g.random() < .3:
        p.argv = other.argv
    p.user["tty"] = None
    q = i.d + "/q"
    os.mkdir(q)
    os.chmod(q, 0o755)
    p.opt.update(socket_dir=q, user_prompt_path=i.d + "/none", pair_prompt_path=i.d + "/none")
    v = model.View(p.env())
    return p.env(), g.choice([b"y", b"y", b"Y", b"n", b""]), (os.path.join(q.encode(), v.sock_name) if not v.bad else q.encode() + b"/none")


def base(i, seed=1):
    g = random.Random(repr((seed, i.settings, i.user, i.cmd, i.argv, i.opt)).replace(i.d, ""))
    if g.random() < .75:
        gen.vary(g, i)
    sc = i.scenario()
    sc.opt("seed", seed)
    if g.random() < .4:
        sc.opt("blocked", g.choice([1 << 2, 1 << 14 | 1, 1 << 16, 1 << 27, 0x40 << 8 | 1 << 19, 1 << 9 | 1 << 11]))    # other signals than the ones used here
    if g.random() < .4:
        sc.opt("saflags", g.choice([0x08000000, 0x40000000, 0x48000000, 4]))       # SA_ONSTACK, SA_NODEFER, SA_SIGINFO
    if g.random() < .6:
        sc.opt("fast", 1)       # a wait with a time limit reaches it
    if g.random() < .4:
        sc.opt("sigpipe", g.choice(["dfl", "dfl", "hand"]))
    if g.random() < .3:
        sc.opt("others", g.choice([1, 2]))
    if g.random() < .3:
        sc.opt("age", g.choice([3, 40, 400, 5000, 100000]))
    if g.random() < .4:
        sc.rnd = g      # the pair takes its time now and then
    if g.random() < .2 and isinstance(i.opt, dict):
        sc.prior = before(g, i)
    if g.random() < .3:
        sc.opt("shortf", g.choice([8, 60, 500]))
    return sc


def view(sc, k=0):
    return model.View(sc.envs[k])


def message(*lines):
    return model.error_text(*lines)


def template_of(v, k, default):
    try:
        return open(v.opt[k], "rb").read()
    except OSError:
        return default


def local_prompt(v, template=None):
    return v.expand(template_of(v, "user_prompt_path", model.DEF_USER_PROMPT) if template is None else template)


def pair_prompt(v, template=None):
    return v.expand(template_of(v, "pair_prompt_path", model.DEF_PAIR_PROMPT) if template is None else template)
