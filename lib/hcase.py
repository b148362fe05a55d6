"""Cases for the harness crate, the model of the library they are judged by, and the runner."""
import json, os, random, shutil, subprocess, tempfile, threading
import build, gen, model
from framework import Violation
from sim import kv, hx, Env

PLUGINS = ["Full", "All", "Bare", "BareAll", "Own"]
NAMES = [b"scripted", b"p%s one plugin to log them all", b"bare", b"a_plugin_with_a_rather_long_name_of_sixty_four_characters_no_less", b"own"]
VERSIONS = [None, b"7.7-%d", None, None, None]
HONOURS = [True, False, True, False, True]          # the policy's logging hints
DEFINES = [True, True, False, False, True]          # the optional methods
KINDS = ("ttyin", "ttyout", "stdin", "stdout", "stderr")
ERROR, INFO = 3, 4


class Big:
    """data of a length no script could spell out"""
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return "big%d" % self.n

    def __len__(self):
        return self.n

    def hex(self):
        some = bytearray((k * 37 + 11) & 255 for k in range((self.n - 1 >> 20) + 1))
        end = bytes(range(0xc0, 0xd0))
        k = len(some) - 1
        if k << 20 >= self.n - 16:
            some[k] = end[(k << 20) - (self.n - 16)]
        return "big%d:%s" % (self.n, (bytes(some) + end).hex())


class HCase:
    def __init__(self, plugin=0):
        self.plugin, self.envs, self.ops, self.acts, self.keys, self.extra = plugin, [], [], [], [], []
        self.conv = (-1, 0)
        self.pffail, self.pferrno, self.dump = [], 5, False
        self.meta = {}

    def env(self, e, printf=True):
        e.printf = printf
        self.envs.append(e)
        return len(self.envs) - 1

    def op(self, *w):
        self.ops.append(tuple(w))
        return len(self.ops) - 1

    def act(self, method, kind="ok", *args):
        self.acts.append((method, kind) + args)
        return self

    def text(self, ident):
        out = ["case %d" % ident, "plugin %d" % self.plugin, "conv %d %d" % self.conv, "pferrno %d" % self.pferrno]
        if self.dump:
            out.append("dump")
        out += ["key " + hx(k) for k in self.keys]
        for e in self.envs:
            out.append("env")
            for n in Env.VECS:
                v = getattr(e, n)
                if v is None:
                    out.append("vec %s NULL" % n)
                else:
                    v = kv(v) if isinstance(v, dict) else list(v)
                    out.append(("vec %s %d %s" % (n, len(v), " ".join(hx(x) for x in v))).rstrip())
            if e.ver is not None:
                out.append("ver %d" % e.ver)
            if e.argc is not None:
                out.append("argc %d" % e.argc)
            if not e.printf:
                out.append("noprintf")
        out += ["pffail %d" % n for n in self.pffail]
        for a in self.acts:
            out.append("act " + " ".join(x if isinstance(x, str) else hx(x) for x in a))
        for o in self.ops:
            out.append("op " + " ".join(hx(x) if isinstance(x, bytes) else str(x) for x in o))
        out.append("end")
        return "\n".join(out) + "\n"


class HResult:
    """events of a case, cut up by operation"""
    def __init__(self):
        self.ev, self.crash, self.stderr = [], None, ""

    def by_op(self):
        out, cur = {}, None
        for e in self.ev:
            if e["e"] == "op":
                cur = out.setdefault(e["op"], [])
            elif e["e"] == "tidy":
                cur = out.setdefault("tidy", [])
            elif cur is not None:
                cur.append(e)
        return out


def run_some(cmd, items, env=None, timeout=240, preexec=None, wrap=()):
    """items: [(id, HCase)] -> {id: HResult}.  A process that dies is started again behind the case it died in; one that hangs is not."""
    res = {}
    todo = list(items)
    d = tempfile.mkdtemp(prefix="spv.", dir="/tmp")
    os.chmod(d, 0o755)
    try:
        deaths = 0
        while todo:
            p = os.path.join(d, "script")
            with open(p, "w") as f:
                for i, c in todo:
                    f.write(c.text(i))
            os.chmod(p, 0o644)
            with open(os.path.join(d, "err"), "wb") as ef:
                try:
                    r = subprocess.run(list(wrap) + list(cmd) + ["run", p], stdout=subprocess.PIPE, stderr=ef, stdin=subprocess.DEVNULL, env=env, timeout=timeout, preexec_fn=preexec, cwd=d)
                    rc, out = r.returncode, r.stdout
                except subprocess.TimeoutExpired as e:
                    rc, out = "timeout", e.stdout or b""
            err = open(os.path.join(d, "err"), "rb").read().decode("utf-8", "replace")
            cur = None
            for l in out.decode("utf-8", "replace").split("\n"):
                if not l:
                    continue
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e["e"] == "case":
                    cur = res[e["id"]] = HResult()
                elif cur is not None:
                    cur.ev.append(e)
            if rc == 0:
                break
            done = [i for i, _ in todo if i in res]
            if not done:
                raise build.BuildFailed("harness did not start: rc=%r %s" % (rc, err[-2000:]))
            last = done[-1]
            ended = res[last].ev and res[last].ev[-1]["e"] == "end"
            if ended and rc != "timeout":
                # it ended badly after the last case: only whole-process findings can do that
                res[last].crash, res[last].stderr = rc, err[-6000:]
                break
            res[last].crash, res[last].stderr = rc, err[-6000:]
            k = [i for i, _ in todo].index(last)
            todo = todo[k + 1:]
            deaths += 1
            if deaths > 12 or rc == "timeout":
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def run_all(cmd, cases, jobs=8, chunk=400, **kw):
    """[HCase] -> [HResult or None]"""
    items = list(enumerate(cases))
    chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    out, lock, errs, it = {}, threading.Lock(), [], iter(chunks)

    def work():
        while not errs:
            with lock:
                c = next(it, None)
                bad = sum(41 if r.crash == "timeout" else 1 for r in out.values() if r.crash is not None)
            if c is None or bad > 40:
                return
            try:
                r = run_some(cmd, c, **kw)
            except BaseException as e:
                errs.append(e)
                return
            with lock:
                out.update(r)
    ts = [threading.Thread(target=work, daemon=True) for _ in range(min(jobs, len(chunks) or 1))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return [out.get(i) for i in range(len(cases))]


# ---------------------------------------------------------------- the model
class V(Violation):
    def __init__(self, tag, what, sig=None):
        Violation.__init__(self, what, sig)
        self.tag = tag


def need(tag, cond, what, sig=None):
    if not cond:
        w = what if isinstance(what, str) else what()
        raise V(tag, w, sig)


def text(evs, level=None):
    return b"".join(bytes.fromhex(e["d"]) for e in evs if e["e"] == "printf" and "d" in e and (level is None or e["level"] == level))


def chain_text(name, msgs):
    return b"\n" + b"".join(name + b": " + m + b"\n" for m in msgs)


class HView:
    """model.View, but of the library alone (no options of the pairing plugin)"""
    def __init__(self, env, own=(0, 0)):
        ver = env.ver if env.ver is not None else (1 << 16 | 17)
        self.ver = ver
        self.version = (ver >> 16, ver & 0xffff)
        m = lambda n: model.parse_map(model.kvlist(getattr(env, n)))
        self.maps = {n: m(n) for n in ("settings", "user_info", "command_info", "user_env", "plugin_options")}
        self.bad = []
        self.badver = self.version < model.API_MIN
        for n, f in (("settings", model.settings), ("user_info", model.user_info)):
            try:
                setattr(self, n, f(self.maps[n]))
            except model.Bad:
                setattr(self, n, None)
                self.bad += [k for k in (model.SETTINGS_REQ if n == "settings" else model.USER_ORDER) if self.unusable(n, k)]
        self.cmd = model.command_info(self.maps["command_info"], *own)
        self.argv = list(env.argv or [])
        self.ok = not self.badver and not self.bad

    def unusable(self, n, k):
        s = model.utf8(self.maps[n].get(k.encode()))
        return (model.USER_REQ[k] if n == "user_info" else model.p_str)(s) is None

    def seen(self, keys):
        return dict(user=self.user_info["user"].encode().hex(), argv=[a.hex() for a in self.argv], ver=self.ver,
                    keys=[[None if self.maps[n].get(k) is None else self.maps[n][k].hex() for n in ("settings", "user_info", "command_info", "user_env", "plugin_options")] for k in keys])


def err_outcome(a):
    """(messages, mode, open status, log status) of an `err` action"""
    o, l, mode = int(a[2]), int(a[3]), int(a[4])
    return list(a[5:]), mode, o, l


def check_case(c, r, cov=None):
    """The trace specification of C15 (levels, literal), C18, C19, C20, C21, C23."""
    name = NAMES[c.plugin]
    own = PLUGINS[c.plugin] == "Own"
    acts = {}
    for a in c.acts:
        acts.setdefault(a[0], []).append(a)
    take = lambda m: (acts[m].pop(0) if acts.get(m) else (m, "ok"))
    ops = r.by_op()
    S = {"serial": 0, "open": None, "env": None, "alive": False}
    printed = [0]
    ident = None

    def failed(evs):
        return any(e["e"] == "printf" and e.get("fail") for e in evs)

    def printf_ok(i, evs):
        return (S["cur"].printf if S["cur"] else True) and not failed(evs)

    def check_seen(e, tag):
        v = S["view"]
        w = v.seen(c.keys)
        for k in ("user", "argv", "ver", "keys"):
            need(tag, e[k] == w[k], "plugin sees %s=%r, its session was opened with %r" % (k, e[k], w[k]), "wrong environment")
        need("C23", e["name"] == name.hex(), "plugin_name is %r" % e["name"], "wrong name")

    def ret(evs):
        x = [e for e in evs if e["e"] == "ret"]
        return x[-1]["v"] if x else None

    def calls(evs, m=None):
        return [e for e in evs if e["e"] == "call" and (m is None or e["m"] == m)]

    def judge_act(i, evs, a, kind, tag_ret="C19"):
        """what an action leads to: expected return value (None: any)"""
        rv = ret(evs)
        ok, panic = 1, (-1 if kind == "open" else 0)
        if a[1] == "err":
            msgs, mode, o, l = err_outcome(a)
            if own:
                msgs, o, l = msgs[:1], -1, 0
                mode = 0
            want = o if kind == "open" else l
            want = (want,)
            if mode in (3, 4) or (mode == 1 and printf_ok(i, evs)):
                want = (panic,)
            elif mode in (1, 2):
                want += (panic,)      # whether it is ever shown, or whether not showing itself is a panic, is open
            need("C19", rv in want, "%s returned %r after an error (mode %d), not %r" % (kind, rv, mode, want), "wrong status after an error")
            if printf_ok(i, evs) and mode in (0, 3, 4):
                t = chain_text(name, msgs)
                need("C19", text(evs) == t, lambda: "error printed as %r, not %r" % (text(evs)[:400], t[:400]), "error not printed as it should be")
                need("C15", text(evs, ERROR) == t, "an error isn't printed at error level", "level of errors")
            return
        if a[1] in ("panic", "panicint", "panicbomb", "index", "unwrap"):
            need("C19", rv == panic, "%s returned %r after a panic, not %r" % (kind, rv, panic), "wrong status after a panic")
            need("C19", text(evs) == b"", lambda: "a panic printed %r" % text(evs), "panic printed")
            return
        need("C20" if kind != "open" else "C21", rv == ok, "%s returned %r, not 1" % (kind, rv), "wrong status after success")
        if a[1] == "ok":
            need("C20", text(evs) == b"", lambda: "an accepted %s printed %r" % (kind, text(evs)), "output nobody asked for")

    S["cur"], S["view"] = None, None
    for i, o in list(enumerate(c.ops)) + [("tidy", ("close", 0, 0))]:
        evs = ops.get(i)
        if r.crash is not None and (evs is None or (i != "tidy" and ret(evs) is None) or (i == "tidy" and not any(e["e"] == "end" for e in evs))):
            need("crash", False, "the process died (%s) in operation %r %r\n%s" % (r.crash, i, o, r.stderr[-1500:]), "crash %s" % (r.crash,))
        if evs is None:
            need("crash", False, "operation %r is missing from the record" % (i,))
        rv = ret(evs)
        k = o[0]
        pcalls = [e for e in calls(evs) if e["m"] != "version"]
        drops = [e for e in evs if e["e"] == "dropped"]
        for e in evs:
            if e["e"] == "printf":
                need("C15", e["level"] in (ERROR, INFO), "message at level %r" % e["level"], "level")
                need("C15", "badformat" not in e, "format string rejected by vsnprintf", "bad format")
        if k == "open":
            if S["alive"]:
                need("C21", [d["n"] for d in drops[:1]] == [S["serial"]], "the previous plugin wasn't destroyed before the new session (drops %r)" % drops, "stale plugin")
                check_seen(drops[0], "C21")
                take("drop")
                drops = drops[1:]
            S.update(open=False, alive=False, view=None)
            e = S["cur"] = c.envs[o[1]]
            v = HView(e)
            if not v.ok:
                need("C18", not pcalls, "the plugin was opened although %s" % ("sudo's version is %d.%d" % v.version if v.badver else "%r is unusable" % v.bad), "opened")
                S["env"] = False
                want = -1 if own else c.conv[0]
                if printf_ok(i, evs):
                    t = text(evs)
                    need("C18", text(evs, ERROR) == t and t.startswith(b"\n" + name + b": ") and t.endswith(b"\n") and t.count(b"\n") == 2, lambda: "refusal printed as %r" % t, "refusal message form")
                    if v.badver:
                        need("C18", ("%d.%d" % v.version).encode() in t and b"1.9" in t, lambda: "message doesn't name both versions: %r" % t, "versions not named")
                    else:
                        need("C18", any(b.encode() in t for b in v.bad), lambda: "message names none of %r: %r" % (v.bad, t), "entry not named")
                    if not own:
                        cv = [x for x in evs if x["e"] == "converted"]
                        need("C19", len(cv) >= 1 and t == chain_text(name, [bytes.fromhex(cv[-1]["d"])]), lambda: "refusal printed as %r" % t, "error not printed as it should be")
                need("C18" if want in (-1,) else "C19", rv == want, "open returned %r, not %r" % (rv, want), "open status of a refusal")
                cov and cov("refused")
                continue
            S["view"], S["env"] = v, True
            if not v.cmd["command"]:
                need("C18", not pcalls, "the plugin was opened without a command", "opened without a command")
                need("C23", rv == 1 and not text(evs), "open without a command returned %r and printed %r" % (rv, text(evs)), "open without a command")
                cov and cov("no command")
                continue
            need("C21", len(pcalls) == 1 and pcalls[0]["m"] == "open", "open called %r" % [x["m"] for x in pcalls], "open not called once")
            S["serial"] += 1
            need("C21", pcalls[0]["n"] == S["serial"] and pcalls[0]["p"] == PLUGINS[c.plugin], "wrong plugin opened", "wrong plugin")
            check_seen(pcalls[0], "C21")
            a = take("open")
            judge_act(i, evs, a, "open")
            S["alive"] = S["open"] = a[1] in ("ok", "print", "printown")
            need("C21", not drops, "a plugin was destroyed in open", "destroyed in open")
            cov and cov("open " + a[1])
        elif k in ("log", "winsize"):
            m = o[1] if k == "log" else "winsize"
            need("C21", not drops, "a plugin was destroyed in %s" % m, "destroyed in a callback")
            if not S["open"]:
                need("C21", not pcalls, "%s reached the plugin outside a session" % m, "callback outside a session")
                need("C21", rv == 0, "%s outside a session returned %r" % (m, rv), "status outside a session")
                need("C21", not text(evs), "%s outside a session printed %r" % (m, text(evs)), "print outside a session")
                cov and cov("outside")
                continue
            hint = True if k == "winsize" or not HONOURS[c.plugin] else S["view"].cmd["iolog_" + m]
            if not hint:
                need("C20", not pcalls and rv == 1 and not text(evs), "%s with its hint off: calls %r, returned %r" % (m, [x["m"] for x in pcalls], rv), "hint not honoured")
                cov and cov("hint off")
                continue
            if not DEFINES[c.plugin]:
                need("C20", rv == 1 and not text(evs), "an undefined %s returned %r" % (m, rv), "undefined method")
                cov and cov("undefined")
                continue
            need("C20", len(pcalls) == 1 and pcalls[0]["m"] == m, "%s called %r" % (m, [x["m"] for x in pcalls]), "wrong method")
            x = pcalls[0]
            need("C21", x["n"] == S["serial"], "plugin %r was called, not %r" % (x["n"], S["serial"]), "wrong plugin")
            if k == "log":
                need("C20", x["d"] == o[2].hex(), lambda: "%s was given %d bytes (%s...), not %d (%s...)" % (m, len(x["d"]) // 2, x["d"][:80], len(o[2]), o[2].hex()[:80]), "wrong data")
            else:
                need("C20", (x["l"], x["c"]) == (o[1], o[2]), "change_winsize was given %r, not %r" % ((x["l"], x["c"]), o[1:]), "wrong size")
            check_seen(x, "C21")
            a = take(m)
            judge_act(i, evs, a, m)
            cov and cov(m if a[1] == "ok" else m + " " + a[1])
        elif k == "close":
            if S["alive"]:
                if DEFINES[c.plugin]:
                    need("C21", [x["m"] for x in pcalls] == ["close"], "close called %r" % [x["m"] for x in pcalls], "close not called once")
                    x = pcalls[0]
                    need("C21", x["n"] == S["serial"] and (x["st"], x["err"]) == (o[1], o[2]), "close was given %r, not %r" % ((x["n"], x["st"], x["err"]), (S["serial"],) + tuple(o[1:])), "close arguments")
                    check_seen(x, "C21")
                    take("close")
                need("C21", [d["n"] for d in drops] == [S["serial"]], "plugin destroyed %r times by close" % [d["n"] for d in drops], "destroyed")
                check_seen(drops[0], "C21")
                take("drop")
                if DEFINES[c.plugin]:
                    need("C21", evs.index(drops[0]) > evs.index(pcalls[0]), "destroyed before close", "order")
                cov and cov("close")
            else:
                need("C21", not pcalls and not drops, "close outside a session reached the plugin", "close outside a session")
                cov and cov("close outside")
            S.update(open=False, alive=False, env=None)
        elif k == "version":
            need("C21", not pcalls and not drops, "show_version called %r" % [x["m"] for x in pcalls], "version calls")
            if S["env"]:
                if own:
                    vc = calls(evs, "version")
                    a = take("version")
                    need("C20", len(vc) == 1 and vc[0]["verbose"] == (o[1] != 0), "show_version was called with %r" % vc, "show_version")
                    check_seen(vc[0], "C21")
                    if a[1] in ("panic", "panicint", "panicbomb"):
                        need("C19", rv == -1, "a panic in show_version returned %r" % rv, "wrong status after a panic")
                    else:
                        need("C20", rv == 1, "show_version returned %r" % rv, "show_version status")
                elif printf_ok(i, evs):
                    t = text(evs)
                    w = VERSIONS[c.plugin]
                    need("C23", t.startswith(name + b" I/O plugin version ") and t.endswith(b"\n") and (w is None or t == name + b" I/O plugin version " + w + b"\n") and text(evs, INFO) == t,
                         lambda: "version printed as %r" % t, "version text")
                    need("C23", rv == 1, "show_version returned %r" % rv, "show_version status")
                cov and cov("version")
            else:
                need("C19", rv is not None, "show_version did not return", "version")
                if calls(evs, "version"):      # the environment of an earlier case in this process
                    take("version")
        if i != "tidy":
            printed[0] += len([e for e in evs if e["e"] == "printf"])
