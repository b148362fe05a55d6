"""Driving host/sim: scenarios in, recorded histories out."""
import atexit, json, os, select, shutil, signal, subprocess, tempfile, threading, time, queue, random
import lits

KINDS = ("ttyin", "ttyout", "stdin", "stdout", "stderr")
LATER = [1, 2, 5, 9, 11, 29, 31, 59, 61, 119, 121, 299, 301, 901, 3599, 3601, 86401, 700000]     # seconds somebody may take
RET_OPEN_OK, RET_OPEN_DENY = 1, -1


def hx(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return b.hex() if b else "-"


def kv(d):
    """dict or list of pairs -> list of b'k=v'"""
    out = []
    for k, v in (d.items() if isinstance(d, dict) else d):
        k = k if isinstance(k, bytes) else k.encode()
        if v is None:
            continue
        if isinstance(v, bool):
            v = b"true" if v else b"false"
        elif isinstance(v, int):
            v = str(v).encode()
        elif isinstance(v, str):
            v = v.encode("utf-8", "surrogateescape")
        out.append(k + b"=" + v)
    return out


class Env:
    """One set of open() arguments.  Each vector is a list of bytes, or None for NULL."""
    VECS = ("settings", "user_info", "command_info", "argv", "user_env", "plugin_options")

    def __init__(self, settings=(), user_info=(), command_info=(), argv=(), user_env=(), plugin_options=(), ver=None, argc=None):
        self.settings, self.user_info, self.command_info = settings, user_info, command_info
        self.argv, self.user_env, self.plugin_options = argv, user_env, plugin_options
        self.ver, self.argc = ver, argc

    def text(self, i):
        out = ["env %d" % i]
        for n in self.VECS:
            v = getattr(self, n)
            if v is None:
                out.append("vec %s NULL" % n)
            else:
                v = kv(v) if isinstance(v, dict) else list(v)
                out.append("vec %s %d %s" % (n, len(v), " ".join(hx(x) for x in v)))
        if self.ver is not None:
            out.append("ver %d" % self.ver)
        if self.argc is not None:
            out.append("argc %d" % self.argc)
        return out


class Scenario:
    def __init__(self, ident="s"):
        self.id = ident
        self.envs, self.ops, self.steps, self.opts = [], [], [], []
        self.meta = {}

    def env(self, e):
        self.envs.append(e)
        return len(self.envs) - 1

    def open(self, e=None):
        i = self.env(e) if isinstance(e, Env) else (e or 0)
        self.ops.append("open %d" % i)
        return len(self.ops) - 1

    def log(self, kind, data, times=1):
        self.ops.append("log %s %s%s" % (kind, hx(data), " %d" % times if times > 1 else ""))
        return len(self.ops) - 1

    def winsize(self, l, c):
        self.ops.append("winsize %d %d" % (l, c))
        return len(self.ops) - 1

    def close(self, st=0, err=0):
        self.ops.append("close %d %d" % (st, err))
        return len(self.ops) - 1

    def ver(self, v=0):
        self.ops.append("ver %d" % v)
        return len(self.ops) - 1

    def fork(self):
        self.ops.append("fork")
        return len(self.ops) - 1

    def step(self, trig, act):
        self.steps.append("%s %s" % (trig, act))
        return self

    def opt(self, *w):
        self.opts.append(" ".join(str(x) for x in w))
        return self

    def inject(self, op, n, kind, v):
        return self.opt("inject", op, n, kind, v)

    rnd = prior = None

    def passes(self, waiting=0):
        if self.rnd and "free 1" not in self.opts and self.rnd.random() < .5:
            # steps at the same block are taken at once; an idle one waits until the plugin sleeps again
            self.step("idle" if self.rnd.random() < waiting else "block", "pass %d" % self.rnd.choice(LATER + lits.IDS))

    def pair(self, answer=b"y", uid=-1, gid=0, when="block"):
        """The ordinary pair: connects once the plugin waits, answers when it waits again."""
        self.passes()
        self.step(when, "connect" if uid < 0 else "connect %d %d" % (uid, gid))
        self.passes(.6)
        if answer is not None:
            self.step("block", "send " + hx(answer))
        return self

    def text(self):
        out = ["scenario " + self.id]
        for i, e in enumerate(self.envs):
            out += e.text(i)
        out += self.opts
        if self.prior:
            e, say, sock = self.prior
            out += e.text(63)
            out.append("prior 63 %s %s" % (hx(say), sock.decode("utf-8", "surrogateescape")))
        out += ["op " + o for o in self.ops]
        # a signal sent somewhere in open must not find it waiting for an answer that only comes later
        hit = any(o.startswith(("storm", "inject")) for o in self.opts)
        out += ["step " + (s.replace("idle pass", "block pass") if hit else s) for s in self.steps]
        out.append("end")
        return "\n".join(out) + "\n"


class Result:
    def __init__(self, raw):
        self.raw = raw
        self.ev = sorted(raw["ev"], key=lambda e: e["t"])
        self.snaps, self.tr = raw["snaps"], raw["tr"]
        for k in ("code", "sig", "stuck", "watchdog", "done", "nsys", "probes", "over"):
            setattr(self, k, raw[k])

    def ret(self, op):
        """Return value the host saw, or None when the call never returned."""
        for e in self.ev:
            if e["e"] == "ret" and e["op"] == op:
                return e["ret"]
        return None

    def of(self, kind, op=None):
        return [e for e in self.ev if e["e"] == kind and (op is None or e["op"] == op)]

    def data(self, kind, op=None):
        return b"".join(bytes.fromhex(e["d"]) for e in self.of(kind, op))

    def received(self, op=None):
        return self.data("recv", op)

    def printed(self, level=None, op=None):
        return b"".join(bytes.fromhex(e["d"]) for e in self.of("printf", op) if level is None or e["level"] == level)

    def state(self, op):
        r = self.of("state", op)
        return r[-1] if r else None

    def fds(self, op):
        r = self.of("fds", op)
        return r[-1]["fds"] if r else None

    def time(self, kind, op=None):
        r = self.of(kind, op)
        return r[0]["t"] if r else None

    @property
    def inconclusive(self):
        return bool(self.watchdog or self.over)

    @property
    def sockets(self):
        """every (name,type,uid,gid,mode) ever seen in the watched directory, with time"""
        return [(s["t"], e) for s in self.snaps for e in s["ls"]]


_nowhere = []


def nowhere():
    """An empty directory to run in, so that nothing with a relative name ends up anywhere that matters."""
    if not _nowhere:
        _nowhere.append(tempfile.mkdtemp(prefix="spv.", dir="/tmp"))
        os.chmod(_nowhere[0], 0o755)
        atexit.register(shutil.rmtree, _nowhere[0], True)
    return _nowhere[0]


class SimDied(Exception):
    pass


class Sim:
    def __init__(self, exe, so, symbol="sudo_pair", wrap=(), env=None, stderr=None):
        self.cmd = list(wrap) + [exe, so, symbol]
        self.env, self.stderr = env, stderr
        self.p = None
        self.start()

    def start(self):
        e = dict(os.environ)
        e["LC_ALL"] = "C"
        e.pop("RUST_BACKTRACE", None)
        if self.env:
            e.update(self.env)
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.stderr or subprocess.DEVNULL, env=e, cwd=nowhere())
        line = self.p.stdout.readline()
        if not line:
            raise SimDied("sim did not start: %r rc=%r" % (self.cmd, self.p.wait()))
        self.hello = json.loads(line)

    def run(self, sc):
        text = sc if isinstance(sc, str) else sc.text()
        try:
            self.p.stdin.write(text.encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b""
        if not line:
            rc = self.p.wait()
            self.start()
            raise SimDied("sim exited with %r on a scenario" % rc)
        return Result(json.loads(line.decode("utf-8", "replace")))

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None


class Scratch:
    """A directory this run creates and removes; everything the plugin touches is in it."""
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="spv.", dir="/tmp")
        os.chmod(self.base, 0o755)
        self.n = 0
        self.lock = threading.Lock()

    def new(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.base, "c%d" % self.n)
        os.mkdir(d, 0o755)
        os.chmod(d, 0o755)
        s = os.path.join(d, "s")
        os.mkdir(s)
        os.chmod(s, 0o755)
        return d

    def done(self, d):
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


class Pool:
    """Runs case(worker_sim, scratch_dir) on several sims at once, in a deterministic order of results."""
    def __init__(self, exe, so, n=8, **kw):
        self.mk = lambda: Sim(exe, so, **kw)
        self.n = n

    def map(self, fn, items, stop=None):
        """fn(sim, item) -> value; yields (item, value) in input order."""
        items = list(items)
        res = [None] * len(items)
        nxt = iter(range(len(items)))
        lock = threading.Lock()
        errs = []

        def work():
            sim = None
            try:
                sim = self.mk()
                while True:
                    with lock:
                        i = next(nxt, None)
                    if i is None or errs or (stop and stop()):
                        return
                    res[i] = (fn(sim, items[i]),)
            except BaseException as e:   # reported by the caller
                errs.append(e)
            finally:
                if sim:
                    sim.stop()
        ts = [threading.Thread(target=work, daemon=True) for _ in range(min(self.n, max(1, len(items))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return [(it, r[0]) for it, r in zip(items, res) if r is not None]
