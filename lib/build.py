"""Builds everything a check needs from /repo's current working tree.

Cargo decides by mtime what is stale; a checkout that restores an older mtime can
fool it.  So the sources are hashed, and when the hash of a target directory
differs from the stamp in it, the workspace crates' fingerprints are dropped first.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SUDO_PAIR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class BuildFailed(Exception):
    pass


def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "." + name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def repo_hash(*subdirs):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, s) for s in subdirs] if subdirs else [REPO]
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


SRC = ("Cargo.toml", "Cargo.lock", "sudo_pair", "sudo_plugin", "sudo_plugin-sys", "examples")
CRATES = ("sudo_pair", "sudo_plugin", "sudo_plugin-sys", "sudo_plugin_sys", "raw_plugin_api", "deny_everything", "harness")


def _drop_fingerprints(target):
    for fp in glob.glob(os.path.join(target, "**", ".fingerprint"), recursive=True):
        for e in os.listdir(fp):
            base = e.rsplit("-", 1)[0]
            if base in CRATES:
                shutil.rmtree(os.path.join(fp, e), ignore_errors=True)


def _env(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            env.pop(k)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    if extra:
        env.update(extra)
    return env


def run(cmd, env=None, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=_env(env), cwd=cwd or REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildFailed("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))
    return r.stdout.decode("utf-8", "replace")


def _stamp(target, extra=""):
    want = repo_hash(*SRC) + extra
    p = os.path.join(target, ".stamp")
    try:
        have = open(p).read()
    except OSError:
        have = ""
    return p, want, have


def cargo(target_name, cmd, env=None, cwd=None, outputs=(), extra=""):
    """Run a cargo command with its own target dir, only when the sources changed."""
    lock = _lock(target_name)
    try:
        target = os.path.join(BUILD, target_name)
        os.makedirs(target, exist_ok=True)
        sp, want, have = _stamp(target, extra)
        outs = [os.path.join(target, o) for o in outputs]
        if have == want and all(os.path.exists(o) for o in outs):
            return target
        if have != want:
            _drop_fingerprints(target)
        e = dict(env or {})
        e["CARGO_TARGET_DIR"] = target
        lockfile = os.path.join(cwd or REPO, "Cargo.lock")
        run(cmd, e, cwd)
        for o in outs:
            if not os.path.exists(o):
                raise BuildFailed("missing build product " + o)
        with open(sp, "w") as f:
            f.write(want)
        return target
    finally:
        lock.close()


def sim(asan=False):
    lock = _lock("sim")
    try:
        src = os.path.join(VERIF, "host", "sim.c")
        hdr = os.path.join(VERIF, "host", "sudo_plugin.h")
        out = os.path.join(BUILD, "sim-asan" if asan else "sim")
        h = hashlib.sha256(open(src, "rb").read() + open(hdr, "rb").read()).hexdigest()
        st = out + ".stamp"
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == h:
            return out
        cc = ["clang", "-fsanitize=address"] if asan else ["gcc"]
        run(cc + ["-O1", "-g", "-w", "-rdynamic", "-o", out, src, "-ldl"], cwd=VERIF)
        with open(st, "w") as f:
            f.write(h)
        return out
    finally:
        lock.close()


RELEASE = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false",
           "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "1"}


def plugin():
    """The plugin as it ships: no debug assertions."""
    t = cargo("rel", ["cargo", "build", "--offline", "-p", "sudo_pair"], RELEASE, outputs=["debug/libsudo_pair.so"])
    return os.path.join(t, "debug/libsudo_pair.so")


def plugin_debug():
    """The plugin as `cargo build` makes it: debug assertions and overflow checks on."""
    t = cargo("dbg", ["cargo", "build", "--offline", "-p", "sudo_pair"], {"CARGO_PROFILE_DEV_DEBUG": "1"}, outputs=["debug/libsudo_pair.so"])
    return os.path.join(t, "debug/libsudo_pair.so")


def plugin_asan():
    """The plugin under AddressSanitizer, with debug assertions (the standard library's checks of unsafe preconditions included)."""
    t = cargo("plugin-asan", ["cargo", "+nightly", "build", "--offline", "-p", "sudo_pair", "--target", NIGHTLY_TARGET],
              {"RUSTFLAGS": "-Zsanitizer=address", "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "1"}, outputs=[NIGHTLY_TARGET + "/debug/libsudo_pair.so"])
    return os.path.join(t, NIGHTLY_TARGET, "debug/libsudo_pair.so")


def plugin_nolog():
    """The plugin with neither logging feature."""
    t = cargo("nolog", ["cargo", "build", "--offline", "-p", "sudo_pair", "--no-default-features", "--features", "change_winsize"], RELEASE, outputs=["debug/libsudo_pair.so"])
    return os.path.join(t, "debug/libsudo_pair.so")


def c_program(name, flags=(), shared=False):
    """A C program of /verif/host."""
    lock = _lock(name)
    try:
        src = os.path.join(VERIF, "host", name + ".c")
        out = os.path.join(BUILD, name + (".so" if shared else ""))
        h = hashlib.sha256(open(src, "rb").read() + open(os.path.join(VERIF, "host", "sudo_plugin.h"), "rb").read() + repr(flags).encode()).hexdigest()
        st = out + ".stamp"
        if not (os.path.exists(out) and os.path.exists(st) and open(st).read() == h):
            run(["gcc", "-O1", "-g", "-w"] + (["-shared", "-fPIC"] if shared else ["-rdynamic"]) + ["-o", out, src, "-ldl"] + list(flags), cwd=VERIF)
            with open(st, "w") as f:
                f.write(h)
        return out
    finally:
        lock.close()


def example():
    t = cargo("example", ["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "examples/raw_plugin_api/Cargo.toml")], outputs=[])
    so = glob.glob(os.path.join(t, "debug", "*.so"))
    if not so:
        raise BuildFailed("no example plugin in " + t)
    return so[0]


def _harness_dir():
    """The harness crate, pointed at the repository under test."""
    d = os.path.join(VERIF, "harness")
    h = hashlib.sha256()
    for root, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x != "target")
        for f in sorted(fs):
            h.update(f.encode() + open(os.path.join(root, f), "rb").read())
    h.update(REPO.encode())
    if REPO != "/repo":
        c = os.path.join(BUILD, "harness-src-" + hashlib.sha256(REPO.encode()).hexdigest()[:10])
        shutil.rmtree(c, ignore_errors=True)
        shutil.copytree(d, c, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(c, "Cargo.toml")
        t = open(p).read().replace("/repo/", REPO + "/")
        open(p, "w").write(t)
        d = c
    return d, h.hexdigest()


NIGHTLY_TARGET = "x86_64-unknown-linux-gnu"


def harness():
    d, h = _harness_dir()
    t = cargo("harness-rel", ["cargo", "build", "--offline"], dict(RELEASE, SUDO_PAIR_REPO=REPO), cwd=d, outputs=["debug/harness"], extra=h)
    return os.path.join(t, "debug/harness")


def harness_asan():
    """AddressSanitizer, debug assertions and overflow checks."""
    d, h = _harness_dir()
    t = cargo("harness-asan", ["cargo", "+nightly", "build", "--offline", "--target", NIGHTLY_TARGET],
              {"RUSTFLAGS": "-Zsanitizer=address", "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "1", "SUDO_PAIR_REPO": REPO},
              cwd=d, outputs=[NIGHTLY_TARGET + "/debug/harness"], extra=h)
    return os.path.join(t, NIGHTLY_TARGET, "debug/harness")


MIRIFLAGS = "-Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-tree-borrows"


def harness_miri():
    """(command, environment): the harness under Miri."""
    d, h = _harness_dir()
    e = {"MIRIFLAGS": MIRIFLAGS, "SUDO_PAIR_REPO": REPO}
    t = cargo("harness-miri", ["cargo", "+nightly", "miri", "run", "--offline", "--", "run", "/dev/null"], e, cwd=d, outputs=[], extra=h)
    e = _env(dict(e, CARGO_TARGET_DIR=t))
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(d, "Cargo.toml"), "--"], e


if __name__ == "__main__":
    for f in (sim, lambda: sim(asan=True), plugin, plugin_debug, plugin_asan, plugin_nolog, example, harness, harness_asan, harness_miri):
        print(f())
