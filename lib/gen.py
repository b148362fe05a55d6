"""Workload generators: sudo invocations as sudo would describe them to a plugin."""
import copy, os, random
import lits
from sim import Env, Scenario, kv

IDS = [0, 1, 2, 5, 7, 42, 100, 109, 500, 1000, 1001, 1882, 65534, 2147483647, 4294967294]
CMDS = [b"/bin/ls", b"/usr/bin/id", b"/bin/sh", b"/usr/local/bin/x y", b"/opt/caf\xc3\xa9", b"/bin/\xff\xfe", b"ls", b"/usr/bin/sudo", b"/usr/bin/sudo_approve2", b"/"]


# names and words that someone might think special
KNOWN = ["root", "root", "0", "#0", "alice", "nobody", "daemon", "wheel", "sudo", "admin", "staff", "operator", "sudoedit", "sudo_pair", "sudo_approve", "true", "false", "yes", "no", "y", "n", "none", "default", "ALL", "all", "NULL",
         "localhost", "unknown", "-1", "1", "1000", "sh", "bash", "su", "test", "admin1", "ROOT", "Root", "toor", "root2", "xroot"]


def text(rng, n=12, alphabet=None):
    if not alphabet and rng.random() < .12:
        return rng.choice(KNOWN + ["/bin/sh", "/", "--", "-c", "-u", "-g", "--help", "-s", "*", "~", "$HOME", "/dev/null", "/root", "..", "a=b", "=", "sudo -s", "%s", "%u"])
    if not alphabet and rng.random() < .08:
        return rng.choice(lits.NOSTR)
    a = alphabet or "abcXYZ019 _-./%$@:=\"'\\\u00e9\u4e2d\x01\x1b\t"
    return "".join(rng.choice(a) for _ in range(rng.randrange(n + 1)))


def rbytes(rng, n, alphabet=None):
    if alphabet:
        return bytes(rng.choice(alphabet) for _ in range(n))
    return rng.randbytes(n)


def word(rng, n=10):
    if rng.random() < .15:
        return rng.choice(KNOWN)
    if rng.random() < .1:
        return rng.choice(lits.WORDS)
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_-") for _ in range(rng.randrange(1, n + 1)))


class Inv:
    """A sudo invocation.  `d` is the scratch directory: d/s is the socket directory."""
    def __init__(self, d, **k):
        self.d = d
        self.settings = {"progname": "sudo", "plugin_dir": "/usr/lib/sudo/", "plugin_path": "/usr/lib/sudo/sudo_pair.so", "network_addrs": "127.0.0.1/255.0.0.0"}
        self.user = {"user": "alice", "uid": 1882, "gid": 1882, "euid": 0, "egid": 1882, "groups": "1882", "cwd": "/home/alice", "host": "box.example",
                     "pid": 4711, "ppid": 1, "pgid": 4711, "sid": 1, "tcpgid": 4711, "tty": "", "lines": 24, "cols": 80}
        self.cmd = {"command": "/bin/ls", "runas_uid": 0, "runas_gid": 0, "runas_groups": "0", "iolog_ttyout": True, "iolog_stdout": True,
                    "iolog_stderr": True, "iolog_stdin": False, "iolog_ttyin": False, "cwd": None, "umask": "0022", "use_pty": True}
        self.argv = [b"/bin/ls", b"-l"]
        self.user_env = {"PATH": "/bin"}
        self.opt = {"socket_dir": d + "/s", "user_prompt_path": d + "/user.tpl", "pair_prompt_path": d + "/pair.tpl"}
        self.ver = None
        for g, kv_ in k.items():
            getattr(self, g).update(kv_) if isinstance(kv_, dict) else setattr(self, g, kv_)

    def env(self):
        return Env(kv(self.settings), kv(self.user), kv(self.cmd), list(self.argv), kv(self.user_env), kv(self.opt), self.ver)

    def scenario(self, ident="s", sockname=None):
        sc = Scenario(ident)
        e = self.env()
        sc.env(e)
        sd = self.opt.get("socket_dir") or ""
        sc.opt("watch", self.d + "/s")
        sc.opt("sock", (sockname or "%s/s/%s.%s.sock" % (self.d, self.user["uid"], self.user["pid"])))
        return sc


_big = None


def big():
    """User and group ids beyond 16 bits, where files can be given to them."""
    global _big
    if _big is None:
        import tempfile
        try:
            with tempfile.TemporaryDirectory() as t:
                os.chown(t, 4294967294, 4294967294)
                os.chown(t, 0, 0)
            _big = [65536, 131079, 2147483647, 2147483648, 3000000000, 4294967294]
        except OSError:
            _big = [1001]
    return _big


def ids(rng, pool=IDS):
    return rng.choice(pool) if rng.random() < .93 else rng.choice(lits.IDS)


def grouplist(rng, k=4, pool=IDS):
    return [rng.choice(pool) for _ in range(rng.randrange(1, k + 1))]


def paired(rng, d, quiet=False):
    """A random invocation that requires pairing (to a user, or to a group), varied in everything irrelevant."""
    i = Inv(d)
    uid = rng.choice([1, 5, 42, 1000, 1882, 65534, 4294967294])
    if rng.random() < .1:
        uid = rng.choice(lits.IDS) or 1
    gid = rng.choice([1, 5, 42, 1000, 1882, 65534])
    if rng.random() < .1:
        gid = rng.choice(lits.IDS) or 1
    i.user.update(uid=uid, gid=gid, egid=rng.choice([gid, gid, 0, 7, 4294967294]), groups=",".join(map(str, [gid] + grouplist(rng, 2))), pid=rng.choice([1, 2, 300, 4711, 65536, 4194304, 2147483647]),
                  user=word(rng), host=word(rng, 20))
    if rng.random() < 0.6:        # -u
        t = rng.choice([x for x in ((0, 0, 2, 7, 500, 1001) if rng.random() < .88 else big()) if x != uid])
        i.cmd.update(runas_uid=t, runas_gid=rng.choice([0, 2, 7, t]), runas_groups=",".join(map(str, [0] + grouplist(rng, 2))))
        if rng.random() < 0.5:
            i.settings["runas_user"] = rng.choice([word(rng), word(rng), "#-1", "#%d" % t, "#4294967295", "", i.user["user"], text(rng).replace("\0", "")])
    else:                          # -g
        g = rng.choice([x for x in ((0, 2, 7, 500, 1001) if rng.random() < .88 else big()) if x != gid])
        i.settings["runas_group"] = rng.choice([word(rng), word(rng), "#-1", "#%d" % g, "", text(rng).replace("\0", "")])
        i.cmd.update(runas_uid=uid, runas_gid=g, runas_groups=",".join(map(str, [0] + grouplist(rng, 2))))
    i.cmd["command"] = rng.choice(CMDS)
    i.argv = [i.cmd["command"]] + [text(rng).replace("\0", "").encode() for _ in range(rng.randrange(4))]
    if rng.random() < .06:        # a long one
        i.argv += [text(rng, 30).replace("\0", "").encode() for _ in range(rng.choice([10, 40, 130, 300]))] + [b"the end"]
    elif rng.random() < .05:
        i.argv += [text(rng).replace("\0", "").encode() for _ in range(rng.choice(lits.COUNTS) % 400)]
    if rng.random() < .06:
        i.user["pid"] = rng.choice(lits.IDS) or 1
    hints = rng.choice([1, 2, 3, 4, 5, 6, 7])
    i.cmd.update(iolog_ttyout=bool(hints & 1), iolog_stdout=bool(hints & 2), iolog_stderr=bool(hints & 4), iolog_stdin=rng.random() < 0.5, iolog_ttyin=rng.random() < 0.5)
    return i


def exempt(rng, d):
    i = paired(rng, d)
    k = rng.randrange(6)
    if k == 0:
        i.user["euid"] = i.user["uid"]
    elif k == 1:
        i.settings.pop("runas_group", None)
        i.cmd.update(runas_uid=i.user["uid"], runas_gid=i.user["gid"], runas_groups=i.user["groups"])
    elif k == 2:
        i.cmd["command"] = "/usr/bin/sudo_approve"
    elif k == 3:
        i.cmd.update(iolog_ttyout=False, iolog_stdout=False, iolog_stderr=False)
    elif k == 4:
        i.opt["gids_exempted"] = "77777," + str(i.user["gid"])
        i.user["groups"] += ",77777"
    else:
        i.opt["gids_enforced"] = "88888"
    return i


def vary(rng, i):
    """What sudo also says about a session and no decision depends on.  Only fields that still have their default are changed."""
    ref = Inv(i.d)

    def put(group, key, make, p=.25):
        cur, dflt = getattr(i, group), getattr(ref, group)
        if rng.random() < p and cur.get(key) == dflt.get(key) and (key in cur) == (key in dflt):
            v = make()
            if v is not None or key in cur:
                cur[key] = v
    for n in ("user", "pair"):
        p = "%s/%s.tpl" % (i.d, n)
        if os.path.isdir(i.d) and rng.random() < .25 and i.opt.get(n + "_prompt_path") == p and not os.path.lexists(p):
            open(p, "wb").write(rng.choice([b"", b"x", b"\n", b"%", b"%U wants %C on %h\r\n", b"%p%u" * 9, b"y", b"%C\ny/n? [n]: ", b"\xff\xfe", b"%%%%", b"\x1b[2J%B %d\n" * 30]))
    flag = lambda: rng.choice([True, False, None, "maybe"])
    name = lambda: rng.choice([word(rng), "", None, b"\xff\xfe", "a b", "-1", "0", rng.choice(lits.NOSTR)])
    for k in ("sudoedit", "login_shell", "run_shell", "implied_shell", "set_home", "preserve_environment", "preserve_groups", "ignore_ticket", "noninteractive"):
        put("settings", k, flag, .12)
    for k in ("prompt", "remote_host", "login_class", "selinux_role", "selinux_type", "bsdauth_type", "debug_flags", "timeout", "runas_user", "cmnd_chroot", "unknown"):
        put("settings", k, name, .12)
    for k in ("closefrom", "max_groups"):
        put("settings", k, lambda: rng.choice([0, 3, 64, 65536, "x", -1]), .12)
    put("settings", "progname", lambda: rng.choice(["sudoedit", "sudo-1", "/usr/bin/sudo", "s"]))
    put("settings", "network_addrs", lambda: rng.choice([None, "", "10.0.0.1/255.0.0.0 fe80::1/ffff::", "junk"]))
    put("settings", "plugin_path", lambda: rng.choice(["sudo_pair.so", "/x/y.so", ""]))
    put("user", "cwd", lambda: rng.choice(["/", "", "/tmp/a b", "/caf\u00e9", "relative"]))
    put("user", "tty", lambda: rng.choice([None, i.d + "/no/tty", "unknown"]))
    put("user", "host", lambda: word(rng, 30))
    put("user", "user", lambda: word(rng, 30))
    put("user", "lines", lambda: rng.choice([None, 0, 1, 66, 65535, 4294967295, "x"]))
    put("user", "cols", lambda: rng.choice([None, 0, 1, 132, 65535, 4294967295, "x"]))
    put("user", "sid", lambda: rng.choice([None, 0, 2, 4711]))
    put("user", "ppid", lambda: rng.choice([0, 2, 4711, 2147483647]))
    put("user", "pgid", lambda: rng.choice([0, 2, 4712]))
    put("user", "tcpgid", lambda: rng.choice([None, -1, 0, 2]))
    put("user", "umask", lambda: rng.choice(["0022", "077", "777", ""]))
    put("user", "rlimit_nofile", lambda: "1024,1048576")
    put("cmd", "cwd", lambda: rng.choice(["/", "", "/srv", b"/caf\xe9", "relative"]))
    put("cmd", "umask", lambda: rng.choice([None, "077", "0", "0777", "9"]))
    for k in ("noexec", "set_utmp", "sudoedit", "sudoedit_checkdir", "sudoedit_follow", "umask_override", "exec_background", "iolog_compress", "cwd_optional"):
        put("cmd", k, flag, .12)
    put("cmd", "use_pty", flag)
    for k in ("chroot", "login_class", "selinux_role", "selinux_type", "utmp_user", "iolog_path", "iolog_dir", "iolog_file", "iolog_user", "iolog_group", "runas_user", "runas_group", "unknown"):
        put("cmd", k, name, .12)
    for k in ("closefrom", "execfd", "nice", "timeout", "iolog_mode"):
        put("cmd", k, lambda: rng.choice([0, 1, 3, 64, "0600", "x", -1]), .12)
    put("cmd", "preserve_fds", lambda: rng.choice(["3", "3,4", "", "x"]))
    if rng.random() < .3:
        i.user_env = {word(rng): rng.choice([word(rng), "", "a=b"]) for _ in range(rng.randrange(4))}
    if rng.random() < .3 and i.ver is None:
        i.ver = 1 << 16 | rng.choice([9, 10, 13, 14, 15, 17, 18, 21, 255])
    put("opt", "unknown", lambda: "1")
    for g in ("settings", "user", "cmd", "opt"):
        x = list(getattr(i, g).items())
        rng.shuffle(x)
        setattr(i, g, dict(x))
    return i
