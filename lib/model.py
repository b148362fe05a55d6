"""Executable reference models, written from README.md, sudo_plugin(8) and the API docs.

They work on the raw vectors handed to open() and share no code with the Rust.
"""
import os, re

API_MIN = (1, 9)
NAME = b"sudo_pair"
DEF = {
    "binary_path": b"/usr/bin/sudo_approve", "user_prompt_path": b"/etc/sudo_pair.prompt.user",
    "pair_prompt_path": b"/etc/sudo_pair.prompt.pair", "socket_dir": b"/var/run/sudo_pair",
}
DEF_USER_PROMPT = b"%B %u %p\n"
DEF_PAIR_PROMPT = b"%U@%h:%d$ %C\ny/n? [n]: "
MSG = {
    "both": b"the -u and -g options may not both be specified",
    "stdin": b"redirection of stdin to paired sessions is prohibited",
    "ended": b"pair ended the session",
    "declined": b"pair declined the session",
    "comm": b"couldn't establish communications with the pair",
}


class Bad(Exception):
    """a required entry is absent or unusable"""
    def __init__(self, key):
        Exception.__init__(self, key)
        self.key = key


def parse_map(vec):
    m = {}
    for e in vec or ():
        k, s, v = e.partition(b"=")
        m[k] = v if s else e
    return m


def utf8(b):
    if b is None:
        return None
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return None


def p_int(s, bits, signed):
    if s is None or not re.fullmatch(r"\+?[0-9]+" if not signed else r"[+-]?[0-9]+", s, re.ASCII):
        return None
    v = int(s)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    return v if lo <= v <= hi else None


def p_u32(s): return p_int(s, 32, False)
def p_i32(s): return p_int(s, 32, True)
def p_u64(s): return p_int(s, 64, False)


def p_octal(s):
    if s is None or not re.fullmatch(r"\+?[0-7]+", s, re.ASCII):
        return None
    v = int(s, 8)
    return v if v < 1 << 32 else None


def p_bool(s):
    return {"true": True, "false": False}.get(s)


def p_list(s, item):
    if s is None:
        return None
    out = [item(x) for x in s.split(",")]
    return None if any(x is None for x in out) else out


def p_str(s): return s


def field(m, k, conv, default):
    v = conv(utf8(m.get(k.encode())))
    return default if v is None else v


def need(m, k, conv):
    v = conv(utf8(m.get(k.encode())))
    if v is None:
        raise Bad(k)
    return v


# ---- typed views: name -> value, with paths as str (bytes for command) ----
SETTINGS_REQ = ["plugin_dir", "plugin_path", "progname"]
SETTINGS_OPT_STR = ["bsd_auth_type", "debug_flags", "login_class", "prompt", "remote_host", "runas_group", "runas_user", "selinux_role", "selinux_type", "timeout"]
KEYS = {"bsd_auth_type": "bsdauth_type"}        # fields not called what sudo calls the entry
SETTINGS_OPT_U64 = {"close_from": "closefrom", "debug_level": "debug_level", "max_groups": "max_groups"}
SETTINGS_BOOL = ["ignore_ticket", "implied_shell", "login_shell", "noninteractive", "preserve_environment", "preserve_groups", "run_shell", "set_home", "sudoedit"]


def ip_addr(s):
    import ipaddress
    # Rust and Python agree on canonical forms; the generators avoid the rest
    try:
        return str(ipaddress.ip_address(s))
    except ValueError:
        return None


def net_addrs(s):
    if s is None:
        return None
    out = []
    for e in s.split(" "):
        a, sep, k = e.partition("/")
        a, k = ip_addr(a), ip_addr(k)
        if a is None or k is None:
            return None
        out.append((a, k))
    return out


def settings(m):
    v = {k: need(m, k, p_str) for k in SETTINGS_REQ}
    for k in SETTINGS_OPT_STR:
        v[k] = field(m, KEYS.get(k, k), p_str, None)
    for f, k in SETTINGS_OPT_U64.items():
        v[f] = field(m, k, p_u64, None)
    for k in SETTINGS_BOOL:
        v[k] = field(m, k, p_bool, False)
    v["network_addrs"] = field(m, "network_addrs", net_addrs, [])
    return v


USER_ORDER = ["cwd", "egid", "euid", "gid", "groups", "host", "pgid", "pid", "ppid", "uid", "user"]
USER_REQ = {"cwd": p_str, "egid": p_u32, "euid": p_u32, "gid": p_u32, "groups": lambda s: p_list(s, p_u32), "host": p_str,
            "pgid": p_i32, "pid": p_i32, "ppid": p_i32, "uid": p_u32, "user": p_str}


def user_info(m):
    v = {k: need(m, k, USER_REQ[k]) for k in USER_ORDER}
    v["umask"] = field(m, "umask", p_str, None)
    v["cols"] = field(m, "cols", p_u64, 80)
    v["lines"] = field(m, "lines", p_u64, 24)
    v["sid"] = field(m, "sid", p_i32, 0)
    v["tcpgid"] = field(m, "tcpgid", p_i32, -1)
    v["tty"] = field(m, "tty", p_str, None)
    return v


CMD_OPT_STR = ["chroot", "iolog_group", "iolog_mode", "iolog_path", "iolog_user", "login_class", "selinux_role", "selinux_type", "utmp_user"]
CMD_OPT_U64 = {"close_from": "closefrom", "exec_fd": "execfd", "nice": "nice", "timeout": "timeout"}
CMD_BOOL = {"exec_background": False, "iolog_compress": False, "iolog_stdin": False, "iolog_stdout": False, "iolog_stderr": False, "iolog_ttyin": False,
            "iolog_ttyout": False, "noexec": False, "preserve_groups": False, "set_utmp": False, "sudoedit": False, "sudoedit_checkdir": True,
            "sudoedit_follow": False, "use_pty": False}


def command_info(m, own_uid=0, own_gid=0):
    v = {"command": m.get(b"command", b"")}
    v["runas_gid"] = field(m, "runas_gid", p_u32, own_gid)
    v["runas_uid"] = field(m, "runas_uid", p_u32, own_uid)
    v["runas_egid"] = field(m, "runas_egid", p_u32, v["runas_gid"])
    v["runas_euid"] = field(m, "runas_euid", p_u32, v["runas_uid"])
    v["umask"] = field(m, "umask", p_octal, 0o7777)
    v["cwd"] = m.get(b"cwd")                    # paths needn't be UTF-8
    for k in CMD_OPT_STR:
        v[k] = field(m, k, p_str, None)
    for f, k in CMD_OPT_U64.items():
        v[f] = field(m, k, p_u64, None)
    for k, d in CMD_BOOL.items():
        v[k] = field(m, k, p_bool, d)
    v["umask_override"] = field(m, "umask_override", p_bool, None)
    v["preserve_fds"] = field(m, "preserve_fds", lambda s: p_list(s, p_i32), [])
    v["runas_groups"] = field(m, "runas_groups", lambda s: p_list(s, p_u32), None)
    return v


def flags(s):
    """the sudo options in force, in sudo's long form"""
    out = []
    if s["sudoedit"] and s["progname"] != "sudoedit":
        out.append("--edit")
    for k, f in (("runas_user", "--user"), ("runas_group", "--group"), ("prompt", "--prompt")):
        if s[k] is not None:
            out.append(f + " " + s[k])
    for k, f in (("login_shell", "--login"), ("run_shell", "--shell"), ("set_home", "--set-home"), ("preserve_environment", "--preserve-env"),
                 ("preserve_groups", "--preserve-groups"), ("ignore_ticket", "--reset-timestamp"), ("noninteractive", "--non-interactive")):
        if s[k]:
            out.append(f)
    for k, f in (("login_class", "--login-class"), ("selinux_role", "--role"), ("selinux_type", "--type"), ("bsd_auth_type", "--auth-type"), ("close_from", "--close-from")):
        if s[k] is not None:
            out.append(f + " " + str(s[k]))
    return [x.encode() for x in out]


def runas_gids(ui, ci):
    g = ci["runas_groups"] if ci["runas_groups"] is not None else ui["groups"]
    return set(g) | {ci["runas_egid"]}


def path_parts(p):
    """what a path names, lexically: '//', '/./' and a trailing '/' make no difference"""
    absol = p.startswith(b"/")
    parts = [x for i, x in enumerate(p.split(b"/")) if x and not (x == b"." and (i > 0 or absol))]
    return absol, tuple(parts)


def options(m):
    o = {}
    for k, d in DEF.items():
        s = utf8(m.get(k.encode()))
        o[k] = d if s is None else s.encode()
    o["gids_enforced"] = set(field(m, "gids_enforced", lambda s: p_list(s, p_u32), [0]))
    o["gids_exempted"] = set(field(m, "gids_exempted", lambda s: p_list(s, p_u32), []))
    return o


def join(d, name):
    if not d:
        return name
    return d + name if d.endswith(b"/") else d + b"/" + name


class View:
    """Everything the models derive from one set of open() arguments."""
    def __init__(self, env, own_uid=0, own_gid=0):
        self.env = env
        ver = env.ver if env.ver is not None else (1 << 16 | 17)
        self.version = (ver >> 16, ver & 0xffff)
        self.bad = None
        if self.version < API_MIN:
            self.bad = "version"
            return
        vec = lambda n: parse_map(kvlist(getattr(env, n)))
        try:
            self.settings_map = vec("settings")
            self.settings = settings(self.settings_map)
            self.user = user_info(vec("user_info"))
        except Bad as e:
            self.bad = e.key
            return
        self.cmd = command_info(vec("command_info"), own_uid, own_gid)
        self.opt = options(vec("plugin_options"))
        self.argv = list(env.argv or [])
        self.gids = runas_gids(self.user, self.cmd)
        self.to_user = self.user["uid"] != self.cmd["runas_euid"]
        self.to_group = self.user["gid"] != self.cmd["runas_egid"]
        self.explicit_group = b"runas_group" in self.settings_map

    @property
    def exemptions(self):
        u, c, o = self.user, self.cmd, self.opt
        out = []
        if u["uid"] == u["euid"]:
            out.append("root")
        if not self.to_user and not self.to_group:
            out.append("self")
        if path_parts(c["command"]) == path_parts(o["binary_path"]):
            out.append("approve")
        if not (c["iolog_ttyout"] or c["iolog_stdout"] or c["iolog_stderr"]):
            out.append("nolog")
        if set(u["groups"]) & o["gids_exempted"]:
            out.append("from")
        if not (self.gids & o["gids_enforced"]):
            out.append("target")
        return out

    @property
    def decision(self):
        """bad | version | exempt | both | pair | refuse"""
        if self.bad:
            return "bad"
        if self.cmd["command"] == b"":
            return "version"
        if self.exemptions:
            return "exempt"
        if self.to_user and self.explicit_group:
            return "both"
        if not self.to_user and not self.explicit_group:
            return "refuse"      # a new primary group nobody asked for: nobody could approve it
        return "pair"

    @property
    def sock_name(self):
        return b"%d.%d.sock" % (self.user["uid"], self.user["pid"])

    @property
    def sock_path(self):
        return join(self.opt["socket_dir"], self.sock_name)

    @property
    def sock_owner(self):
        """(uid or None, gid or None, mode)"""
        return (self.cmd["runas_euid"] if self.to_user else None,
                self.cmd["runas_egid"] if self.explicit_group else None,
                0o200 if self.to_user else 0o020)

    @property
    def invocation(self):
        f = flags(self.settings)
        return b" ".join([self.settings["progname"].encode()] + f + self.argv)

    @property
    def cwd(self):
        return self.cmd["cwd"] if self.cmd["cwd"] is not None else self.user["cwd"].encode()

    @property
    def expansions(self):
        u = self.user
        bp = self.opt["binary_path"]
        parts = path_parts(bp)[1]
        name = parts[-1] if parts and parts[-1] != b".." else bp
        return {b"b": name, b"B": bp, b"C": self.invocation, b"d": self.cwd, b"h": u["host"].encode(), b"H": str(u["lines"]).encode(),
                b"g": str(u["gid"]).encode(), b"p": str(u["pid"]).encode(), b"u": str(u["uid"]).encode(), b"U": u["user"].encode(),
                b"W": str(u["cols"]).encode()}

    def expand(self, template):
        return expand(template, self.expansions)


def kvlist(v):
    if isinstance(v, dict):
        from sim import kv
        return kv(v)
    return v


def expand(template, exp):
    out = bytearray()
    i = 0
    while i < len(template):
        c = template[i:i + 1]
        if c != b"%":
            out += c
            i += 1
            continue
        if i + 1 == len(template):
            break                     # a lone trailing % is dropped (documented)
        d = template[i + 1:i + 2]
        out += exp.get(d, d)
        i += 2
    return bytes(out)


def error_text(*lines):
    """how an error is shown: a newline, then one tagged line per cause"""
    return b"\n" + b"".join(NAME + b": " + l + b"\n" for l in lines)


def winsize(l, c):
    return b"\x1b[8;%d;%dt" % (l, c)
