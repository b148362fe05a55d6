"""sudo, as far as the whole-system check needs it: loads the plugin and obeys lines on its input.

Says on its output, one JSON object a line, what the plugin prints and returns."""
import ctypes as C, json, os, sys

spec = json.load(open(sys.argv[1]))
P = C.c_void_p
LOG = C.CFUNCTYPE(C.c_int, P, C.c_uint, P)
KINDS = ["ttyin", "ttyout", "stdin", "stdout", "stderr"]


class Table(C.Structure):
    _fields_ = [("type", C.c_uint), ("version", C.c_uint), ("open", C.CFUNCTYPE(C.c_int, C.c_uint, P, P, P, P, P, C.c_int, P, P, P, P)),
                ("close", C.CFUNCTYPE(None, C.c_int, C.c_int)), ("show_version", C.CFUNCTYPE(C.c_int, C.c_int))] + [(k, LOG) for k in KINDS] + \
               [("register_hooks", P), ("deregister_hooks", P), ("change_winsize", C.CFUNCTYPE(C.c_int, C.c_uint, C.c_uint, P))]


def say(**k):
    os.write(1, (json.dumps(k) + "\n").encode())


def printf(level, fmt, arg):
    f = C.string_at(fmt)
    s = C.string_at(arg) if f == b"%s" else f
    say(print=s.hex(), level=level)
    return len(s)


def vec(v):
    a = (C.c_char_p * (len(v) + 1))(*[bytes.fromhex(x) for x in v], None)
    keep.append(a)
    return C.cast(a, P)


keep = []
cb = C.CFUNCTYPE(C.c_int, C.c_int, P, P)(printf)
t = Table.in_dll(C.CDLL(spec["lib"]), "sudo_pair")
err = C.c_char_p(None)
for line in sys.stdin:
    w = line.split()
    if w[0] == "open":
        say(ret=t.open(1 << 16 | 17, None, C.cast(cb, P), vec(spec["settings"]), vec(spec["user_info"]), vec(spec["command_info"]), len(spec["argv"]), vec(spec["argv"]),
                       vec(spec["user_env"]), vec(spec["plugin_options"]), C.cast(C.byref(err), P)))
    elif w[0] == "log":
        b = bytes.fromhex(w[2]) if len(w) > 2 else b""
        x = C.create_string_buffer(b, len(b) or 1)
        say(ret=getattr(t, w[1])(C.cast(x, P), len(b), None))
    elif w[0] == "winsize":
        say(ret=t.change_winsize(int(w[1]), int(w[2]), None))
    elif w[0] == "close":
        t.close(0, 0)
        say(ret=0)
