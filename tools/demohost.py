"""A small stand-in for sudo: loads the built plugin, opens a session, plays the pair.

Everything happens below a scratch directory made by the demonstration, in a
forked child, so each session starts from a fresh copy of the plugin's state.
"""
import ctypes as C, os, socket, stat, sys, tempfile, threading, time, shutil, traceback

LIB = os.path.join(os.getcwd(), 'target/debug/libsudo_pair.so')
PRINTF = C.CFUNCTYPE(C.c_int, C.c_int, C.c_void_p, C.c_void_p)
PP = C.c_void_p
OPEN = C.CFUNCTYPE(C.c_int, C.c_uint, PP, PP, PP, PP, PP, C.c_int, PP, PP, PP, PP)
LOG = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_uint, PP)
FIELDS = ['log_ttyin', 'log_ttyout', 'log_stdin', 'log_stdout', 'log_stderr']

class Table(C.Structure):
    _fields_ = [('type', C.c_uint), ('version', C.c_uint), ('open', OPEN),
                ('close', C.CFUNCTYPE(None, C.c_int, C.c_int)),
                ('show_version', C.CFUNCTYPE(C.c_int, C.c_int))] + \
               [(f, LOG) for f in FIELDS] + \
               [('register_hooks', PP), ('deregister_hooks', PP),
                ('change_winsize', C.CFUNCTYPE(C.c_int, C.c_uint, C.c_uint, PP)),
                ('log_suspend', PP), ('event_alloc', PP)]

def arr(entries):
    entries = [e if isinstance(e, bytes) else e.encode() for e in entries]
    a = (C.c_char_p * (len(entries) + 1))(*entries, None)
    return a

class Sudo:
    def __init__(self, lib=None, symbol='sudo_pair', printf_fails=False, no_printf=False):
        self.lib = C.CDLL(lib or LIB)
        self.t = Table.in_dll(self.lib, symbol)
        self.prints = []
        def p(level, fmt, arg):
            f = C.string_at(fmt)
            if printf_fails:
                return -1
            s = C.string_at(arg) if f == b'%s' else f
            self.prints.append((level, s))
            return len(s)
        self._p = PRINTF(p)
        self.printf = None if no_printf else C.cast(self._p, PP)
        self.keep = []
    def text(self, level=None):
        return b''.join(s for l, s in self.prints if level is None or l == level)
    def open(self, settings, user, cmd, argv, opts, env=(), version=0x10011):
        a = [arr(x) for x in (settings, user, cmd, argv, env, opts)]
        self.keep.append(a)
        err = C.c_char_p(None)
        v = lambda x: C.cast(x, PP)
        return self.t.open(version, None, self.printf, v(a[0]), v(a[1]), v(a[2]), len(argv),
                           v(a[3]), v(a[4]), v(a[5]), C.cast(C.byref(err), PP))
    def log(self, name, data):
        b = C.create_string_buffer(data, len(data) or 1)
        return getattr(self.t, 'log_' + name)(C.cast(b, PP), len(data), None)
    def winsize(self, l, c): return self.t.change_winsize(l, c, None)
    def close(self, st=0, e=0): self.t.close(st, e)
    def version(self, v=0): return self.t.show_version(v)

class World:
    """Scratch directory and the arguments of a session that needs a pair."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='spdemo.')
        os.chmod(self.dir, 0o755)
        self.sock = os.path.join(self.dir, 'd')
        os.mkdir(self.sock, 0o755)
        self.user_prompt = self.file('u', b'user prompt\n')
        self.pair_prompt = self.file('p', b'PROMPT>')
        self.pid, self.uid, self.gid = 4242, 1000, 1000
    def file(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, 'wb') as f: f.write(data)
        return p
    @property
    def path(self): return os.path.join(self.sock, '%d.%d.sock' % (self.uid, self.pid))
    def settings(self, *more): return ['progname=sudo', 'plugin_dir=/usr/lib', 'plugin_path=sudo_pair.so', 'network_addrs=127.0.0.1/255.0.0.0'] + list(more)
    def user(self, **kw):
        d = dict(user='alice', pid=self.pid, ppid=1, pgid=1, tcpgid=1, sid=1, uid=self.uid, euid=os.geteuid(),
                 gid=self.gid, egid=os.getegid(), groups='1000', cwd='/home/alice', host='box', lines=24, cols=80)
        d.update(kw)
        return ['%s=%s' % i if isinstance(i[1], (str, int)) else i[0].encode() + b'=' + i[1] for i in d.items() if i[1] is not None]
    def cmd(self, **kw):
        d = dict(command='/bin/ls', runas_uid=0, runas_gid=0, runas_euid=0, runas_egid=0, runas_groups='0',
                 iolog_ttyout='true', iolog_stdout='true', iolog_stderr='true', iolog_ttyin='true', iolog_stdin='true')
        d.update(kw)
        return ['%s=%s' % i if isinstance(i[1], (str, int)) else i[0].encode() + b'=' + i[1] for i in d.items() if i[1] is not None]
    def opts(self, **kw):
        d = dict(binary_path='/usr/bin/sudo_approve', user_prompt_path=self.user_prompt,
                 pair_prompt_path=self.pair_prompt, socket_dir=self.sock)
        d.update(kw)
        return ['%s=%s' % i for i in d.items() if i[1] is not None]
    def open(self, sudo, settings=None, user=None, cmd=None, argv=('ls',), opts=None, **kw):
        return sudo.open(settings if settings is not None else self.settings(),
                         user if user is not None else self.user(), cmd if cmd is not None else self.cmd(),
                         list(argv), opts if opts is not None else self.opts(), **kw)
    def pair(self, answer=b'y', path=None, collect=True, timeout=10, before=None):
        """The pair, in a forked child; .result() gives what it received until EOF."""
        return Pair(path or self.path, answer, timeout, before)
    def clean(self): shutil.rmtree(self.dir, ignore_errors=True)

class Pair:
    def __init__(self, path, answer, timeout, before):
        r, w = os.pipe()
        self.r = r
        self.pid = os.fork()
        if self.pid:
            os.close(w); return
        try:
            os.close(r)
            if RESULT: os.close(RESULT.pop())
            end = time.time() + timeout
            got = b''
            s = None
            while s is None and time.time() < end:
                s2 = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                try:
                    s2.connect(path); s = s2
                except OSError:
                    s2.close(); time.sleep(0.005)
            if s is None: os._exit(3)
            if before: before()
            s.settimeout(timeout)
            if callable(answer):
                got = answer(s) or b''
            else:
                time.sleep(0.05)
                if answer: s.sendall(answer)
                if answer == b'':
                    s.shutdown(socket.SHUT_WR)
                while True:
                    try: b = s.recv(65536)
                    except OSError: break
                    if not b: break
                    got += b
            while got:
                n = os.write(w, got); got = got[n:]
        finally:
            os._exit(0)
    def result(self):
        b = b''
        while True:
            x = os.read(self.r, 65536)
            if not x: break
            b += x
        os.close(self.r)
        os.waitpid(self.pid, 0)
        return b

RESULT = []

def child(f, seconds=30):
    """Runs f in a forked child; returns its result, or None if it crashed or hung."""
    import pickle, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            RESULT[:] = [w]
            signal.alarm(seconds)
            d = pickle.dumps(f())
            while d:
                n = os.write(w, d); d = d[n:]
        except BaseException:
            traceback.print_exc()
            os._exit(2)
        os._exit(0)
    os.close(w)
    d = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        d += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return pickle.loads(d) if st == 0 and d else None

def run(f):
    """Runs a demonstration: f(world) returns None if all is well, else what is wrong."""
    w = World()
    try:
        bad = f(w)
    finally:
        w.clean()
    if bad:
        print('BROKEN:', bad); sys.exit(1)
    print('ok'); sys.exit(0)
