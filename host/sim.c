/*
 * sim: a stand-in for the sudo(8) front end, and a syscall-boundary monitor.
 *
 * The plugin shared object is loaded the way sudo loads it (dlopen, look up the
 * exported struct io_plugin, call its callbacks over the C ABI).  Every scenario
 * runs in a fresh forked child (so the plugin's statics are pristine); the parent
 * traces that child with ptrace and, at every system-call boundary,
 *   - records the call (number, arguments, result),
 *   - snapshots the socket directory (name/type/owner/group/mode of each entry),
 *   - optionally attacks the socket with the credentials of an outsider,
 *   - optionally injects a fault (errno, short count) or a signal,
 *   - plays the pair: connects, reads, answers, hangs up, as scripted.
 * Everything is written out as one JSON line per scenario; the verdict is decided
 * by the oracles in /verif/lib, never here.
 *
 * Protocol (stdin, one directive per line; strings are hex, "-" is empty):
 *   scenario ID / ... / end
 *   env IDX; vec NAME NULL|n hex...; ver N; argc N
 *   printf MODE(0 normal,1 NULL,2 returns -1)
 *   watch DIR; sock PATH; umask OCT; sigint restart|norestart|ignore|default
 *   sigpipe ign|dfl|hand; trace 0|1; guard 0|1; drain idle|always|op; seed N
 *   shortw N (max bytes per socket write); shortf N (the same for other files, some writes interrupted); eintrw PCT; storm PCT
 *   age N (up to N seconds go by before each callback); the action `pass N` lets N seconds go by
 *   others 1 restart|2 not (sudo handles a dozen other signals, and storms have them too)
 *   probe UID GID; syslog 0|1; creds UID EUID GID; cwd DIR; fillfd N; free 0|1
 *   inject OP N errno E | inject OP N ret R | inject OP N sig S | inject OP N cap C
 *   failnr OP K E COUNT NR... (the Kth call in OP that is one of these system calls; K 0: all)
 *   inject OP N perm E (that call and every later one of its kind in OP)
 *   canary HEX (report every system call that is about to write these bytes, and where to)
 *   op open IDX | op log KIND HEX | op winsize L C | op close ST ERR | op ver V
 *   op fork (a process forked from sudo that goes on living, as sudo's monitor does)
 *   logfail 1 connects|2 sends|3 either half of the time ERRNO
 *   saflags N (more flags of sudo's interrupt handler); blocked MASK (signals sudo has blocked)
 *   fast 1 (finite timeouts expire at once, and the plugin's clock moves on by as much: hours pass in no time)
 *   pause OP N PATH (hand over to whoever reads PATH.go, until PATH.back is written)
 *   step TRIGGER ACTION...   (TRIGGER: now block idle exists at:OP:N op:K ret:K, slow: long after anything finite has expired, data: the pair has received something)
 *     ACTION: connect [UID GID] | send HEX | recv | shutwr | shutrd | close | rst | sig N | kill
 *             | note | try [UID GID] (connect and hang up) | extra HEX (a further client)
 *             | sock HEX (from now on connect there)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/resource.h>
#include <grp.h>
#include <limits.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/fsuid.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/ptrace.h>

#include "sudo_plugin.h" /* pristine copy of the sudo 1.9 plugin ABI, kept in /verif/host */

#define MARK_BEGIN 0x10001
#define MARK_END   0x10002
#define MARK_PRIOR 0x10003
#define MAXOPS 4096
#define MAXSTEPS 1024
#define MAXENV 64
#define NVEC 6

static const char *vecname[NVEC] = { "settings", "user_info", "command_info", "argv", "user_env", "plugin_options" };

typedef struct { int isnull; int n; unsigned char **s; size_t *len; } vec_t;
typedef struct { vec_t v[NVEC]; unsigned ver; int argc; int argc_set; } env_t;

enum { OP_OPEN, OP_LOG, OP_WINSIZE, OP_CLOSE, OP_VER, OP_FORK };
typedef struct { int type; int kind; unsigned char *data; size_t len; long a, b; } op_t;

enum { TR_NOW, TR_BLOCK, TR_IDLE, TR_EXISTS, TR_AT, TR_OP, TR_RET, TR_DATA, TR_SLOW };
enum { AC_CONNECT, AC_SEND, AC_RECV, AC_SHUTWR, AC_SHUTRD, AC_CUT, AC_CLOSE, AC_SIG, AC_KILL, AC_NOTE, AC_RST, AC_TRY, AC_EXTRA, AC_SOCK, AC_PASS };
typedef struct { int tr; int op, n; int ac; long a, b; unsigned char *data; size_t len; int fired; } step_t;

enum { IN_ERRNO, IN_RET, IN_SIG, IN_CAP, IN_PERM };
typedef struct { int op, n, kind; long v, nr; } inj_t;

static struct {
    char id[128];
    env_t env[MAXENV];
    int ncan; unsigned char *can[24]; size_t canlen[24];     /* what to look for in everything written */
    int prior; char priorsock[256]; unsigned char *priorsay; size_t npriorsay;   /* env, socket and answer of a session before the first operation */
    op_t op[MAXOPS]; int nops;
    step_t step[MAXSTEPS]; int nsteps;
    inj_t inj[256]; int ninj;
    char watch[PATH_MAX], sock[PATH_MAX], cwd[PATH_MAX];
    unsigned umask_; int sigint, sigpipe, trace, guard, drain, printf_mode;
    unsigned long seed; int shortw, shortf, age, eintrw, storm, others, probe, syslog_, creds, fillfd, freerun;
    uid_t puid; gid_t pgid; uid_t cruid, ceuid; gid_t cgid;
    int logfail; long logerr;
    int fop, fk, fseen, nfnr; long ferr, fnr[24];
    int fast, saflags; unsigned long blocked; int pause_op, pause_n, pause_done; char pause_path[PATH_MAX];
} S;

/* ---------- shared log between child and tracer ---------- */
typedef struct { _Atomic long skew; _Atomic unsigned long seq; _Atomic size_t used; _Atomic long sigints; _Atomic int done; char buf[]; } shm_t;
#define SHM_SZ (48u << 20)
static shm_t *shm;

/* the plugin's clock (this definition comes before the C library's) */
#ifndef NO_CLOCK
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = (int)syscall(SYS_clock_gettime, c, t);
    if (!r && shm && (c == CLOCK_MONOTONIC || c == CLOCK_REALTIME || c == CLOCK_BOOTTIME)) {
        long k = atomic_load(&shm->skew);
        t->tv_sec += k / 1000000000L; t->tv_nsec += k % 1000000000L;
        if (t->tv_nsec >= 1000000000L) { t->tv_sec++; t->tv_nsec -= 1000000000L; }
    }
    return r;
}
#endif

static struct io_plugin *plugin;

/* ---------- output builder ---------- */
static char *ob; static size_t on, oc;
static void oput(const char *s, size_t n) {
    if (on + n + 1 > oc) { oc = (on + n + 1) * 2; ob = realloc(ob, oc); if (!ob) abort(); }
    memcpy(ob + on, s, n); on += n; ob[on] = 0;
}
static void of(const char *f, ...) {
    char t[8192]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap);
    if (n > (int)sizeof t - 1) n = sizeof t - 1;
    oput(t, n);
}
static void ostr(const char *s) {
    oput("\"", 1);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { char b[2] = { '\\', c }; oput(b, 2); }
        else if (c < 32 || c > 126) of("\\u%04x", c);
        else oput((char *)&c, 1);
    }
    oput("\"", 1);
}

/* events are kept apart and joined at the end */
static char *evb; static size_t evn, evc; static int evcount;
static void ev(const char *f, ...) {
    char t[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap);
    if (n > (int)sizeof t - 1) n = sizeof t - 1;
    if (evn + n + 64 > evc) { evc = (evn + n + 64) * 2; evb = realloc(evb, evc); if (!evb) abort(); }
    evn += sprintf(evb + evn, "%s{\"t\":%lu,", evcount++ ? "," : "", atomic_fetch_add(&shm->seq, 1));
    memcpy(evb + evn, t, n); evn += n; evb[evn++] = '}'; evb[evn] = 0;
}
static void ev_hex(const char *k, const unsigned char *p, size_t n, const char *more) {
    static const char h[] = "0123456789abcdef";
    if (evn + n * 2 + 256 > evc) { evc = (evn + n * 2 + 256) * 2; evb = realloc(evb, evc); if (!evb) abort(); }
    evn += sprintf(evb + evn, "%s{\"t\":%lu,\"e\":\"%s\",%s\"d\":\"", evcount++ ? "," : "", atomic_fetch_add(&shm->seq, 1), k, more);
    for (size_t i = 0; i < n; i++) { evb[evn++] = h[p[i] >> 4]; evb[evn++] = h[p[i] & 15]; }
    evb[evn++] = '"'; evb[evn++] = '}'; evb[evn] = 0;
}

/* ---------- child side: the sudo front end ---------- */
static int cur_op;
static void chlog(const char *f, ...) {
    char t[2048]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap);
    if (n > (int)sizeof t - 1) n = sizeof t - 1;
    size_t at = atomic_fetch_add(&shm->used, n);
    if (at + n < SHM_SZ - sizeof *shm) memcpy(shm->buf + at, t, n);
}
static void chlog_printf_event(int level, const char *buf, size_t n, int ret) {
    static const char h[] = "0123456789abcdef";
    chlog("{\"t\":%lu,\"e\":\"printf\",\"op\":%d,\"level\":%d,\"ret\":%d,\"d\":\"", atomic_fetch_add(&shm->seq, 1), cur_op, level, ret);
    size_t at = atomic_fetch_add(&shm->used, n * 2);
    if (at + n * 2 < SHM_SZ - sizeof *shm)
        for (size_t i = 0; i < n; i++) { shm->buf[at + 2 * i] = h[(unsigned char)buf[i] >> 4]; shm->buf[at + 2 * i + 1] = h[(unsigned char)buf[i] & 15]; }
    chlog("\"},");
}
static char pfbuf[1 << 20];
static long pf_calls;
static int sim_printf(int level, const char *fmt, ...) {
    if (++pf_calls > 20000) { chlog("{\"t\":%lu,\"e\":\"runaway\",\"op\":%d},", atomic_fetch_add(&shm->seq, 1), cur_op); _exit(96); }
    if (S.printf_mode == 2 && cur_op != -2) { errno = EIO; chlog_printf_event(level, "", 0, -1); return -1; }
    va_list ap; va_start(ap, fmt); int n = vsnprintf(pfbuf, sizeof pfbuf, fmt, ap); va_end(ap);
    if (cur_op == -2) return n;
    if (n < 0) { chlog_printf_event(level, "", 0, n); return n; }
    chlog_printf_event(level, pfbuf, n < (int)sizeof pfbuf ? n : (int)sizeof pfbuf - 1, n);
    return n;
}
static int sim_conv(int n, const struct sudo_conv_message m[], struct sudo_conv_reply r[], struct sudo_conv_callback *cb) {
    (void)n; (void)m; (void)r; (void)cb;
    chlog("{\"t\":%lu,\"e\":\"conv\",\"op\":%d},", atomic_fetch_add(&shm->seq, 1), cur_op);
    return -1;
}
static const int others[] = { SIGHUP, SIGQUIT, SIGUSR1, SIGUSR2, SIGALRM, SIGTERM, SIGCHLD, SIGCONT, SIGTSTP, SIGURG, SIGWINCH, SIGIO };
static void on_pipe(int n) { (void)n; }
static void on_other(int s) { (void)s; }
static void on_sigint(int s) { (void)s; atomic_fetch_add(&shm->sigints, 1); }

static struct { char *base; size_t sz; } arena[8192]; static int narena;
static struct { char *p; size_t n; } heap[8192]; static int nheap;
static char *place(const unsigned char *p, size_t n) {
    if (!S.guard) { char *m = malloc(n + 1); memcpy(m, p, n); m[n] = 0; if (nheap < 8192) { heap[nheap].p = m; heap[nheap++].n = n + 1; } return m; }
    size_t pg = 4096, need = (n + 1 + pg - 1) / pg * pg;
    char *b = mmap(0, need + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) abort();
    mprotect(b + need, pg, PROT_NONE);
    char *d = b + need - (n + 1);
    memcpy(d, p, n); d[n] = 0;
    if (narena < 8192) { arena[narena].base = b; arena[narena++].sz = need; }
    return d;
}
static char *place_raw(const void *p, size_t n) { /* exactly n bytes, nothing readable after */
    size_t pg = 4096, need = (n + pg - 1) / pg * pg; if (!need) need = pg;
    char *b = mmap(0, need + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) abort();
    mprotect(b + need, pg, PROT_NONE);
    char *d = b + need - n; memcpy(d, p, n);
    if (narena < 8192) { arena[narena].base = b; arena[narena++].sz = need; }
    return d;
}
static void poison(void) {
    for (int i = 0; i < nheap; i++) { memset(heap[i].p, 0xA5, heap[i].n); free(heap[i].p); }
    nheap = 0;
    for (int i = 0; i < narena; i++) mprotect(arena[i].base, arena[i].sz, PROT_NONE);
    narena = 0;
}
static char **place_vec(const vec_t *v) {
    if (v->isnull) return NULL;
    char **a = malloc((v->n + 1) * sizeof *a);
    for (int i = 0; i < v->n; i++) a[i] = place(v->s[i], v->len[i]);
    a[v->n] = NULL;
    if (!S.guard) { if (nheap < 8192) { heap[nheap].p = (char *)a; heap[nheap++].n = (v->n + 1) * sizeof *a; } return a; }
    char **g = (char **)place_raw(a, (v->n + 1) * sizeof *a);
    free(a);
    return g;
}
static void mark(long nr, long a, long b) { syscall(nr, a, b); }

static void child_state(int k) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sigaction(SIGINT, NULL, &sa);
    const char *h = sa.sa_handler == on_sigint ? "sim" : sa.sa_handler == SIG_IGN ? "ign" : sa.sa_handler == SIG_DFL ? "dfl" : "other";
    sigset_t bl; sigprocmask(SIG_BLOCK, NULL, &bl);
    int mhash = 0; for (int i = 1; i < 32; i++) if (sigismember(&sa.sa_mask, i)) mhash |= 1 << (i - 1);
    int bhash = 0; for (int i = 1; i < 32; i++) if (sigismember(&bl, i)) bhash |= 1 << (i - 1);
    mode_t um = umask(0); umask(um);
    struct stat cw; memset(&cw, 0, sizeof cw); stat(".", &cw);
    struct mallinfo2 mi = mallinfo2();
    /* the rest of what a process has */
    unsigned long hs = 5381, hi = 5381, he = 5381, hl = 5381, hp = 5381;
#define MIX(h, p, n) do { const unsigned char *q_ = (const void *)(p); for (size_t i_ = 0; i_ < (n); i_++) h = h * 33 ^ q_[i_]; } while (0)
    for (int i = 1; i < 65; i++) {
        struct sigaction o; memset(&o, 0, sizeof o);
        if (i == SIGINT || i == 32 || i == 33 || sigaction(i, NULL, &o)) continue;
        MIX(hs, &o.sa_handler, sizeof o.sa_handler); MIX(hs, &o.sa_flags, sizeof o.sa_flags); MIX(hs, &o.sa_mask, 8);
    }
    uid_t u3[3]; gid_t g3[3], gl[256]; getresuid(u3, u3 + 1, u3 + 2); getresgid(g3, g3 + 1, g3 + 2);
    int ng = getgroups(256, gl); if (ng < 0) ng = 0;
    MIX(hi, u3, sizeof u3); MIX(hi, g3, sizeof g3); MIX(hi, gl, ng * sizeof *gl);
    { int fu = setfsuid(-1), fg = setfsgid(-1), x[] = { fu, fg, getsid(0), getpgrp(), getppid() }; MIX(hi, x, sizeof x); }
    for (char **e = environ; e && *e; e++) MIX(he, *e, strlen(*e) + 1);
    for (int i = 0; i < RLIM_NLIMITS; i++) { struct rlimit l; memset(&l, 0, sizeof l); getrlimit(i, &l); MIX(hl, &l, sizeof l); }
    { int x[] = { getpriority(PRIO_PROCESS, 0), prctl(PR_GET_DUMPABLE, 0, 0, 0, 0), prctl(PR_GET_NO_NEW_PRIVS, 0, 0, 0, 0), prctl(PR_GET_KEEPCAPS, 0, 0, 0, 0), prctl(PR_GET_PDEATHSIG, (unsigned long)&ng, 0, 0, 0), ng * 0 };
      MIX(hp, x, sizeof x); char nm[17] = ""; prctl(PR_GET_NAME, nm, 0, 0, 0); MIX(hp, nm, strlen(nm)); }
    struct stat rt, tk; memset(&rt, 0, sizeof rt); memset(&tk, 0, sizeof tk); stat("/", &rt); stat("/proc/self/task", &tk);
    struct itimerval it; memset(&it, 0, sizeof it); getitimer(ITIMER_REAL, &it);
    chlog("{\"t\":%lu,\"e\":\"state\",\"sigs\":%u,\"ids\":%u,\"env\":%u,\"limits\":%u,\"proc\":%u,\"root\":%lu,\"tasks\":%lu,\"timer\":%d", atomic_fetch_add(&shm->seq, 1), (unsigned)hs, (unsigned)hi, (unsigned)he, (unsigned)hl, (unsigned)hp,
          (unsigned long)rt.st_ino, (unsigned long)tk.st_nlink, it.it_value.tv_sec || it.it_value.tv_usec || it.it_interval.tv_sec);
#undef MIX
    chlog(",\"t2\":%lu,\"op\":%d,\"sigint\":\"%s\",\"flags\":%d,\"samask\":%d,\"blocked\":%d,\"umask\":%d,\"euid\":%d,\"egid\":%d,\"sigints\":%ld,\"cwd\":%lu,\"heap\":%lu},",
         atomic_fetch_add(&shm->seq, 1), k, h, (int)(sa.sa_flags & ~0x04000000), mhash, bhash, um, geteuid(), getegid(), atomic_load(&shm->sigints), (unsigned long)cw.st_ino, (unsigned long)mi.uordblks);
}

static void run_child(void) {
    struct rlimit rl = { 10, 12 };
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 1; setrlimit(RLIMIT_CORE, &rl);   /* too small for a core file, yet not 0: a change would show */
    if (S.fillfd) {
        struct rlimit nf; getrlimit(RLIMIT_NOFILE, &nf);
        if (nf.rlim_cur < (rlim_t)S.fillfd + 64) { nf.rlim_cur = nf.rlim_max < (rlim_t)S.fillfd + 64 ? nf.rlim_max : (rlim_t)S.fillfd + 64; setrlimit(RLIMIT_NOFILE, &nf); }
        for (int i = 0; i < S.fillfd && (rlim_t)i + 32 < nf.rlim_cur; i++) if (fcntl(1, F_DUPFD, 0) < 0) break;
    }
    if (S.cwd[0] && chdir(S.cwd)) _exit(98);
    if (S.creds) {
        if (setgroups(0, NULL) || setresgid(S.cgid, S.cgid, S.cgid)) _exit(99);
        if (setresuid(S.cruid, S.ceuid, S.ceuid)) _exit(99);
    }
    umask(S.umask_);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    if (S.sigint == 2) sa.sa_handler = SIG_IGN, sa.sa_flags = SA_RESTART;     /* as signal(3) does it */
    else if (S.sigint == 3) { sa.sa_handler = SIG_DFL; sa.sa_flags = SA_RESTART; sigaddset(&sa.sa_mask, SIGINT); }
    else { sa.sa_handler = on_sigint; sa.sa_flags = (S.sigint == 0 ? SA_RESTART : 0) | S.saflags; sigaddset(&sa.sa_mask, SIGQUIT); }
    sigaction(SIGINT, &sa, NULL);
    if (S.others) {
        struct sigaction so; memset(&so, 0, sizeof so); so.sa_handler = on_other; so.sa_flags = S.others == 1 ? SA_RESTART : 0;
        for (unsigned i = 0; i < sizeof others / sizeof *others; i++) sigaction(others[i], &so, NULL);
    }
    sigset_t bl; sigemptyset(&bl); for (int i = 1; i < 32; i++) if (S.blocked >> (i - 1) & 1) sigaddset(&bl, i);
    sigprocmask(SIG_BLOCK, &bl, NULL);
    if (S.sigpipe == 2) {
        struct sigaction sp; memset(&sp, 0, sizeof sp); sp.sa_handler = on_pipe; sp.sa_flags = SA_RESTART | (S.saflags & ~4); sigaddset(&sp.sa_mask, SIGHUP);
        sigaction(SIGPIPE, &sp, NULL);
    } else signal(SIGPIPE, S.sigpipe ? SIG_DFL : SIG_IGN);
    if (S.prior && !S.freerun && !S.syslog_) {       /* an earlier session in the same process, over before this one begins */
        env_t *e = &S.env[S.prior];
        char **v[NVEC];
        const char *errstr = NULL;
        cur_op = -2;
        for (int i = 0; i < NVEC; i++) v[i] = place_vec(&e->v[i]);
        mark(MARK_PRIOR, 1, 0);
        int ok = plugin->open(e->ver, sim_conv, sim_printf, v[0], v[1], v[2], e->argc_set ? e->argc : e->v[3].isnull ? 0 : e->v[3].n, v[3], v[4], v[5], &errstr);
        if (ok == 1) {
            if (plugin->log_ttyout) plugin->log_ttyout("before", 6, &errstr);
            if (plugin->change_winsize) plugin->change_winsize(24, 80, &errstr);
            if (plugin->close) plugin->close(0, 0);
        }
        mark(MARK_PRIOR, 0, 0);
        poison();
    }
    child_state(-1);
    sudo_printf_t pf = S.printf_mode == 1 ? NULL : sim_printf;
    for (int k = 0; k < S.nops; k++) {
        op_t *o = &S.op[k];
        cur_op = k;
        const char *errstr = NULL;
        int ret = 0;
        if (o->type == OP_OPEN) {
            env_t *e = &S.env[o->a];
            char **v[NVEC];
            for (int i = 0; i < NVEC; i++) v[i] = place_vec(&e->v[i]);
            int argc = e->argc_set ? e->argc : e->v[3].isnull ? 0 : e->v[3].n;
            mark(MARK_BEGIN, k, 0);
            ret = plugin->open(e->ver, sim_conv, pf, v[0], v[1], v[2], argc, v[3], v[4], v[5], &errstr);
            mark(MARK_END, k, ret);
            poison();
        } else if (o->type == OP_LOG) {
            char *b = S.guard ? place_raw(o->data, o->len) : (char *)o->data;
            if (!S.guard && o->len < 4096) { b = malloc(o->len + 1); memcpy(b, o->data, o->len); if (nheap < 8192) { heap[nheap].p = b; heap[nheap++].n = o->len; } }
            int (*f)(const char *, unsigned, const char **) = NULL;
            switch (o->kind) {
            case 0: f = plugin->log_ttyin; break;
            case 1: f = plugin->log_ttyout; break;
            case 2: f = plugin->log_stdin; break;
            case 3: f = plugin->log_stdout; break;
            case 4: f = plugin->log_stderr; break;
            }
            mark(MARK_BEGIN, k, 0);
            for (long q = 0; q < (o->b ? o->b : 1); q++) { ret = f ? f(b, o->len, &errstr) : -99; if (ret != 1) break; }
            mark(MARK_END, k, ret);
            poison();
        } else if (o->type == OP_WINSIZE) {
            mark(MARK_BEGIN, k, 0);
            ret = plugin->change_winsize ? plugin->change_winsize(o->a, o->b, &errstr) : -99;
            mark(MARK_END, k, ret);
        } else if (o->type == OP_CLOSE) {
            mark(MARK_BEGIN, k, 0);
            if (plugin->close) plugin->close(o->a, o->b);
            mark(MARK_END, k, 0);
        } else if (o->type == OP_VER) {
            mark(MARK_BEGIN, k, 0);
            ret = plugin->show_version ? plugin->show_version(o->a) : -99;
            mark(MARK_END, k, ret);
        } else if (o->type == OP_FORK) {
            pid_t me = getpid(), h = fork();
            if (h == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(0); signal(SIGINT, SIG_IGN); for (;;) pause(); }
            ret = h > 0 ? 0 : -1;
        }
        chlog("{\"t\":%lu,\"e\":\"ret\",\"op\":%d,\"ret\":%d},", atomic_fetch_add(&shm->seq, 1), k, ret);
        child_state(k);
    }
    atomic_store(&shm->done, 1);
    _exit(0);
}

/* ---------- tracer side ---------- */
static pid_t cpid;
static int pairfd = -1, pair_eof, pair_gone; static size_t pair_got;
static unsigned long rng;
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 11); }
static double now(void) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static void become(uid_t u, gid_t g) { syscall(SYS_setgroups, 0, NULL); setfsgid(g); setfsuid(u); }
static void unbecome(void) { setfsuid(0); setfsgid(0); }

static int try_connect(const char *path, uid_t u, gid_t g, int drop) {
    int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
    snprintf(a.sun_path, sizeof a.sun_path, "%s", path);
    if (drop) become(u, g);
    int r = connect(fd, (struct sockaddr *)&a, sizeof a), e = errno;
    if (drop) unbecome();
    if (r) { close(fd); errno = e; return -e; }
    return fd;
}
static void drain(void) {
    static unsigned char b[1 << 18];
    if (pairfd < 0) return;
    for (;;) {
        ssize_t n = recv(pairfd, b, sizeof b, MSG_DONTWAIT);
        if (n > 0) { pair_got += n; char m[32]; sprintf(m, "\"op\":%d,", cur_op); ev_hex("recv", b, n, m); continue; }
        if (n == 0 && !pair_eof) { pair_eof = 1; ev("\"e\":\"eof\",\"op\":%d", cur_op); }
        if (n < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR && !pair_eof) { pair_eof = 1; ev("\"e\":\"rderr\",\"op\":%d,\"errno\":%d", cur_op, errno); }
        return;
    }
}

static char *lastsnap; static int nsnaps;
static char *snb; static size_t snn, snc;
static int sock_present;
static int probe_n, probe_ok;
static int probefd[16];
static void snapshot(int op, int si) {
    if (!S.watch[0]) return;
    static char line[65536]; size_t n = 0; line[0] = 0;
    DIR *d = opendir(S.watch);
    sock_present = 0;
    if (d) {
        struct dirent *e; int c = 0;
        while ((e = readdir(d))) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            struct stat st;
            if (fstatat(dirfd(d), e->d_name, &st, AT_SYMLINK_NOFOLLOW)) continue;
            char ty = S_ISSOCK(st.st_mode) ? 's' : S_ISREG(st.st_mode) ? 'f' : S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : S_ISFIFO(st.st_mode) ? 'p' : '?';
            if (n < sizeof line - 512)
                n += snprintf(line + n, sizeof line - n, "%s[\"%s\",\"%c\",%u,%u,%u,%lu]", c++ ? "," : "", e->d_name, ty, st.st_uid, st.st_gid, st.st_mode & 07777, (unsigned long)st.st_ino);
        }
        closedir(d);
    }
    if (S.sock[0]) { struct stat st; if (!lstat(S.sock, &st) && S_ISSOCK(st.st_mode)) sock_present = 1; }
    if (!lastsnap || strcmp(lastsnap, line)) {
        free(lastsnap); lastsnap = strdup(line);
        size_t need = strlen(line) + 128;
        if (snn + need > snc) { snc = (snn + need) * 2; snb = realloc(snb, snc); if (!snb) abort(); }
        snn += sprintf(snb + snn, "%s{\"t\":%lu,\"op\":%d,\"si\":%d,\"ls\":[%s]}", nsnaps++ ? "," : "", atomic_fetch_add(&shm->seq, 1), op, si, line);
    }
    if (S.probe && sock_present && probe_ok < 8) {
        probe_n++;
        int fd = try_connect(S.sock, S.puid, S.pgid, 1);
        if (fd >= 0) { ev("\"e\":\"probe_connected\",\"op\":%d,\"si\":%d", op, si); send(fd, "y", 1, MSG_NOSIGNAL | MSG_DONTWAIT); probefd[probe_ok++] = fd; }
    }
}

static int extrafd[64], extraeof[64], nextra;
static void drain_extras(void) {
    static unsigned char b[1 << 16];
    for (int i = 0; i < nextra; i++) for (;;) {
        ssize_t n = recv(extrafd[i], b, sizeof b, MSG_DONTWAIT);
        char m[48]; sprintf(m, "\"op\":%d,\"k\":%d,", cur_op, i);
        if (n > 0) { ev_hex("extra_got", b, n, m); continue; }
        if ((n == 0 || (errno != EAGAIN && errno != EINTR)) && !extraeof[i]) { extraeof[i] = 1; ev("\"e\":\"extra_eof\",\"op\":%d,\"k\":%d", cur_op, i); }
        if (n < 0 && errno == EINTR) continue;
        break;
    }
}
static int do_step(step_t *s) { /* returns 1 when it took place */
    switch (s->ac) {
    case AC_CONNECT: {
        int fd = try_connect(S.sock, (uid_t)s->a, (gid_t)s->b, s->a >= 0);
        if (fd < 0) {
            if (s->tr == TR_NOW || s->tr == TR_EXISTS) return 0; /* keep trying */
            ev("\"e\":\"connect_fail\",\"op\":%d,\"errno\":%d", cur_op, -fd);
            s->fired++;
            return s->fired > 3 || fd != -ECONNREFUSED;
        }
        if (pairfd >= 0) { ev("\"e\":\"connect2\",\"op\":%d", cur_op); close(pairfd); }
        pairfd = fd; pair_eof = 0; pair_gone = 0; pair_got = 0;
        ev("\"e\":\"connect\",\"op\":%d", cur_op);
        return 1;
    }
    case AC_SEND:
        if (pairfd >= 0) { drain(); ssize_t n = send(pairfd, s->data, s->len, MSG_NOSIGNAL | MSG_DONTWAIT); char m[64]; sprintf(m, "\"op\":%d,\"n\":%d,", cur_op, (int)n); ev_hex("send", s->data, s->len, m); }
        else ev("\"e\":\"send_nofd\"");
        return 1;
    case AC_RECV: drain(); return 1;
    case AC_SHUTWR: if (pairfd >= 0) shutdown(pairfd, SHUT_WR); ev("\"e\":\"shutwr\",\"op\":%d", cur_op); return 1;
    case AC_SHUTRD: if (pairfd >= 0) { drain(); shutdown(pairfd, SHUT_RD); } ev("\"e\":\"shutrd\",\"op\":%d", cur_op); return 1;
    case AC_CUT: if (pairfd >= 0) shutdown(pairfd, SHUT_RD); ev("\"e\":\"shutrd\",\"op\":%d", cur_op); return 1;
    case AC_CLOSE: if (pairfd >= 0) { drain(); close(pairfd); pairfd = -1; pair_gone = 1; } ev("\"e\":\"hangup\",\"op\":%d", cur_op); return 1;
    case AC_RST: if (pairfd >= 0) { close(pairfd); pairfd = -1; pair_gone = 1; } ev("\"e\":\"hangup_unread\",\"op\":%d", cur_op); return 1;
    case AC_SIG: ev("\"e\":\"signal\",\"op\":%d,\"sig\":%ld", cur_op, s->a); syscall(SYS_tgkill, cpid, cpid, s->a); return 1;
    case AC_KILL: ev("\"e\":\"kill\",\"op\":%d", cur_op); kill(cpid, SIGKILL); return 1;
    case AC_TRY: { int fd = try_connect(S.sock, (uid_t)s->a, (gid_t)s->b, s->a >= 0); ev("\"e\":\"try\",\"op\":%d,\"errno\":%d", cur_op, fd < 0 ? -fd : 0); if (fd >= 0) close(fd); return 1; }
    case AC_EXTRA: {
        int fd = try_connect(S.sock, 0, 0, 0);
        if (fd < 0) { if (s->tr == TR_NOW || s->tr == TR_EXISTS) return 0; ev("\"e\":\"extra_fail\",\"op\":%d,\"errno\":%d", cur_op, -fd); return 1; }
        ev("\"e\":\"extra\",\"op\":%d", cur_op);
        if (s->len) send(fd, s->data, s->len, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (nextra < 64) { extraeof[nextra] = 0; extrafd[nextra++] = fd; } else close(fd);
        return 1;
    }
    case AC_SOCK: snprintf(S.sock, sizeof S.sock, "%s", (char *)s->data); return 1;
    case AC_PASS: ev("\"e\":\"pass\",\"op\":%d,\"s\":%ld", cur_op, s->a); atomic_fetch_add(&shm->skew, s->a * 1000000000L); return 1;
    case AC_NOTE: ev("\"e\":\"note\",\"op\":%d", cur_op); return 1;
    }
    return 1;
}

static int inop, opn, nextstep, rounds, alarmed; static long skew0, sotimeo, pendskew;
#define LONG_PAST (rounds >= 2000 || atomic_load(&shm->skew) - skew0 >= 6L * 3600 * 1000000000L)
enum { AT_STOP, AT_BLOCK, AT_IDLE, AT_OPBEGIN, AT_OPEND };
static int sysn;
static int pump(int where) {
    int any = 0;
    while (nextstep < S.nsteps) {
        step_t *s = &S.step[nextstep]; int go = 0;
        switch (s->tr) {
        case TR_NOW: go = 1; break;
        case TR_EXISTS: go = sock_present; break;
        case TR_BLOCK: go = where == AT_BLOCK || where == AT_IDLE; break;
        case TR_IDLE: go = where == AT_IDLE || LONG_PAST; break;
        case TR_SLOW: if (where == AT_IDLE && alarmed) { alarmed = 0; ev("\"e\":\"alarm\",\"op\":%d", cur_op); kill(cpid, SIGALRM); return 1; } go = where == AT_IDLE || LONG_PAST; break;
        case TR_DATA: if (where == AT_IDLE || LONG_PAST) { drain(); go = pair_got > 0; } break;
        case TR_AT: go = (where == AT_STOP || where == AT_BLOCK) && ((opn == s->op && sysn >= s->n) || opn > s->op); break;
        case TR_OP: go = where == AT_OPBEGIN && opn >= s->op; break;
        case TR_RET: go = where == AT_OPEND && opn >= s->op; break;
        }
        if (!go) break;
        if (!do_step(s)) break;
        any = 1; nextstep++; rounds = 0; skew0 = atomic_load(&shm->skew);
        /* one idle step per idle period, so the child can react */
        if (s->tr == TR_IDLE || s->tr == TR_SLOW) break;
    }
    if (where == AT_IDLE || where == AT_OPEND || (S.drain == 1) || LONG_PAST) {
        if (where != AT_OPEND || S.drain != 0 || 1) { size_t before = evn; drain(); if (evn != before && where == AT_IDLE) any = 1; }
    }
    return any;
}

static int fd_is_socket(long fd) {
    char p[64], b[64]; snprintf(p, sizeof p, "/proc/%d/fd/%ld", cpid, fd);
    ssize_t n = readlink(p, b, sizeof b - 1); if (n <= 0) return 0; b[n] = 0;
    return !strncmp(b, "socket:", 7);
}
static int wait_class(long nr, const unsigned long long *a) {
    switch (nr) {
    case SYS_select: case SYS_pselect6: case SYS_poll: case SYS_ppoll: case SYS_epoll_wait: case SYS_epoll_pwait:
    case SYS_accept: case SYS_accept4: return 1;
    case SYS_poll+0x10000: return 0;
    case SYS_read: case SYS_readv: case SYS_recvfrom: case SYS_recvmsg: return fd_is_socket(a[0]);
    }
    return 0;
}
static int is_sockwrite(long nr, unsigned long long fd) {
    return (nr == SYS_write || nr == SYS_sendto) && fd_is_socket(fd);
}

static void proc_state(int k) {
    char p[300]; snprintf(p, sizeof p, "/proc/%d/fd", cpid);
    char out1[PATH_MAX] = ""; if (S.fillfd) { char q[64]; snprintf(q, sizeof q, "/proc/%d/fd/1", cpid); ssize_t m = readlink(q, out1, sizeof out1 - 1); out1[m < 0 ? 0 : m] = 0; }
    DIR *d = opendir(p); static char line[262144]; size_t n = 0; line[0] = 0; int c = 0;
    if (d) {
        struct dirent *e;
        while ((e = readdir(d))) {
            if (e->d_name[0] == '.') continue;
            char q[700], b[PATH_MAX], fi[256]; snprintf(q, sizeof q, "%s/%s", p, e->d_name);
            ssize_t m = readlink(q, b, sizeof b - 1); if (m < 0) m = 0; b[m] = 0;
            if (atoi(e->d_name) > 2 && S.fillfd && !strcmp(b, out1)) continue;   /* one of the fillers */
            int cloexec = -1; snprintf(q, sizeof q, "/proc/%d/fdinfo/%s", cpid, e->d_name);
            int f = open(q, O_RDONLY);
            if (f >= 0) { ssize_t r = read(f, fi, sizeof fi - 1); close(f); if (r > 0) { fi[r] = 0; char *x = strstr(fi, "flags:"); if (x) cloexec = (strtol(x + 6, 0, 8) & 02000000) ? 1 : 0; } }
            int is_sock = !strncmp(b, "socket:", 7);
            if (n < sizeof line - 256) n += snprintf(line + n, sizeof line - n, "%s[%s,\"%c\",%d]", c++ ? "," : "", e->d_name, is_sock ? 's' : !strncmp(b, "pipe:", 5) ? 'p' : !strncmp(b, "anon", 4) ? 'a' : 'f', cloexec);
        }
        closedir(d);
    }
    if (evn + n + 256 > evc) { evc = (evn + n + 256) * 2; evb = realloc(evb, evc); if (!evb) abort(); }
    evn += sprintf(evb + evn, "%s{\"t\":%lu,\"e\":\"fds\",\"op\":%d,\"fds\":[%s]}", evcount++ ? "," : "", atomic_fetch_add(&shm->seq, 1), k, line);
}

static char *trb; static size_t trn, trc; static int ntr;
static void trace_rec(int op, int n, long nr, const unsigned long long *a, long long ret, int inj, int issock) {
    if (trn + 256 > trc) { trc = (trn + 256) * 2; trb = realloc(trb, trc); if (!trb) abort(); }
    trn += sprintf(trb + trn, "%s[%d,%d,%ld,%lld,%lld,%lld,%lld,%d,%d]", ntr++ ? "," : "", op, n, nr, (long long)a[0], (long long)a[1], (long long)a[2], ret, inj, issock);
}

static char child_stat(void) {
    char p[64], b[512]; snprintf(p, sizeof p, "/proc/%d/stat", cpid);
    int f = open(p, O_RDONLY); if (f < 0) return '?';
    ssize_t n = read(f, b, sizeof b - 1); close(f); if (n <= 0) return '?'; b[n] = 0;
    char *x = strrchr(b, ')'); return x && x[1] ? x[2] : '?';
}

static void poke(unsigned long addr, const void *data, size_t n) {
    struct iovec l = { (void *)data, n }, r = { (void *)addr, n };
    if (process_vm_writev(cpid, &l, 1, &r, 1, 0) == (ssize_t)n) return;
    for (size_t i = 0; i < n; i += 8) {
        long w = ptrace(PTRACE_PEEKDATA, cpid, addr + i, 0); size_t m = n - i < 8 ? n - i : 8;
        memcpy(&w, (const char *)data + i, m); ptrace(PTRACE_POKEDATA, cpid, addr + i, w);
    }
}
static void peek(unsigned long addr, void *data, size_t n) {
    memset(data, 0, n);
    for (size_t i = 0; i < n; i += 8) {
        errno = 0; long w = ptrace(PTRACE_PEEKDATA, cpid, addr + i, 0); if (errno) return;
        memcpy((char *)data + i, &w, n - i < 8 ? n - i : 8);
    }
}
static void peekstr(unsigned long addr, char *out, size_t n) {
    size_t i = 0;
    struct iovec l = { out, n - 1 }, r = { (void *)addr, n - 1 };
    memset(out, 0, n);
    if (process_vm_readv(cpid, &l, 1, &r, 1, 0) > 0) { out[n - 1] = 0; if (memchr(out, 0, n - 1)) return; }
    while (i + 8 < n) { errno = 0; long w = ptrace(PTRACE_PEEKDATA, cpid, addr + i, 0); if (errno) break; memcpy(out + i, &w, 8); if (memchr(out + i, 0, 8)) return; i += 8; }
    out[i < n ? i : n - 1] = 0;
}
static void rec_path(long nr, const unsigned long long *a) {
    unsigned long p = 0; char b[1024]; int wr = 0;
    switch (nr) {
    case SYS_openat: p = a[1]; wr = (a[2] & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; break;
    case SYS_newfstatat: case SYS_statx: case SYS_unlinkat: case SYS_fchownat: case SYS_fchmodat: case SYS_faccessat: case SYS_mkdirat: case SYS_readlinkat: p = a[1]; break;
    case SYS_open: p = a[0]; wr = (a[1] & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; break;
    case SYS_stat: case SYS_lstat: case SYS_unlink: case SYS_chown: case SYS_lchown: case SYS_chmod: case SYS_access: case SYS_mkdir: case SYS_rmdir: case SYS_truncate: case SYS_rename: p = a[0]; break;
    case SYS_bind: case SYS_connect: p = a[1] + 2; break;
    default: return;
    }
    if (!p) return;
    peekstr(p, b, sizeof b);
    char m[64]; sprintf(m, "\"op\":%d,\"nr\":%ld,\"wr\":%d,", cur_op, nr, wr);
    ev_hex("path", (unsigned char *)b, strlen(b), m);
}
static void shrink_time(long nr, const unsigned long long *a) {
    struct user_regs_struct u; long v[4] = { 0, 0, 0, 0 }, unit = 1; unsigned long at = 0; int reg = 0; long ms = 0;
    pendskew = 0;
    switch (nr) {
    case SYS_poll: reg = 3; ms = (int)a[2]; break;
    case SYS_epoll_wait: case SYS_epoll_pwait: reg = 4; ms = (int)a[3]; break;
    case SYS_ppoll: at = a[2]; break;
    case SYS_pselect6: at = a[4]; break;
    case SYS_select: at = a[4]; unit = 1000; break;
    case SYS_nanosleep: at = a[0]; break;
    case SYS_clock_nanosleep: if (a[1]) return; at = a[2]; break;
    case SYS_setsockopt:
        if (a[1] != SOL_SOCKET || (a[2] != 20 && a[2] != 21 && a[2] != 66 && a[2] != 67) || a[4] < 16 || !a[3]) return;
        peek(a[3], v, 16);
        if (v[0] > 0 || v[1] > 0) { sotimeo = v[0] * 1000000000L + v[1] * 1000L; long w[2] = { 0, 1 }; poke(a[3], w, 16); }
        return;
    case SYS_alarm: alarmed = a[0] > 0; if (a[0]) { ptrace(PTRACE_GETREGS, cpid, 0, &u); u.rdi = 100000; ptrace(PTRACE_SETREGS, cpid, 0, &u); } return;
    case SYS_setitimer: if (a[0] == 0 && a[1]) { peek(a[1], v, 32); alarmed = v[2] > 0 || v[3] > 0; if (alarmed) { v[2] = 100000; v[3] = 0; poke(a[1], v, 32); } } return;
    case SYS_timerfd_settime: if (!a[2]) return; peek(a[2], v, 32); if (!(a[1] & 1) && (v[2] > 0 || v[3] > 0)) { atomic_fetch_add(&shm->skew, v[2] * 1000000000L + v[3]); v[2] = 0; v[3] = 1; poke(a[2], v, 32); } return;
    default: return;
    }
    if (reg) {
        if (ms <= 0) return;
        pendskew = ms * 1000000L;
        ptrace(PTRACE_GETREGS, cpid, 0, &u); if (reg == 3) u.rdx = 0; else u.r10 = 0; ptrace(PTRACE_SETREGS, cpid, 0, &u);
    } else if (at) {
        peek(at, v, 16);
        if (v[0] <= 0 && v[1] <= 0) return;
        pendskew = v[0] > 9000000 ? 9000000L * 1000000000L : v[0] * 1000000000L + v[1] * unit;
        v[0] = v[1] = 0; poke(at, v, 16);
    }
}
static unsigned long accino[64]; static int naccino;
static unsigned long fd_ino(long fd, char *b, size_t sz) {
    char p[64]; snprintf(p, sizeof p, "/proc/%d/fd/%ld", cpid, fd);
    ssize_t n = readlink(p, b, sz - 1); b[n < 0 ? 0 : n] = 0;
    return !strncmp(b, "socket:[", 8) ? strtoul(b + 8, 0, 10) : 0;
}
static struct { unsigned char b[64]; size_t n; } carry[1024];
static int carried;
static int onlog(long fd);
/* which of the canaries the system call at hand is about to write, and where to */
static void canary_scan(long nr, const unsigned long long *a) {
    static unsigned char buf[(4 << 20) + 64]; struct iovec v[64]; int nv = 0;
    unsigned long iov = 0, cnt = 0;
    switch (nr) {
    case SYS_write: case SYS_pwrite64: case SYS_sendto: v[0].iov_base = (void *)a[1]; v[0].iov_len = a[2]; nv = 1; break;
    case SYS_writev: case SYS_pwritev: case SYS_pwritev2: case SYS_vmsplice: iov = a[1]; cnt = a[2]; break;
    case SYS_sendmsg: { unsigned long m[4]; peek(a[1], m, sizeof m); iov = m[2]; cnt = m[3]; break; }
    case SYS_sendmmsg: { unsigned long m[4]; for (unsigned long i = 0; i < a[2] && i < 16 && nv < 48; i++) { peek(a[1] + 64 * i, m, sizeof m); unsigned long c = m[3] > 3 ? 3 : m[3]; peek(m[2], v + nv, c * sizeof *v); nv += c; } break; }
    default: return;
    }
    if (cnt) { nv = cnt > 64 ? 64 : cnt; peek(iov, v, nv * sizeof *v); }
    long fd = (long)(int)a[0]; size_t n = 0, max = 0;
    if (fd >= 0 && fd < 1024) { memcpy(buf, carry[fd].b, carry[fd].n); n = carry[fd].n; }
    for (int i = 0; i < nv && n < sizeof buf; i++) {
        struct iovec l = { buf + n, v[i].iov_len < sizeof buf - n ? v[i].iov_len : sizeof buf - n }, r = { v[i].iov_base, l.iov_len };
        ssize_t k = l.iov_len ? process_vm_readv(cpid, &l, 1, &r, 1, 0) : 0; if (k > 0) n += k;
    }
    for (int i = 0; i < S.ncan; i++) {
        if (S.canlen[i] > max) max = S.canlen[i];
        if (!S.canlen[i] || !memmem(buf, n, S.can[i], S.canlen[i])) continue;
        char to[PATH_MAX]; unsigned long ino = fd_ino(fd, to, sizeof to); const char *what = to;
        for (int j = 0; j < naccino; j++) if (ino && accino[j] == ino) what = j ? "another client" : "pair";
        if (what == to && onlog(fd)) what = "log";
        char m[96]; sprintf(m, "\"op\":%d,\"k\":%d,\"nr\":%ld,", cur_op, i, nr);
        ev_hex("canary", (const unsigned char *)what, strlen(what), m);
    }
    if (fd >= 0 && fd < 1024) { size_t k = max ? max - 1 : 0; if (k > 63) k = 63; if (k > n) k = n; memcpy(carry[fd].b, buf + n - k, k); carry[fd].n = k; if (fd >= carried) carried = fd + 1; }
}
static int logfd = -1;
static double paused_for;
static unsigned char islog[65536];
static int onlog(long fd) { return fd >= 0 && fd < 65536 && islog[fd]; }
static void drain_syslog(void) {
    static unsigned char b[1 << 16];
    if (logfd < 0) return;
    for (;;) { ssize_t n = recv(logfd, b, sizeof b, MSG_DONTWAIT); if (n < 0) return; char m[32]; sprintf(m, "\"op\":%d,", cur_op); ev_hex("syslog", b, n, m);
        if (S.syslog_ == 3) { close(logfd); logfd = open("/dev/null", O_RDONLY | O_CLOEXEC); return; } /* the daemon goes away */
    }
}
static void hand_over(void) {
    char p[PATH_MAX + 8]; char c = 'x'; double t = now();
    S.pause_done = 1;
    ev("\"e\":\"pause\",\"op\":%d", cur_op);
    snprintf(p, sizeof p, "%s.go", S.pause_path);
    int f = open(p, O_WRONLY); if (f >= 0) { if (write(f, &c, 1) < 0) {} close(f); }
    snprintf(p, sizeof p, "%s.back", S.pause_path);
    f = open(p, O_RDONLY); if (f >= 0) { if (read(f, &c, 1) < 0) {} close(f); }
    ev("\"e\":\"resume\",\"op\":%d", cur_op);
    paused_for += now() - t;
}

static void run_scenario(void) {
    evn = 0; evcount = 0; snn = 0; nsnaps = 0; trn = 0; ntr = 0; free(lastsnap); lastsnap = NULL;
    naccino = 0; for (int i = 0; i < carried; i++) carry[i].n = 0; carried = 0;
    pairfd = -1; pair_eof = 0; pair_gone = 0; pair_got = 0; nextstep = 0; inop = 0; opn = -1; sysn = 0; probe_n = 0; probe_ok = 0; sock_present = 0; cur_op = -1;
    rng = S.seed * 0x9E3779B97F4A7C15ul + 0x1234567; for (int i = 0; i < 4; i++) rnd();
    for (int i = 0; i < S.nsteps; i++) S.step[i].fired = 0;
    atomic_store(&shm->seq, 0); atomic_store(&shm->used, 0); atomic_store(&shm->sigints, 0); atomic_store(&shm->done, 0);
    logfd = -1; rounds = alarmed = 0; skew0 = sotimeo = pendskew = 0; atomic_store(&shm->skew, 0); paused_for = 0; memset(islog, 0, sizeof islog);
    if (S.syslog_ && S.cwd[0]) {
        char p[PATH_MAX + 16]; struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
        snprintf(p, sizeof p, "%s/syslog.s", S.cwd); unlink(p);
        snprintf(a.sun_path, sizeof a.sun_path, "%s", p);
        logfd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
        int sz = 8 << 20; setsockopt(logfd, SOL_SOCKET, SO_RCVBUFFORCE, &sz, sizeof sz); setsockopt(logfd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
        if (bind(logfd, (struct sockaddr *)&a, sizeof a)) ev("\"e\":\"syslog_bind_fail\"");
        if (S.syslog_ == 2) { close(logfd); logfd = open("/dev/null", O_RDONLY | O_CLOEXEC); }  /* a name nobody listens at */
        if (S.syslog_ == 4) { close(logfd); unlink(p); logfd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); if (bind(logfd, (struct sockaddr *)&a, sizeof a) || listen(logfd, 5)) ev("\"e\":\"syslog_bind_fail\""); }
    }
    snapshot(-1, 0);
    fflush(stdout);
    cpid = fork();
    if (cpid < 0) { perror("fork"); exit(3); }
    if (cpid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!S.freerun) { ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); }
        int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); if (!S.freerun) dup2(nul, 2); if (nul > 2) close(nul);
        if (logfd >= 0) close(logfd);    /* or a log daemon that goes away would live on in here */
        run_child();
        _exit(97);
    }
    int status, exited = 0, code = -1, sig = 0, stuck = 0, watchdog = 0, nsys = 0;
    double t0 = now();
    if (S.freerun) {
        double last = now(); int freeidle = 0;
        for (;;) {
            pid_t r = waitpid(cpid, &status, WNOHANG);
            if (r == cpid) break;
            struct stat st; sock_present = S.sock[0] && !lstat(S.sock, &st) && S_ISSOCK(st.st_mode);
            size_t before = evn + shm->used;
            char cst = child_stat();
            int did = pump(cst == 'S' ? AT_IDLE : AT_STOP); drain();
            if (did || evn + shm->used != before || cst != 'S') { last = now(); freeidle = 0; }
            else if (++freeidle > 2000 && now() - last > 8 && !stuck) { stuck = 1; ev("\"e\":\"stuck\",\"op\":%d,\"nr\":0", cur_op); kill(cpid, SIGKILL); }
            if (now() - t0 > 120 && !watchdog) { watchdog = 1; kill(cpid, SIGKILL); }
            usleep(1000);
        }
        exited = 1;
    } else {
        if (waitpid(cpid, &status, __WALL) < 0) { perror("waitpid"); exit(3); }
        if (!WIFSTOPPED(status)) { fprintf(stderr, "child did not stop\n"); exit(3); }
        ptrace(PTRACE_SETOPTIONS, cpid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
        long deliver = 0; int entry = 0; long cur_nr = 0; unsigned long long a[6] = { 0 };
        int inj_active = 0, inj_soft = 0; long inj_val = 0; int idles = 0, spun = 0, inprior = 0, priorfd = -1, priormet = 0;
        ptrace(PTRACE_SYSCALL, cpid, 0, 0);
        double resumed = now(); int spins = 0; double last_idle = 0;
        for (;;) {
            pid_t r = waitpid(cpid, &status, WNOHANG | __WALL);
            if (r == 0) {
                spins++;
                if (spins < 60) { sched_yield(); continue; }
                usleep(spins < 80 ? 50 : 300);
                double dt = now() - resumed;
                if (dt > 0.006 && now() - last_idle > 0.004) {
                    char st = child_stat();
                    if (st == 'S') {
                        last_idle = now();
                        if (inprior && entry == 1 && ++idles > 30) { stuck = 1; ev("\"e\":\"stuck\",\"op\":-1,\"nr\":%ld", cur_nr); kill(cpid, SIGKILL); idles = -100000; }
                        if (inop && entry == 1) {
                            snapshot(opn, sysn);
                            int did = pump(AT_IDLE);
                            if (did) { idles = 0; }
                            else if (++idles > 20) { stuck = 1; ev("\"e\":\"stuck\",\"op\":%d,\"nr\":%ld", opn, cur_nr); kill(cpid, SIGKILL); idles = -100000; }
                        }
                    }
                }
                if (now() - t0 - paused_for > 30 && !watchdog) { watchdog = 1; kill(cpid, SIGKILL); }
                continue;
            }
            if (r < 0) { if (errno == EINTR) continue; break; }
            spins = 0; last_idle = 0;
            if (WIFEXITED(status) || WIFSIGNALED(status)) { exited = 1; break; }
            deliver = 0;
            if (WSTOPSIG(status) == (SIGTRAP | 0x80)) {
                struct ptrace_syscall_info info; memset(&info, 0, sizeof info);
                ptrace(PTRACE_GET_SYSCALL_INFO, cpid, sizeof info, &info);
                if (info.op == PTRACE_SYSCALL_INFO_ENTRY) {
                    entry = 1; idles = 0;
                    cur_nr = (long)info.entry.nr; for (int i = 0; i < 6; i++) a[i] = info.entry.args[i];
                    if (cur_nr == MARK_PRIOR) {
                        inprior = (int)a[0];
                        if (!inprior) { if (priorfd >= 0) close(priorfd); priorfd = -1; free(lastsnap); lastsnap = NULL; snn = 0; nsnaps = 0; snapshot(-1, 0); ev("\"e\":\"prior\",\"met\":%d", priormet); }
                    } else if (inprior) {
                        if (priorfd < 0 && !priormet && wait_class(cur_nr, a) && S.priorsock[0]) {
                            priorfd = try_connect(S.priorsock, 0, 0, 0);
                            if (priorfd >= 0) { priormet = 1; if (S.npriorsay) send(priorfd, S.priorsay, S.npriorsay, MSG_NOSIGNAL | MSG_DONTWAIT); else { close(priorfd); priorfd = -1; } }
                        }
                    } else if (cur_nr == MARK_BEGIN) {
                        opn = cur_op = (int)a[0]; inop = 1; sysn = -1; if (S.age) { long k = (long)(rnd() % S.age) * 1000000000L; atomic_fetch_add(&shm->skew, k); skew0 += k; } snapshot(opn, -1); proc_state(-2 - opn); ev("\"e\":\"begin\",\"op\":%d", opn); pump(AT_OPBEGIN);
                    } else if (cur_nr == MARK_END) {
                        inop = 0; snapshot(opn, 1 << 20); if (S.drain != 0 || 1) drain(); drain_extras(); drain_syslog();
                        ev("\"e\":\"end\",\"op\":%d,\"ret\":%d", opn, (int)a[1]); proc_state(opn); pump(AT_OPEND);
                    } else if (inop) {
                        sysn++; nsys++; inj_active = inj_soft = 0;
                        int isock = 0;
                        int isfile = S.shortf && cur_nr == SYS_write && a[0] > 2 && !fd_is_socket(a[0]);
                        if (S.shortw || S.eintrw) isock = is_sockwrite(cur_nr, a[0]);
                        for (int i = 0; i < S.ninj; i++) if (S.inj[i].op == opn && S.inj[i].n == sysn && cur_nr != SYS_rt_sigreturn && cur_nr != SYS_exit && cur_nr != SYS_exit_group && cur_nr != SYS_restart_syscall) {
                            inj_t *j = &S.inj[i];
                            if (j->kind == IN_PERM) { j->nr = cur_nr; j->n = -1; inj_active = 1; inj_val = -j->v; }
                            else if (j->kind == IN_ERRNO) { inj_active = 1; inj_val = -j->v; }
                            else if (j->kind == IN_RET) { inj_active = 1; inj_val = j->v; }
                            else if (j->kind == IN_SIG) { ev("\"e\":\"signal\",\"op\":%d,\"sig\":%ld,\"si\":%d", opn, j->v, sysn); syscall(SYS_tgkill, cpid, cpid, j->v); }
                            else if (j->kind == IN_CAP) { struct user_regs_struct u; ptrace(PTRACE_GETREGS, cpid, 0, &u); if (u.rdx > (unsigned long)j->v) { u.rdx = j->v; ptrace(PTRACE_SETREGS, cpid, 0, &u); ev("\"e\":\"cap\",\"op\":%d,\"si\":%d", opn, sysn); } }
                        }
                        for (int i = 0; i < S.ninj && !inj_active; i++) if (S.inj[i].kind == IN_PERM && S.inj[i].n == -1 && S.inj[i].op == opn && S.inj[i].nr == cur_nr) { inj_active = 1; inj_val = -S.inj[i].v; }
                        if (sysn > (S.shortw || S.shortf || S.eintrw ? 800000 : 100000) + 64 * (long)(opn >= 0 && opn < S.nops ? S.op[opn].len + S.op[opn].b : 0) && !spun) { spun = 1; ev("\"e\":\"runaway\",\"op\":%d", opn); kill(cpid, SIGKILL); }
                        for (int i = 0; i < S.nfnr && S.fop == opn; i++) if (S.fnr[i] == cur_nr) { S.fseen++; if (!S.fk || S.fseen == S.fk) { inj_active = 1; inj_val = -S.ferr; } }
                        if (isock && !inj_active && S.eintrw && (int)(rnd() % 100) < S.eintrw) { inj_active = 1; inj_val = -EINTR; }
                        if (isock && !inj_active && S.shortw) { struct user_regs_struct u; ptrace(PTRACE_GETREGS, cpid, 0, &u); unsigned long m = rnd() % S.shortw + 1; if (u.rdx > m) { u.rdx = m; ptrace(PTRACE_SETREGS, cpid, 0, &u); } }
                        if (isfile && !inj_active) { struct user_regs_struct u; ptrace(PTRACE_GETREGS, cpid, 0, &u); unsigned long m = rnd() % S.shortf + 1; if (rnd() % 5 == 0) { inj_active = inj_soft = 1; inj_val = -EINTR; } else if (u.rdx > m) { u.rdx = m; ptrace(PTRACE_SETREGS, cpid, 0, &u); } }
                        if (S.storm && (int)(rnd() % 100) < S.storm) syscall(SYS_tgkill, cpid, cpid, S.others && rnd() % 4 ? others[rnd() % (sizeof others / sizeof *others)] : SIGINT);
                        if (inj_active) { struct user_regs_struct u; ptrace(PTRACE_GETREGS, cpid, 0, &u); u.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, cpid, 0, &u); ev("\"e\":\"%s\",\"op\":%d,\"si\":%d,\"nr\":%ld,\"v\":%ld", inj_soft ? "again" : "inject", opn, sysn, cur_nr, inj_val); }
                        int logbad = 0;
                        if (cur_nr == SYS_close && a[0] < sizeof islog) islog[a[0]] = 0;
                        if ((cur_nr == SYS_sendto || cur_nr == SYS_write || cur_nr == SYS_sendmsg) && a[0] < sizeof islog && islog[a[0]] && (S.logfail == 2 || S.logfail == 3 && rnd() % 2)) logbad = 1;
                        if (logfd >= 0 && (cur_nr == SYS_connect || cur_nr == SYS_sendto)) {
                            unsigned long pa = cur_nr == SYS_connect ? a[1] : a[4]; char sa[16];
                            if (pa) { peek(pa, sa, 10); if (!memcmp(sa + 2, "/dev/log", 8)) { poke(pa + 2, "syslog.s", 8); if (a[0] < sizeof islog) islog[a[0]] = 1; if (S.logfail == 1 || S.logfail == 3 && rnd() % 2) logbad = 1; } }
                        }
                        if (logbad && !inj_active) { inj_active = 1; inj_val = -S.logerr; struct user_regs_struct u; ptrace(PTRACE_GETREGS, cpid, 0, &u); u.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, cpid, 0, &u); ev("\"e\":\"inject\",\"op\":%d,\"si\":%d,\"nr\":%ld,\"v\":%ld", opn, sysn, cur_nr, inj_val); }
                        if (S.fast && !inj_active) shrink_time(cur_nr, a);
                        if (S.trace >= 2) rec_path(cur_nr, a);
                        if (S.ncan) { if (cur_nr == SYS_close && a[0] < 1024) carry[a[0]].n = 0; else if (!inj_active) canary_scan(cur_nr, a); }
                        snapshot(opn, sysn);
                        if (S.pause_path[0] && !S.pause_done && opn == S.pause_op && sysn == S.pause_n) { hand_over(); snapshot(opn, sysn); }
                        pump(!inj_active && wait_class(cur_nr, a) ? AT_BLOCK : AT_STOP);
                    }
                } else if (info.op == PTRACE_SYSCALL_INFO_EXIT) {
                    entry = 0;
                    long long rv = info.exit.rval;
                    if (inop && cur_nr != MARK_BEGIN) {
                        if (S.fast && pendskew && rv == 0 && !inj_active) { rounds++; atomic_fetch_add(&shm->skew, pendskew); }
                        if (S.fast && sotimeo && rv == -EAGAIN && !inj_active) { rounds++; atomic_fetch_add(&shm->skew, sotimeo); }
                        pendskew = 0;
                        if (inj_active) {
                            struct user_regs_struct u; ptrace(PTRACE_GETREGS, cpid, 0, &u); u.rax = (unsigned long)inj_val; ptrace(PTRACE_SETREGS, cpid, 0, &u); rv = inj_val;
                        }
                        if (S.trace) {
                            int fs = 0;
                            if (cur_nr == SYS_read || cur_nr == SYS_write || cur_nr == SYS_sendto || cur_nr == SYS_recvfrom || cur_nr == SYS_close) fs = fd_is_socket(a[0]);
                            trace_rec(opn, sysn, cur_nr, a, rv, inj_active && !inj_soft, fs);
                        }
                        if (S.ncan && (cur_nr == SYS_accept || cur_nr == SYS_accept4) && rv >= 0 && naccino < 64) { char b[PATH_MAX]; accino[naccino++] = fd_ino(rv, b, sizeof b); }
                        inj_active = 0;
                        snapshot(opn, sysn);
                        pump(AT_STOP);
                        if (logfd >= 0 && (cur_nr == SYS_sendto || cur_nr == SYS_write || cur_nr == SYS_sendmsg)) drain_syslog();
                    }
                }
            } else {
                int sg = WSTOPSIG(status);
                if (sg == SIGSTOP && opn < 0) deliver = 0;
                else if (sg == SIGTRAP) deliver = 0;
                else {
                    deliver = sg;
                    if (sg != SIGINT && !S.others) ev("\"e\":\"gotsig\",\"op\":%d,\"sig\":%d", opn, sg);
                }
            }
            if (ptrace(PTRACE_SYSCALL, cpid, 0, deliver) < 0 && errno == ESRCH) { /* killed */ }
            resumed = now();
        }
    }
    if (exited) { if (WIFEXITED(status)) code = WEXITSTATUS(status); else sig = WTERMSIG(status); }
    cur_op = opn;
    drain(); drain_extras(); drain_syslog();
    snapshot(1 << 20, 0);
    if (pairfd >= 0) close(pairfd);
    for (int i = 0; i < probe_ok; i++) close(probefd[i]);
    for (int i = 0; i < nextra; i++) close(extrafd[i]);
    nextra = 0;
    if (logfd >= 0) close(logfd);
    on = 0;
    of("{\"id\":"); ostr(S.id);
    of(",\"code\":%d,\"sig\":%d,\"stuck\":%d,\"watchdog\":%d,\"done\":%d,\"nsys\":%d,\"probes\":%d,\"steps\":%d,\"dt\":%.4f,\"ev\":[", code, sig, stuck, watchdog, atomic_load(&shm->done), nsys, probe_n, nextstep, now() - t0);
    size_t u = atomic_load(&shm->used); int over = u >= SHM_SZ - sizeof *shm; if (over) u = 0;
    while (u && shm->buf[u - 1] != ',') u--; /* a killed child may leave a partial record */
    oput(shm->buf, u);
    if (evn) oput(evb, evn); else if (u) on--;
    of("],\"snaps\":["); if (snn) oput(snb, snn);
    of("],\"tr\":["); if (trn) oput(trb, trn);
    of("],\"over\":%d}\n", over);
    fwrite(ob, 1, on, stdout); fflush(stdout);
}

/* ---------- parser ---------- */
static unsigned char *unhex(const char *h, size_t *n) {
    if (!strcmp(h, "-")) { *n = 0; return calloc(1, 1); }
    size_t l = strlen(h) / 2; unsigned char *o = malloc(l + 1);
    for (size_t i = 0; i < 2 * l; i++) { int c = h[i], v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; o[i / 2] = i & 1 ? o[i / 2] | v : v << 4; }
    o[l] = 0; *n = l; return o;
}
static void reset(void) {
    for (int e = 0; e < MAXENV; e++) for (int i = 0; i < NVEC; i++) { vec_t *v = &S.env[e].v[i]; for (int j = 0; j < v->n; j++) free(v->s[j]); free(v->s); free(v->len); }
    for (int i = 0; i < S.nops; i++) free(S.op[i].data);
    for (int i = 0; i < S.nsteps; i++) free(S.step[i].data);
    free(S.priorsay); for (int i = 0; i < S.ncan; i++) free(S.can[i]);
    memset(&S, 0, sizeof S);
    for (int e = 0; e < MAXENV; e++) { S.env[e].ver = SUDO_API_VERSION; for (int i = 0; i < NVEC; i++) S.env[e].v[i].isnull = 1; }
    S.umask_ = 022;
}
int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: sim PLUGIN.so [SYMBOL]\n"); return 2; }
    for (int i = 1; i < 65; i++) if (i != SIGKILL && i != SIGSTOP && i != 32 && i != 33) signal(i, SIG_DFL);    /* a background job has some of them ignored */
    sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, NULL);
    signal(SIGPIPE, SIG_IGN);
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 4; }
    plugin = dlsym(h, argc > 2 ? argv[2] : "sudo_pair");
    if (!plugin) { fprintf(stderr, "dlsym: %s\n", dlerror()); return 4; }
    shm = mmap(0, SHM_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 3; }
    printf("{\"hello\":1,\"type\":%u,\"version\":%u,\"cb\":[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]}\n", plugin->type, plugin->version,
           !!plugin->open, !!plugin->close, !!plugin->show_version, !!plugin->log_ttyin, !!plugin->log_ttyout, !!plugin->log_stdin, !!plugin->log_stdout, !!plugin->log_stderr,
           !!plugin->register_hooks, !!plugin->deregister_hooks, !!plugin->change_winsize, !!plugin->log_suspend, !!plugin->event_alloc);
    fflush(stdout);
    char *line = NULL; size_t cap = 0; ssize_t n; env_t *E = &S.env[0];
    reset();
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        char *sv, *w = strtok_r(line, " ", &sv); if (!w) continue;
#define ARG() strtok_r(NULL, " ", &sv)
#define NUM() ({ char *x_ = ARG(); x_ ? strtol(x_, 0, 0) : 0; })
        if (!strcmp(w, "scenario")) { reset(); E = &S.env[0]; char *x = ARG(); snprintf(S.id, sizeof S.id, "%s", x ? x : ""); }
        else if (!strcmp(w, "end")) run_scenario();
        else if (!strcmp(w, "env")) { long i = NUM(); if (i < 0 || i >= MAXENV) return 2; E = &S.env[i]; }
        else if (!strcmp(w, "vec")) {
            char *nm = ARG(); int i; for (i = 0; i < NVEC; i++) if (!strcmp(nm, vecname[i])) break;
            if (i == NVEC) return 2;
            char *c = ARG(); vec_t *v = &E->v[i];
            if (!strcmp(c, "NULL")) { v->isnull = 1; continue; }
            v->isnull = 0; v->n = atoi(c); v->s = calloc(v->n + 1, sizeof *v->s); v->len = calloc(v->n + 1, sizeof *v->len);
            for (int j = 0; j < v->n; j++) v->s[j] = unhex(ARG(), &v->len[j]);
        }
        else if (!strcmp(w, "ver")) E->ver = (unsigned)strtoul(ARG(), 0, 0);
        else if (!strcmp(w, "argc")) { E->argc = NUM(); E->argc_set = 1; }
        else if (!strcmp(w, "printf")) S.printf_mode = NUM();
        else if (!strcmp(w, "watch")) snprintf(S.watch, sizeof S.watch, "%s", ARG());
        else if (!strcmp(w, "sock")) snprintf(S.sock, sizeof S.sock, "%s", ARG());
        else if (!strcmp(w, "cwd")) snprintf(S.cwd, sizeof S.cwd, "%s", ARG());
        else if (!strcmp(w, "umask")) S.umask_ = strtol(ARG(), 0, 8);
        else if (!strcmp(w, "sigint")) { char *x = ARG(); S.sigint = !strcmp(x, "restart") ? 0 : !strcmp(x, "norestart") ? 1 : !strcmp(x, "ignore") ? 2 : 3; }
        else if (!strcmp(w, "sigpipe")) { char *x = ARG(); S.sigpipe = !strcmp(x, "dfl") ? 1 : !strcmp(x, "hand") ? 2 : 0; }
        else if (!strcmp(w, "trace")) S.trace = NUM();
        else if (!strcmp(w, "guard")) S.guard = NUM();
        else if (!strcmp(w, "drain")) { char *x = ARG(); S.drain = !strcmp(x, "always") ? 1 : !strcmp(x, "op") ? 2 : 0; }
        else if (!strcmp(w, "seed")) S.seed = strtoul(ARG(), 0, 0);
        else if (!strcmp(w, "shortw")) S.shortw = NUM();
        else if (!strcmp(w, "shortf")) S.shortf = NUM();
        else if (!strcmp(w, "age")) S.age = NUM();
        else if (!strcmp(w, "eintrw")) S.eintrw = NUM();
        else if (!strcmp(w, "storm")) S.storm = NUM();
        else if (!strcmp(w, "others")) S.others = NUM();
        else if (!strcmp(w, "probe")) { S.probe = 1; S.puid = NUM(); S.pgid = NUM(); }
        else if (!strcmp(w, "syslog")) S.syslog_ = NUM();
        else if (!strcmp(w, "creds")) { S.creds = 1; S.cruid = NUM(); S.ceuid = NUM(); S.cgid = NUM(); }
        else if (!strcmp(w, "prior")) { S.prior = NUM(); if (S.prior < 1 || S.prior >= MAXENV) return 2; char *x = ARG(); S.priorsay = unhex(x, &S.npriorsay); snprintf(S.priorsock, sizeof S.priorsock, "%s", ARG()); }
        else if (!strcmp(w, "canary")) { if (S.ncan >= 24) return 2; S.can[S.ncan] = unhex(ARG(), &S.canlen[S.ncan]); S.ncan++; }
        else if (!strcmp(w, "fillfd")) S.fillfd = NUM();
        else if (!strcmp(w, "logfail")) { S.logfail = NUM(); S.logerr = NUM(); }
        else if (!strcmp(w, "failnr")) { S.fop = NUM(); S.fk = NUM(); S.ferr = NUM(); S.nfnr = NUM(); if (S.nfnr > 24) return 2; for (int q = 0; q < S.nfnr; q++) S.fnr[q] = NUM(); }
        else if (!strcmp(w, "pause")) { S.pause_op = NUM(); S.pause_n = NUM(); snprintf(S.pause_path, sizeof S.pause_path, "%s", ARG()); }
        else if (!strcmp(w, "saflags")) S.saflags = NUM();
        else if (!strcmp(w, "blocked")) S.blocked = NUM();
        else if (!strcmp(w, "fast")) S.fast = NUM();
        else if (!strcmp(w, "free")) S.freerun = NUM();
        else if (!strcmp(w, "inject")) {
            if (S.ninj >= 256) return 2;
            inj_t *j = &S.inj[S.ninj++]; j->op = NUM(); j->n = NUM(); char *k = ARG();
            j->kind = !strcmp(k, "errno") ? IN_ERRNO : !strcmp(k, "ret") ? IN_RET : !strcmp(k, "sig") ? IN_SIG : !strcmp(k, "perm") ? IN_PERM : IN_CAP; j->v = NUM(); j->nr = -1;
        }
        else if (!strcmp(w, "op")) {
            if (S.nops >= MAXOPS) return 2;
            op_t *o = &S.op[S.nops++]; char *k = ARG();
            if (!strcmp(k, "open")) { o->type = OP_OPEN; o->a = NUM(); }
            else if (!strcmp(k, "log")) { o->type = OP_LOG; char *q = ARG(); o->kind = !strcmp(q, "ttyin") ? 0 : !strcmp(q, "ttyout") ? 1 : !strcmp(q, "stdin") ? 2 : !strcmp(q, "stdout") ? 3 : 4; o->data = unhex(ARG(), &o->len); o->b = NUM(); }
            else if (!strcmp(k, "winsize")) { o->type = OP_WINSIZE; o->a = NUM(); o->b = NUM(); }
            else if (!strcmp(k, "close")) { o->type = OP_CLOSE; o->a = NUM(); o->b = NUM(); }
            else if (!strcmp(k, "ver")) { o->type = OP_VER; o->a = NUM(); }
            else if (!strcmp(k, "fork")) o->type = OP_FORK;
            else return 2;
        }
        else if (!strcmp(w, "step")) {
            if (S.nsteps >= MAXSTEPS) return 2;
            step_t *s = &S.step[S.nsteps++]; char *t = ARG();
            if (!strcmp(t, "now")) s->tr = TR_NOW; else if (!strcmp(t, "data")) s->tr = TR_DATA; else if (!strcmp(t, "block")) s->tr = TR_BLOCK; else if (!strcmp(t, "idle")) s->tr = TR_IDLE; else if (!strcmp(t, "exists")) s->tr = TR_EXISTS; else if (!strcmp(t, "slow")) s->tr = TR_SLOW;
            else if (!strncmp(t, "at:", 3)) { s->tr = TR_AT; sscanf(t + 3, "%d:%d", &s->op, &s->n); }
            else if (!strncmp(t, "op:", 3)) { s->tr = TR_OP; s->op = atoi(t + 3); }
            else if (!strncmp(t, "ret:", 4)) { s->tr = TR_RET; s->op = atoi(t + 4); }
            else return 2;
            char *c = ARG();
            if (!strcmp(c, "connect")) { s->ac = AC_CONNECT; char *x = ARG(); if (x) { s->a = atol(x); s->b = NUM(); } else s->a = -1; }
            else if (!strcmp(c, "send")) { s->ac = AC_SEND; s->data = unhex(ARG(), &s->len); }
            else if (!strcmp(c, "recv")) s->ac = AC_RECV;
            else if (!strcmp(c, "shutwr")) s->ac = AC_SHUTWR;
            else if (!strcmp(c, "shutrd")) s->ac = AC_SHUTRD;
            else if (!strcmp(c, "cut")) s->ac = AC_CUT;     /* stops reading without having read what is there */
            else if (!strcmp(c, "close")) s->ac = AC_CLOSE;
            else if (!strcmp(c, "rst")) s->ac = AC_RST;
            else if (!strcmp(c, "sig")) { s->ac = AC_SIG; s->a = NUM(); }
            else if (!strcmp(c, "kill")) s->ac = AC_KILL;
            else if (!strcmp(c, "note")) s->ac = AC_NOTE;
            else if (!strcmp(c, "pass")) { s->ac = AC_PASS; s->a = NUM(); }
            else if (!strcmp(c, "try")) { s->ac = AC_TRY; char *x = ARG(); if (x) { s->a = atol(x); s->b = NUM(); } else s->a = -1; }
            else if (!strcmp(c, "sock")) { s->ac = AC_SOCK; s->data = unhex(ARG(), &s->len); }
            else if (!strcmp(c, "extra")) { s->ac = AC_EXTRA; s->data = unhex(ARG(), &s->len); }
            else return 2;
        }
        else { fprintf(stderr, "unknown directive %s\n", w); return 2; }
    }
    return 0;
}
