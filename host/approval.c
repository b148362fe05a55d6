/*
 * Drives an approval plugin the way sudo does and records what it did.
 * stdin, per line: one operation sequence; every sequence runs in a forked child.
 *   ops: o VERSION PRINTF(0|1|2) ERRSTR(0|1)   open      (PRINTF 2: output fails)
 *        c ERRSTR(0|1|2) [CMD...hex]           check     (ERRSTR 2: the pointer lies at the end of mapped memory)
 *        v N                                   show_version
 *        x                                     close (when there is one)
 *   separated by ';'
 * stdout: one JSON line per sequence.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "sudo_plugin.h"

static char *sh; static size_t used; /* shared output */
#define CAP (1 << 20)
static size_t *usedp;
static void put(const char *f, ...) { va_list a; va_start(a, f); int n = vsnprintf(sh + *usedp, CAP - *usedp, f, a); va_end(a); if (n > 0 && *usedp + n < CAP) *usedp += n; }
static int opno, pmode;
static int my_printf(int level, const char *fmt, ...) {
    char b[4096]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
    put("{\"op\":%d,\"printf\":%d,\"d\":\"", opno, level);
    for (int i = 0; i < n && i < (int)sizeof b; i++) put("%02x", (unsigned char)b[i]);
    put("\"},");
    return pmode == 2 ? -1 : n;
}
static int my_conv(int n, const struct sudo_conv_message m[], struct sudo_conv_reply r[], struct sudo_conv_callback *c) { put("{\"op\":%d,\"conv\":1},", opno); return -1; }
static unsigned char *unhex(const char *h) { size_t l = strlen(h) / 2; unsigned char *o = malloc(l + 1); for (size_t i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); o[i] = v; } o[l] = 0; return o; }
static const char **edge(void) { /* a pointer-sized slot at the very end of mapped memory */
    char *b = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(b + 4096, 4096, PROT_NONE);
    return (const char **)(b + 4096 - sizeof(char *));
}
int main(int argc, char **argv) {
    void *h = dlopen(argv[1], RTLD_NOW); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 4; }
    struct approval_plugin *p = dlsym(h, argv[2]); if (!p) return 4;
    sh = mmap(0, CAP + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); usedp = (size_t *)(sh + CAP);
    printf("{\"type\":%u,\"version\":%u,\"open\":%d,\"check\":%d,\"show_version\":%d,\"close\":%d}\n", p->type, p->version, !!p->open, !!p->check, !!p->show_version, !!p->close); fflush(stdout);
    char *line = NULL; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[n - 1] = 0;
        *usedp = 0;
        pid_t c = fork();
        if (!c) {
            struct rlimit rl = { 5, 6 }; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            alarm(10);
            char *s1, *op = strtok_r(line, ";", &s1);
            for (opno = 0; op; op = strtok_r(NULL, ";", &s1), opno++) {
                char *s2, *k = strtok_r(op, " ", &s2);
                const char *sentinel = "sentinel"; const char *slot = sentinel; const char **ep = &slot;
                int ret = 0;
                if (*k == 'o') {
                    unsigned v = strtoul(strtok_r(NULL, " ", &s2), 0, 0); pmode = atoi(strtok_r(NULL, " ", &s2)); int e = atoi(strtok_r(NULL, " ", &s2));
                    char *vec[] = { "user=alice", "uid=1000", NULL };
                    ret = p->open(v, my_conv, pmode == 1 ? NULL : my_printf, vec, vec, 1, vec, vec, NULL, e ? ep : NULL);
                } else if (*k == 'c') {
                    int e = atoi(strtok_r(NULL, " ", &s2));
                    if (e == 2) { ep = edge(); *ep = sentinel; }
                    char *cv[64]; int m = 0; char *w; while ((w = strtok_r(NULL, " ", &s2)) && m < 63) cv[m++] = (char *)unhex(w); cv[m] = NULL;
                    char *av[] = { "ls", NULL };
                    ret = p->check(m ? cv : NULL, m ? av : NULL, NULL, e ? ep : NULL);
                } else if (*k == 'v') ret = p->show_version(atoi(strtok_r(NULL, " ", &s2)));
                else if (*k == 'x') { if (p->close) p->close(); }
                put("{\"op\":%d,\"ret\":%d,\"errstr\":", opno, ret);
                if (*ep == sentinel) put("0},");
                else if (!*ep) put("1},");
                else { put("\""); for (const char *q = *ep; *q; q++) put("%02x", (unsigned char)*q); put("\"},"); }
            }
            put("{\"done\":1}");
            _exit(0);
        }
        int st; waitpid(c, &st, 0);
        size_t u = *usedp; if (u && sh[u - 1] == ',') u--;
        printf("{\"sig\":%d,\"code\":%d,\"ev\":[%.*s]}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1, (int)u, sh); fflush(stdout);
    }
    return 0;
}
