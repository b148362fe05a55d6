/* Preloaded under the approval script: /var/run/sudo_pair means $SP_REAL, and every path looked at below it is recorded. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *map(const char *p, char *buf, size_t n) {
    static const char *pre[] = { "/var/run/sudo_pair", "/run/sudo_pair" };
    const char *real = getenv("SP_REAL");
    if (!p || !real) return p;
    for (int i = 0; i < 2; i++) {
        size_t l = strlen(pre[i]);
        if (!strncmp(p, pre[i], l) && (p[l] == 0 || p[l] == '/')) {
            snprintf(buf, n, "%s%s", real, p + l);
            return buf;
        }
    }
    return p;
}
#define M char b_[4352]; const char *q = map(p, b_, sizeof b_)
#define REAL(t, f, ...) static t (*r)(__VA_ARGS__); if (!r) r = dlsym(RTLD_NEXT, #f)
int stat(const char *p, struct stat *s) { REAL(int, stat, const char *, struct stat *); M; return r(q, s); }
int lstat(const char *p, struct stat *s) { REAL(int, lstat, const char *, struct stat *); M; return r(q, s); }
int stat64(const char *p, struct stat64 *s) { REAL(int, stat64, const char *, struct stat64 *); M; return r(q, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(int, lstat64, const char *, struct stat64 *); M; return r(q, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { REAL(int, fstatat, int, const char *, struct stat *, int); M; return r(d, q, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REAL(int, fstatat64, int, const char *, struct stat64 *, int); M; return r(d, q, s, f); }
int statx(int d, const char *p, int f, unsigned m, struct statx *s) { REAL(int, statx, int, const char *, int, unsigned, struct statx *); M; return r(d, q, f, m, s); }
int access(const char *p, int m) { REAL(int, access, const char *, int); M; return r(q, m); }
int eaccess(const char *p, int m) { REAL(int, eaccess, const char *, int); M; return r(q, m); }
int euidaccess(const char *p, int m) { REAL(int, euidaccess, const char *, int); M; return r(q, m); }
int faccessat(int d, const char *p, int m, int f) { REAL(int, faccessat, int, const char *, int, int); M; return r(d, q, m, f); }
int open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); REAL(int, open, const char *, int, ...); M; return r(q, f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); REAL(int, open64, const char *, int, ...); M; return r(q, f, m); }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); REAL(int, openat, int, const char *, int, ...); M; return r(d, q, f, m); }
