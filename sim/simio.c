/* Answers readhive's system calls on the hive file and on its output the way the plan says.
 * Plan: words "<where>:<kind>:<arg>", consumed in order per place (o open, r read, w write, s stat). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#define MAXOPS 256
struct op { char kind; long arg; };
static struct op plan[4][MAXOPS];
static int len[4], pos[4], hit[128];
static int target = -1, eof;
static const char *path;

__attribute__((constructor)) static void init(void) {
    path = getenv("SIMIO_FILE");
    const char *p = getenv("SIMIO_PLAN");
    const char *wh = "orws";
    while (p && *p) {
        char where, kind; long arg; int n = 0;
        if (sscanf(p, " %c:%c:%ld%n", &where, &kind, &arg, &n) != 3) break;
        const char *q = strchr(wh, where);
        if (q && len[q - wh] < MAXOPS) { struct op o = { kind, arg }; plan[q - wh][len[q - wh]++] = o; }
        p += n;
    }
}

__attribute__((destructor)) static void fini(void) {
    char b[256]; int n = 0;
    n += snprintf(b + n, sizeof b - n, "\nSIMIO");
    for (int k = 0; k < 128; k++) if (hit[k]) n += snprintf(b + n, sizeof b - n, " %c=%d", k, hit[k]);
    n += snprintf(b + n, sizeof b - n, "\n");
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (real(2, b, n) < 0) {}
}

static struct op *next(int w) { return pos[w] < len[w] ? &plan[w][pos[w]++] : NULL; }

static int opening(const char *p, int *fd) {
    if (!path || strcmp(p, path)) return 0;
    struct op *o = next(0);
    if (!o) return 1;
    if (o->kind == 'I') { hit['i']++; errno = EINTR; *fd = -1; return 2; }
    if (o->kind == 'E') { hit['o']++; errno = (int)o->arg; *fd = -1; return 2; }
    return 1;
}

#define OPEN(name) \
int name(const char *p, int flags, ...) { \
    static int (*real)(const char *, int, ...); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
    int fd = -1, k = opening(p, &fd); \
    if (k == 2) return -1; \
    fd = real(p, flags, mode); \
    if (k == 1) target = fd; \
    return fd; \
}
OPEN(open)
OPEN(open64)

ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    if (fd != target || fd < 0 || n == 0) return real(fd, buf, n);
    if (eof) return 0;
    struct op *o = next(1);
    if (o) switch (o->kind) {
        case 'I': hit['I']++; errno = EINTR; return -1;
        case 'E': hit['E']++; errno = (int)o->arg; return -1;
        case 'Z': hit['Z']++; eof = 1; return 0;
        case 'S': if ((size_t)o->arg < n && o->arg > 0) { hit['S']++; n = o->arg; } break;
    }
    return real(fd, buf, n);
}

ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (fd == 1 && n > 0) {
        struct op *o = next(2);
        if (o) switch (o->kind) {
            case 'I': hit['J']++; errno = EINTR; return -1;
            case 'S': if ((size_t)o->arg < n && o->arg > 0) { hit['W']++; n = o->arg; } break;
        }
    }
    return real(fd, buf, n);
}

int statx(int fd, const char *restrict p, int flags, unsigned mask, struct statx *restrict st) {
    static int (*real)(int, const char *, int, unsigned, struct statx *);
    if (!real) real = dlsym(RTLD_NEXT, "statx");
    int r = real(fd, p, flags, mask, st);
    if (fd == target && fd >= 0) {
        struct op *o = next(3);
        if (o) {
            if (o->kind == 'E') { hit['s']++; errno = (int)o->arg; return -1; }
            if (o->kind == 'H' && r == 0) { hit['h']++; st->stx_size = o->arg; }
        }
    }
    return r;
}
