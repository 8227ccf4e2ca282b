// Preloaded into the executable under check: numbers the file-system calls that concern the scratch directory
// (relative paths, and absolute ones below FAULT_ROOT), and lets chosen ones fail or transfer less than asked for.
//   FAULT_PLAN  "<call>:<fault>[,<call>:<fault>]..."  fault: an errno, or 's' (one byte only) or 'h' (half)
//   FAULT_LOG   file that receives one line "<call> <operation> <failed> <path>" per call
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#define MAXFD 4096
static char *names[MAXFD];
static int calls, logfd = -2;
static const char *root;
static struct { int call; int err; char part; } plan[8];
static int nplan;

static void init(void) {
    if (logfd != -2) return;
    logfd = -1;
    root = getenv("FAULT_ROOT");
    const char *p = getenv("FAULT_PLAN");
    while (p && *p && nplan < 8) {
        plan[nplan].call = atoi(p);
        p = strchr(p, ':') + 1;
        if (*p == 's' || *p == 'h') plan[nplan].part = *p;
        else plan[nplan].err = atoi(p);
        nplan++;
        p = strchr(p, ',');
        if (p) p++;
    }
    const char *l = getenv("FAULT_LOG");
    if (l) {
        int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
        logfd = f(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    }
}
static int ours(const char *path) {
    init();
    return path && (path[0] != '/' || (root && !strncmp(path, root, strlen(root))));
}
// returns the fault for this call: 0 none, >0 errno, -1 one byte, -2 half
static int step(const char *op, const char *path) {
    int n = calls++, r = 0;
    for (int i = 0; i < nplan; i++)
        if (plan[i].call == n) r = plan[i].part == 's' ? -1 : plan[i].part == 'h' ? -2 : plan[i].err;
    if (logfd >= 0) {
        char b[5000];
        int k = snprintf(b, sizeof b, "%d %s %d %s\n", n, op, r, path);
        // (paths in logs are single lines: line feeds become '?')
        for (int i = 0; i < k - 1; i++) if (b[i] == '\n') b[i] = '?';
        ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
        w(logfd, b, k);
    }
    return r;
}
static int opened(int fd, const char *path) {
    if (fd >= 0 && fd < MAXFD) { free(names[fd]); names[fd] = strdup(path); }
    return fd;
}
static const char *opname(int flags) { return (flags & O_DIRECTORY) ? "opendir" : (flags & O_ACCMODE) == O_RDONLY ? "open" : "create"; }
#define OPEN(NAME) \
int NAME(const char *path, int flags, ...) { \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, #NAME); \
    if (!ours(path)) return f(path, flags, m); \
    int e = step(opname(flags), path); \
    if (e > 0) { errno = e; return -1; } \
    return opened(f(path, flags, m), path); \
}
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
int NAME(int d, const char *path, int flags, ...) { \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, #NAME); \
    if (!ours(path)) return f(d, path, flags, m); \
    int e = step(opname(flags), path); \
    if (e > 0) { errno = e; return -1; } \
    return opened(f(d, path, flags, m), path); \
}
OPENAT(openat)
OPENAT(openat64)
int close(int fd) {
    int (*f)(int) = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < MAXFD) { free(names[fd]); names[fd] = 0; }
    return f(fd);
}
#define TRANSFER(NAME, PTR, OP) \
ssize_t NAME(int fd, PTR b, size_t n) { \
    ssize_t (*f)(int, PTR, size_t) = dlsym(RTLD_NEXT, #NAME); \
    if (fd < 0 || fd >= MAXFD || !names[fd]) return f(fd, b, n); \
    int e = step(OP, names[fd]); \
    if (e > 0) { errno = e; return -1; } \
    if (e == -1 && n > 1) n = 1; \
    if (e == -2 && n > 1) n = n / 2; \
    return f(fd, b, n); \
}
TRANSFER(read, void *, "read")
TRANSFER(write, const void *, "write")
static DIR *dirs[256];
static char *dirnames[256];
DIR *opendir(const char *path) {
    DIR *(*f)(const char *) = dlsym(RTLD_NEXT, "opendir");
    if (!ours(path)) return f(path);
    int e = step("opendir", path);
    if (e > 0) { errno = e; return 0; }
    DIR *d = f(path);
    for (int i = 0; d && i < 256; i++) if (!dirs[i]) { dirs[i] = d; dirnames[i] = strdup(path); break; }
    return d;
}
int closedir(DIR *d) {
    int (*f)(DIR *) = dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 256; i++) if (dirs[i] == d) { dirs[i] = 0; free(dirnames[i]); }
    return f(d);
}
#define READDIR(NAME, T) \
struct T *NAME(DIR *d) { \
    struct T *(*f)(DIR *) = dlsym(RTLD_NEXT, #NAME); \
    for (int i = 0; i < 256; i++) if (dirs[i] == d) { \
        int e = step("readdir", dirnames[i]); \
        if (e > 0) { errno = e; return 0; } \
    } \
    return f(d); \
}
READDIR(readdir, dirent)
READDIR(readdir64, dirent64)
#define ONEPATH(NAME, PROTO, ARGS, PATH) \
int NAME PROTO { \
    int (*f) PROTO = dlsym(RTLD_NEXT, #NAME); \
    if (ours(PATH)) { int e = step(#NAME, PATH); if (e > 0) { errno = e; return -1; } } \
    return f ARGS; \
}
ONEPATH(rename, (const char *a, const char *b), (a, b), b)
ONEPATH(unlink, (const char *a), (a), a)
ONEPATH(link, (const char *a, const char *b), (a, b), b)
#define ONEFD(NAME, PROTO, ARGS) \
int NAME PROTO { \
    int (*f) PROTO = dlsym(RTLD_NEXT, #NAME); \
    if (fd >= 0 && fd < MAXFD && names[fd]) { int e = step(#NAME, names[fd]); if (e > 0) { errno = e; return -1; } } \
    return f ARGS; \
}
ONEFD(fsync, (int fd), (fd))
ONEFD(fdatasync, (int fd), (fd))
ONEFD(ftruncate, (int fd, off_t n), (fd, n))
ONEFD(ftruncate64, (int fd, off_t n), (fd, n))
int statx(int d, const char *path, int flags, unsigned mask, struct statx *b) {
    int (*f)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
    const char *volatile given = path; // null in the probe of Rust's library, which the declaration rules out
    const char *q = given;
    if (q && *q && ours(q)) {
        int e = step("stat", q);
        if (e > 0) { errno = e; return -1; }
    }
    return f(d, path, flags, mask, b);
}
#define STAT(NAME, T) \
int NAME(const char *path, struct T *b) { \
    int (*f)(const char *, struct T *) = dlsym(RTLD_NEXT, #NAME); \
    if (ours(path)) { int e = step("stat", path); if (e > 0) { errno = e; return -1; } } \
    return f(path, b); \
}
STAT(stat, stat)
STAT(lstat, stat)
STAT(stat64, stat64)
STAT(lstat64, stat64)
int access(const char *path, int how) {
    int (*f)(const char *, int) = dlsym(RTLD_NEXT, "access");
    if (ours(path)) { int e = step("stat", path); if (e > 0) { errno = e; return -1; } }
    return f(path, how);
}
