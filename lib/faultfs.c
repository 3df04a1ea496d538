/* Fault injector for file operations (LD_PRELOAD): counts the operations that concern a folder and, at a chosen one, kills the process
   (before / after / in the middle of a write), fails it with an error, or performs a short write. Controlled by zv_arm() through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE = 0, KILL_BEFORE = 1, KILL_AFTER = 2, TORN_KILL = 3, FAIL = 4, SHORT = 5 };
static char prefix[PATH_MAX]; static int armed = 0, count = 0; static int at[2] = {-1, -1}, mode[2], arg[2];
static char watched[4096]; static char names[512][24]; static long sizes[512];

void zv_arm(const char *p, int at1, int m1, int a1, int at2, int m2, int a2) {
    strncpy(prefix, p, sizeof prefix - 1); count = 0; at[0] = at1; mode[0] = m1; arg[0] = a1; at[1] = at2; mode[1] = m2; arg[1] = a2; memset(watched, 0, sizeof watched); armed = 1;
}
void zv_disarm(void) { armed = 0; }
int zv_count(void) { return count; }
const char *zv_name(int i) { return (i >= 0 && i < 512) ? names[i] : ""; }
long zv_size(int i) { return (i >= 0 && i < 512) ? sizes[i] : 0; }

static int in_folder(int dirfd, const char *path) {
    char buf[PATH_MAX]; if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) { if (!getcwd(buf, sizeof buf)) return 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, buf, sizeof buf - 1); if (n < 0) return 0; buf[n] = 0; }
        return strncmp(buf, prefix, strlen(prefix)) == 0;
    }
    return strncmp(path, prefix, strlen(prefix)) == 0;
}
/* returns index of the active fault for this operation or -1; kills itself for KILL_BEFORE */
static int step(const char *name, long size) {
    int k = count++; if (k < 512) { strncpy(names[k], name, 23); sizes[k] = size; }
    for (int i = 0; i < 2; i++) if (at[i] == k) { if (mode[i] == KILL_BEFORE) { kill(getpid(), SIGKILL); pause(); } if (mode[i] == 6) raise(SIGSTOP); return i; }
    return -1;
}
static void after(int f) { if (f >= 0 && mode[f] == KILL_AFTER) { int e = errno; kill(getpid(), SIGKILL); pause(); errno = e; } }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)
#define FAILED(f) ((f) >= 0 && mode[f] == FAIL)

#define OPENLIKE(fn, sig, dfd, ...) \
int fn sig { \
    va_list ap; va_start(ap, flags); int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
    REAL(int, #fn, __VA_ARGS__); \
    int w = (flags & O_ACCMODE) != O_RDONLY && in_folder(dfd, path); int f = -1; \
    if (w) { f = step("open", 0); if (FAILED(f)) { errno = arg[f]; return -1; } } \
    int r = OPEN_CALL_##fn; if (w && r >= 0 && r < 4096) watched[r] = 1; after(f); return r; }
#define OPEN_CALL_open real(path, flags, m)
#define OPEN_CALL_open64 real(path, flags, m)
#define OPEN_CALL_openat real(d, path, flags, m)
#define OPEN_CALL_openat64 real(d, path, flags, m)
OPENLIKE(open, (const char *path, int flags, ...), AT_FDCWD, const char *, int, int)
OPENLIKE(open64, (const char *path, int flags, ...), AT_FDCWD, const char *, int, int)
OPENLIKE(openat, (int d, const char *path, int flags, ...), d, int, const char *, int, int)
OPENLIKE(openat64, (int d, const char *path, int flags, ...), d, int, const char *, int, int)
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t); if (!armed || fd < 0 || fd >= 4096 || !watched[fd]) return real(fd, b, n);
    int f = step("write", (long)n); if (FAILED(f)) { errno = arg[f]; return -1; }
    if (f >= 0 && (mode[f] == TORN_KILL || mode[f] == SHORT)) {
        size_t k = (size_t)arg[f] < n ? (size_t)arg[f] : n; ssize_t r = k ? real(fd, b, k) : 0;
        if (mode[f] == TORN_KILL) { kill(getpid(), SIGKILL); pause(); }
        return r; }
    ssize_t r = real(fd, b, n); after(f); return r;
}
#define FDOP(ret, fn, sig, call, label, ...) ret fn sig { REAL(ret, #fn, __VA_ARGS__); if (!armed || fd < 0 || fd >= 4096 || !watched[fd]) return real call; \
    int f = step(label, 0); if (FAILED(f)) { if (label[0] == 'c' && label[1] == 'l') { real call; watched[fd] = 0; } errno = arg[f]; return -1; } ret r = real call; if (label[0] == 'c' && label[1] == 'l') watched[fd] = 0; after(f); return r; }
FDOP(ssize_t, pwrite, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), "pwrite", int, const void *, size_t, off_t)
FDOP(ssize_t, pwrite64, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o), "pwrite", int, const void *, size_t, off64_t)
FDOP(ssize_t, writev, (int fd, const struct iovec *v, int n), (fd, v, n), "writev", int, const struct iovec *, int)
FDOP(int, fsync, (int fd), (fd), "fsync", int)
FDOP(int, fdatasync, (int fd), (fd), "fdatasync", int)
FDOP(int, close, (int fd), (fd), "close", int)
FDOP(int, ftruncate, (int fd, off_t o), (fd, o), "ftruncate", int, off_t)
FDOP(int, ftruncate64, (int fd, off64_t o), (fd, o), "ftruncate", int, off64_t)
FDOP(int, fchmod, (int fd, mode_t m), (fd, m), "fchmod", int, mode_t)
FDOP(ssize_t, sendfile, (int fd, int in, off_t *o, size_t n), (fd, in, o, n), "sendfile", int, int, off_t *, size_t)
FDOP(ssize_t, sendfile64, (int fd, int in, off64_t *o, size_t n), (fd, in, o, n), "sendfile", int, int, off64_t *, size_t)
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); if (!armed || fd < 0 || fd >= 4096 || !watched[fd]) return real(in, io, fd, oo, n, fl);
    int f = step("copy_file_range", 0); if (FAILED(f)) { errno = arg[f]; return -1; } ssize_t r = real(in, io, fd, oo, n, fl); after(f); return r; }

#define PATHOP(fn, sig, call, cond, label, ...) int fn sig { REAL(int, #fn, __VA_ARGS__); if (!armed || !(cond)) return real call; \
    int f = step(label, 0); if (FAILED(f)) { errno = arg[f]; return -1; } int r = real call; after(f); return r; }
PATHOP(rename, (const char *a, const char *b), (a, b), in_folder(AT_FDCWD, a) || in_folder(AT_FDCWD, b), "rename", const char *, const char *)
PATHOP(renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), in_folder(d, a) || in_folder(e, b), "rename", int, const char *, int, const char *)
PATHOP(renameat2, (int d, const char *a, int e, const char *b, unsigned fl), (d, a, e, b, fl), in_folder(d, a) || in_folder(e, b), "rename", int, const char *, int, const char *, unsigned)
PATHOP(unlink, (const char *a), (a), in_folder(AT_FDCWD, a), "unlink", const char *)
PATHOP(unlinkat, (int d, const char *a, int fl), (d, a, fl), in_folder(d, a), "unlink", int, const char *, int)
PATHOP(remove, (const char *a), (a), in_folder(AT_FDCWD, a), "unlink", const char *)
PATHOP(mkdir, (const char *a, mode_t m), (a, m), in_folder(AT_FDCWD, a), "mkdir", const char *, mode_t)
PATHOP(mkdirat, (int d, const char *a, mode_t m), (d, a, m), in_folder(d, a), "mkdir", int, const char *, mode_t)
PATHOP(link, (const char *a, const char *b), (a, b), in_folder(AT_FDCWD, b), "link", const char *, const char *)
PATHOP(linkat, (int d, const char *a, int e, const char *b, int fl), (d, a, e, b, fl), in_folder(e, b), "link", int, const char *, int, const char *, int)
PATHOP(symlink, (const char *a, const char *b), (a, b), in_folder(AT_FDCWD, b), "symlink", const char *, const char *)
PATHOP(chmod, (const char *a, mode_t m), (a, m), in_folder(AT_FDCWD, a), "chmod", const char *, mode_t)
PATHOP(truncate, (const char *a, off_t o), (a, o), in_folder(AT_FDCWD, a), "truncate", const char *, off_t)
PATHOP(truncate64, (const char *a, off64_t o), (a, o), in_folder(AT_FDCWD, a), "truncate", const char *, off64_t)
