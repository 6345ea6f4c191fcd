/* Controlled file system faults below one directory (LD_PRELOAD).
 *
 * Every call that changes something below `prefix` (create/truncate, write, rename, unlink,
 * mkdir, rmdir, link, symlink, truncate) is one numbered operation; with `reads` set, calls
 * that only look (open for reading, read, stat) are numbered, too.
 *
 * mode 0: count and log
 * mode 1: crash: operation k is cut off after n bytes (writes) or does not happen, and from
 *         then on nothing below prefix changes any more (every call fails with EIO)
 * mode 2: fault: operation k fails (writes: after n bytes) with `err`, everything else works
 * mode 3: switch: before operation k the callback runs (another process acts)
 * mode 4: schedule: before every operation of any thread the callback runs (it may block)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdlib.h>
#include <limits.h>

#define MAXOPS 4096
static char prefix[PATH_MAX];
static size_t plen;
static long opno, target_k, target_n;
static int mode = -1, frozen, reads, err_no = EIO, busy;
static char kinds[MAXOPS];
static long sizes[MAXOPS];
static unsigned char mine[65536];
static void (*callback)(void);
static __thread int inside;

void cf_arm(const char *p, int m, long k, long n, int rd, int e) {
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    mode = m; target_k = k; target_n = n; reads = rd; err_no = e ? e : EIO;
    opno = 0; frozen = 0; busy = 0;
    memset(mine, 0, sizeof mine);
}
void cf_disarm(void) { mode = -1; frozen = 0; }
void cf_callback(void (*f)(void)) { callback = f; }
long cf_count(void) { return opno; }
int cf_kind(long i) { return i < MAXOPS ? kinds[i] : 0; }
long cf_size(long i) { return i < MAXOPS ? sizes[i] : 0; }

static int below(int dirfd, const char *path) {
    char buf[PATH_MAX * 2];
    if (mode < 0 || busy || !path) return 0;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (!getcwd(buf, PATH_MAX)) return 0;
        } else {
            char l[64];
            ssize_t k;
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            k = readlink(l, buf, PATH_MAX - 1);
            if (k < 0) return 0;
            buf[k] = 0;
        }
        strcat(buf, "/");
        strncat(buf, path, PATH_MAX - 1);
        path = buf;
    }
    return strncmp(path, prefix, plen) == 0;
}

/* -> 0: go on, 1: do not do it (errno is set), 2: write only target_n bytes, then fail */
static int step(char kind, long size, int changing) {
    long i;
    if (!changing && !reads) return 0;
    if (frozen) { if (!changing) return 0; errno = EIO; return 1; }
    if (mode == 4) {
        if (!inside && callback) { inside = 1; callback(); inside = 0; }
        return 0;
    }
    i = opno++;
    if (i < MAXOPS) { kinds[i] = kind; sizes[i] = size; }
    if (i != target_k || mode == 0) return 0;
    if (mode == 3) {
        int m = mode;
        busy = 1;
        if (callback) callback();
        busy = 0; mode = m;
        return 0;
    }
    if (!changing) return 0;
    if (mode == 1) { frozen = 1; errno = EIO; }
    else errno = err_no;
    if (kind == 'w' && target_n > 0) return 2;
    return 1;
}

#define REAL(name, ret, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int opened(int fd, int is_mine) {
    if (fd >= 0 && fd < 65536) mine[fd] = is_mine;
    return fd;
}

#define OPEN_BODY(name, dirfd_, callargs, ...) \
    mode_t m = 0; int changing, b; \
    REAL(name, int, __VA_ARGS__, ...); \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } \
    b = below(dirfd_, path); \
    changing = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY; \
    if (b && step(changing ? 'c' : 'o', 0, changing)) return -1; \
    return opened(real callargs, b);

int open(const char *path, int flags, ...) { OPEN_BODY(open, AT_FDCWD, (path, flags, m), const char *, int) }
int open64(const char *path, int flags, ...) { OPEN_BODY(open64, AT_FDCWD, (path, flags, m), const char *, int) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(openat, d, (d, path, flags, m), int, const char *, int) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(openat64, d, (d, path, flags, m), int, const char *, int) }

static int is_mine(int fd) { return mode >= 0 && !busy && fd >= 0 && fd < 65536 && mine[fd]; }

int close(int fd) {
    REAL(close, int, int);
    if (fd >= 0 && fd < 65536 && !busy) mine[fd] = 0;
    return real(fd);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read, ssize_t, int, void *, size_t);
    if (is_mine(fd)) step('r', n, 0);
    return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write, ssize_t, int, const void *, size_t);
    if (is_mine(fd)) {
        int s = step('w', n, 1), e = errno;
        if (s == 1) return -1;
        if (s == 2) {
            long k = target_n < (long)n ? target_n : (long)n;
            const char *p = b;
            while (k > 0) { ssize_t w = real(fd, p, k); if (w <= 0) break; p += w; k -= w; }
            errno = e;
            return -1;
        }
    }
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite, ssize_t, int, const void *, size_t, off_t);
    if (is_mine(fd) && step('w', n, 1)) return -1;
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64, ssize_t, int, const void *, size_t, off64_t);
    if (is_mine(fd) && step('w', n, 1)) return -1;
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev, ssize_t, int, const struct iovec *, int);
    if (is_mine(fd) && step('w', 0, 1)) return -1;
    return real(fd, v, c);
}
ssize_t copy_file_range(int a, off64_t *x, int fd, off64_t *y, size_t n, unsigned f) {
    REAL(copy_file_range, ssize_t, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (is_mine(fd)) { errno = EXDEV; return -1; } /* makes callers fall back to write */
    return real(a, x, fd, y, n, f);
}
ssize_t sendfile(int fd, int a, off_t *o, size_t n) {
    REAL(sendfile, ssize_t, int, int, off_t *, size_t);
    if (is_mine(fd)) { errno = ENOTSOCK; return -1; }
    return real(fd, a, o, n);
}
ssize_t sendfile64(int fd, int a, off64_t *o, size_t n) {
    REAL(sendfile64, ssize_t, int, int, off64_t *, size_t);
    if (is_mine(fd)) { errno = ENOTSOCK; return -1; }
    return real(fd, a, o, n);
}
int ftruncate(int fd, off_t n) {
    REAL(ftruncate, int, int, off_t);
    if (is_mine(fd) && step('t', n, 1)) return -1;
    return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64, int, int, off64_t);
    if (is_mine(fd) && step('t', n, 1)) return -1;
    return real(fd, n);
}
int truncate(const char *p, off_t n) {
    REAL(truncate, int, const char *, off_t);
    if (below(AT_FDCWD, p) && step('t', n, 1)) return -1;
    return real(p, n);
}
int rename(const char *a, const char *b) {
    REAL(rename, int, const char *, const char *);
    if ((below(AT_FDCWD, a) || below(AT_FDCWD, b)) && step('m', 0, 1)) return -1;
    return real(a, b);
}
int renameat(int d, const char *a, int f, const char *b) {
    REAL(renameat, int, int, const char *, int, const char *);
    if ((below(d, a) || below(f, b)) && step('m', 0, 1)) return -1;
    return real(d, a, f, b);
}
int renameat2(int d, const char *a, int f, const char *b, unsigned g) {
    REAL(renameat2, int, int, const char *, int, const char *, unsigned);
    if ((below(d, a) || below(f, b)) && step('m', 0, 1)) return -1;
    return real(d, a, f, b, g);
}
int link(const char *a, const char *b) {
    REAL(link, int, const char *, const char *);
    if (below(AT_FDCWD, b) && step('l', 0, 1)) return -1;
    return real(a, b);
}
int linkat(int d, const char *a, int f, const char *b, int g) {
    REAL(linkat, int, int, const char *, int, const char *, int);
    if (below(f, b) && step('l', 0, 1)) return -1;
    return real(d, a, f, b, g);
}
int symlink(const char *a, const char *b) {
    REAL(symlink, int, const char *, const char *);
    if (below(AT_FDCWD, b) && step('l', 0, 1)) return -1;
    return real(a, b);
}
int unlink(const char *a) {
    REAL(unlink, int, const char *);
    if (below(AT_FDCWD, a) && step('u', 0, 1)) return -1;
    return real(a);
}
int unlinkat(int d, const char *a, int g) {
    REAL(unlinkat, int, int, const char *, int);
    if (below(d, a) && step('u', 0, 1)) return -1;
    return real(d, a, g);
}
int rmdir(const char *a) {
    REAL(rmdir, int, const char *);
    if (below(AT_FDCWD, a) && step('u', 0, 1)) return -1;
    return real(a);
}
int mkdir(const char *a, mode_t m) {
    REAL(mkdir, int, const char *, mode_t);
    if (below(AT_FDCWD, a) && step('d', 0, 1)) return -1;
    return real(a, m);
}
int mkdirat(int d, const char *a, mode_t m) {
    REAL(mkdirat, int, int, const char *, mode_t);
    if (below(d, a) && step('d', 0, 1)) return -1;
    return real(d, a, m);
}
int stat(const char *restrict p, struct stat *restrict s) {
    REAL(stat, int, const char *, struct stat *);
    if (below(AT_FDCWD, p)) step('s', 0, 0);
    return real(p, s);
}
int stat64(const char *restrict p, struct stat64 *restrict s) {
    REAL(stat64, int, const char *, struct stat64 *);
    if (below(AT_FDCWD, p)) step('s', 0, 0);
    return real(p, s);
}
