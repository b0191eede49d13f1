/* LD_PRELOAD seam between the code under test and the kernel.
 *
 * Every file system call of the process that concerns a path below one of the
 * armed root directories is counted, logged and - depending on the mode -
 * turned into a crash point, a failing call or a scheduling point.  The wall
 * clock can be replaced by a virtual one.  Unarmed, everything passes through.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { M_OFF = 0, M_COUNT = 1, M_CRASH = 2, M_FAULT = 3, M_SCHED = 4, M_INT = 5 };

/* operation classes: bits of the masks given by the driver */
enum {
    C_CREATE = 1 << 0,   /* open creating or truncating a file */
    C_WRITE  = 1 << 1,
    C_RENAME = 1 << 2,
    C_UNLINK = 1 << 3,
    C_MKDIR  = 1 << 4,
    C_RMDIR  = 1 << 5,
    C_CHMOD  = 1 << 6,
    C_TRUNC  = 1 << 7,
    C_LINK   = 1 << 8,
    C_SYNC   = 1 << 9,
    C_UTIME  = 1 << 10,
    C_OPEN   = 1 << 11,  /* open of an existing file */
    C_READ   = 1 << 12,
    C_STAT   = 1 << 13,
    C_DIR    = 1 << 14,  /* opendir */
    C_LOCK   = 1 << 15,
    C_SLEEP  = 1 << 16,
};

static int g_mode;
static char *g_root[8];
static size_t g_rootlen[8];
static int g_nroot;
static unsigned g_mask;
static long g_at;
static int g_variant;
static int g_errno;
static int g_sticky;
static unsigned g_stickymask;
static int g_fired;
static long g_count;
static char *g_log;
static long g_logcap;
static long g_loglen;
static int g_sin = -1, g_sout = -1;
static int g_busy;

#define NFD 4096
static unsigned char fd_in[NFD];
static char *fd_path[NFD];

static int clk_on;
static long long clk_ns, clk_step;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }

/* ---------------------------------------------------------------- control */
static void set_roots(const char *roots)
{
    for (int i = 0; i < g_nroot; i++) free(g_root[i]);
    g_nroot = 0;
    char *copy = strdup(roots ? roots : ""), *save = 0;
    for (char *p = strtok_r(copy, "\n", &save); p && g_nroot < 8; p = strtok_r(0, "\n", &save)) {
        g_root[g_nroot] = strdup(p);
        g_rootlen[g_nroot] = strlen(p);
        g_nroot++;
    }
    free(copy);
}

void mc_arm(int mode, const char *roots, unsigned mask, long at, int variant,
            int err, int sticky, unsigned stickymask,
            char *log, long logcap, int sin, int sout)
{
    set_roots(roots);
    g_mask = mask; g_at = at; g_variant = variant; g_errno = err;
    g_sticky = sticky; g_stickymask = stickymask; g_fired = 0; g_count = 0;
    g_log = log; g_logcap = logcap; g_loglen = 0;
    if (g_log && g_logcap > 8) { ((long *)g_log)[0] = 0; }
    g_sin = sin; g_sout = sout;
    g_mode = mode;
}

void mc_disarm(void) { g_mode = M_OFF; }
long mc_count(void) { return g_count; }
int mc_fired(void) { return g_fired; }
void mc_clock(int on, long long ns, long long step) { clk_on = on; clk_ns = ns; clk_step = step; }
long long mc_clock_now(void) { return clk_ns; }

/* ---------------------------------------------------------------- helpers */
static int in_root(const char *abs)
{
    for (int i = 0; i < g_nroot; i++)
        if (!strncmp(abs, g_root[i], g_rootlen[i])
            && (abs[g_rootlen[i]] == '/' || abs[g_rootlen[i]] == 0))
            return 1;
    return 0;
}

static int abspath(int dirfd, const char *path, char *out)
{
    if (!path) return 0;
    if (path[0] == '/') { snprintf(out, PATH_MAX, "%s", path); return 1; }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, base, sizeof base) <= 0) return 0;
    } else {
        char lnk[64];
        snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
        ssize_t n = syscall(SYS_readlink, lnk, base, sizeof base - 1);
        if (n <= 0) return 0;
        base[n] = 0;
    }
    if (path[0]) {
        size_t bl = strlen(base), pl = strlen(path);
        if (bl + pl + 2 > PATH_MAX) return 0;
        memcpy(out, base, bl); out[bl] = '/'; memcpy(out + bl + 1, path, pl + 1);
    } else snprintf(out, PATH_MAX, "%s", base);
    return 1;
}

static int scoped(int dirfd, const char *path, char *out)
{
    if (!g_mode || g_busy) return 0;
    if (!abspath(dirfd, path, out)) return 0;
    return in_root(out);
}

static int fdscoped(int fd) { return g_mode && !g_busy && fd >= 0 && fd < NFD && fd_in[fd]; }

static void logop(const char *op, const char *path, long a)
{
    if (!g_log) return;
    char line[PATH_MAX + 128];
    int n = snprintf(line, sizeof line, "%ld %s %s %ld\n", g_count, op, path ? path : "?", a);
    long *len = (long *)g_log;
    if (n > 0 && *len + n + 16 < g_logcap) {
        memcpy(g_log + sizeof(long) + *len, line, n);
        *len += n;
    }
}

static void die_now(void) { syscall(SYS_exit_group, 77); }

/* Announce an operation. Returns 0 to go on, an errno to make it fail,
 * -1 for "tear this write, then die". */
static int point(unsigned cls, const char *op, const char *path, long a)
{
    int saved = errno;
    if (g_mode == M_SCHED) {
        if (cls & g_mask) {
            char line[PATH_MAX + 128];
            g_count++;
            int n = snprintf(line, sizeof line, "%u %s %s %ld\n", cls, op, path ? path : "?", a);
            raw_write(g_sout, line, n);
            char c;
            ssize_t r;
            do r = raw_read(g_sin, &c, 1); while (r < 0 && errno == EINTR);
            if (r != 1 || c == 'K') syscall(SYS_exit_group, 78);
            errno = saved;
            if (c == 'C') die_now();
        }
        errno = saved;
        return 0;
    }
    if (g_mode == M_FAULT && g_fired && g_sticky && (cls & g_stickymask)) {
        logop("FAIL", path, a);
        return g_errno;
    }
    if (!(cls & g_mask)) { errno = saved; return 0; }
    g_count++;
    logop(op, path, a);
    if (g_mode == M_CRASH && g_count == g_at) {
        g_fired = 1;
        if (g_variant == 0 || !(cls & C_WRITE)) die_now();
        return -1;
    }
    if (g_mode == M_INT && g_count == g_at) {
        g_fired = 1;
        kill(getpid(), SIGINT);
    }
    if (g_mode == M_FAULT && g_count == g_at) {
        g_fired = 1;
        if (g_variant && (cls & C_WRITE)) return -2;   /* short write, then fail */
        return g_errno;
    }
    errno = saved;
    return 0;
}

static void setfd(int fd, int in, const char *path)
{
    if (fd < 0 || fd >= NFD) return;
    fd_in[fd] = in;
    free(fd_path[fd]);
    fd_path[fd] = in ? strdup(path) : 0;
}

static const char *fdname(int fd) { return fd >= 0 && fd < NFD && fd_path[fd] ? fd_path[fd] : "?"; }

/* ------------------------------------------------------------------- open */
static int exists(int dirfd, const char *path)
{
    struct stat st;
    int saved = errno;
    int r = syscall(SYS_newfstatat, dirfd, path, &st, AT_SYMLINK_NOFOLLOW);
    errno = saved;
    return r == 0;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char abs[PATH_MAX];
    int in = scoped(dirfd, path, abs);
    if (in) {
        unsigned cls = C_OPEN;
        const char *op = (flags & O_ACCMODE) == O_RDONLY ? "open" : "openrw";
        if ((flags & O_TMPFILE) == O_TMPFILE) { cls = C_CREATE; op = "tmpfile"; }
        else if (flags & O_DIRECTORY) { cls = C_DIR; op = "opendir"; }
        else if ((flags & O_CREAT) && !exists(dirfd, path)) { cls = C_CREATE; op = "create"; }
        else if (flags & O_TRUNC) { cls = C_CREATE; op = "trunc"; }
        int e = point(cls, op, abs, flags);
        if (e > 0) { errno = e; return -1; }
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0) setfd(fd, in, abs);
    return fd;
}

#define OPENMODE(last) mode_t mode = 0; \
    if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, last); mode = va_arg(ap, int); va_end(ap); }

int open(const char *p, int flags, ...) { OPENMODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { OPENMODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { OPENMODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { OPENMODE(flags) return do_open(d, p, flags, mode); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd)
{
    if (fd >= 0 && fd < NFD && fd_in[fd]) {
        /* closing drops the POSIX locks of the process: a scheduling event */
        if (g_mode == M_SCHED && !g_busy) point(C_LOCK, "close", fdname(fd), 0);
        setfd(fd, 0, 0);
    }
    return syscall(SYS_close, fd);
}

int dup(int fd)
{
    int n = syscall(SYS_dup, fd);
    if (n >= 0 && fd >= 0 && fd < NFD && fd_in[fd]) setfd(n, 1, fdname(fd));
    return n;
}

/* ------------------------------------------------------------------ write */
static size_t torn_len(size_t n)
{
    switch (g_variant) {
    case 1: return n > 1 ? 1 : 0;
    case 2: return n / 2;
    case 3: return n ? n - 1 : 0;
    default: return n;
    }
}

#define WRITE_POINT(op, n, DOWRITE) \
    if (fdscoped(fd)) { \
        int e = point(C_WRITE, op, fdname(fd), (long)(n)); \
        if (e > 0) { errno = e; return -1; } \
        if (e < 0) { \
            size_t t = torn_len(n); \
            ssize_t done = 0; \
            if (t) { done = DOWRITE; } \
            if (e == -1) die_now(); \
            if (done <= 0) { errno = g_errno; return -1; } \
            return done; \
        } \
    }

ssize_t write(int fd, const void *b, size_t n)
{
    WRITE_POINT("write", n, syscall(SYS_write, fd, b, t))
    return syscall(SYS_write, fd, b, n);
}

static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t off)
{
    WRITE_POINT("pwrite", n, syscall(SYS_pwrite64, fd, b, t, off))
    return syscall(SYS_pwrite64, fd, b, n, off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return do_pwrite(fd, b, n, off); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return do_pwrite(fd, b, n, off); }

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    size_t n = 0;
    for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
    WRITE_POINT("writev", n, syscall(SYS_write, fd, iov[0].iov_base, t < iov[0].iov_len ? t : iov[0].iov_len))
    return syscall(SYS_writev, fd, iov, cnt);
}

static ssize_t do_sendfile(int fd, int in, off_t *off, size_t n)
{
    if (fdscoped(in)) {
        int e = point(C_READ, "read", fdname(in), (long)n);
        if (e > 0) { errno = e; return -1; }
    }
    if (fdscoped(fd)) {
        int e = point(C_WRITE, "sendfile", fdname(fd), (long)n);
        if (e > 0) { errno = e; return -1; }
        if (e < 0) {
            struct stat st;
            size_t total = n;
            if (!fstat(in, &st) && (size_t)st.st_size < total) total = st.st_size;
            size_t t = torn_len(total);
            ssize_t done = t ? syscall(SYS_sendfile, fd, in, off, t) : 0;
            if (e == -1) die_now();
            if (done <= 0) { errno = g_errno; return -1; }
            return done;
        }
    }
    return syscall(SYS_sendfile, fd, in, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return do_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return do_sendfile(o, i, (off_t *)off, n); }

ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl)
{
    int fd = out;
    if (fdscoped(fd)) {
        int e = point(C_WRITE, "copy_file_range", fdname(fd), (long)n);
        if (e > 0) { errno = e; return -1; }
        if (e == -1) die_now();
        if (e < 0) { errno = g_errno; return -1; }
    }
    return syscall(SYS_copy_file_range, in, io, out, oo, n, fl);
}

static int do_ftruncate(int fd, off_t len)
{
    if (fdscoped(fd)) {
        int e = point(C_TRUNC, "ftruncate", fdname(fd), (long)len);
        if (e > 0) { errno = e; return -1; }
    }
    return syscall(SYS_ftruncate, fd, len);
}
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { return do_ftruncate(fd, l); }

static int do_truncate(const char *p, off_t len)
{
    char abs[PATH_MAX];
    if (scoped(AT_FDCWD, p, abs)) {
        int e = point(C_TRUNC, "truncate", abs, (long)len);
        if (e > 0) { errno = e; return -1; }
    }
    return syscall(SYS_truncate, p, len);
}
int truncate(const char *p, off_t l) { return do_truncate(p, l); }
int truncate64(const char *p, off64_t l) { return do_truncate(p, l); }

static int do_sync(int fd, long nr)
{
    if (fdscoped(fd)) {
        int e = point(C_SYNC, "fsync", fdname(fd), 0);
        if (e > 0) { errno = e; return -1; }
        return 0;  /* process crash model: nothing to flush */
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_fallocate(int fd, off_t o, off_t l)
{
    if (fdscoped(fd)) {
        int e = point(C_TRUNC, "fallocate", fdname(fd), (long)l);
        if (e > 0) return e;
    }
    return syscall(SYS_fallocate, fd, 0, o, l) ? errno : 0;
}
int posix_fallocate(int fd, off_t o, off_t l) { return do_fallocate(fd, o, l); }
int posix_fallocate64(int fd, off64_t o, off64_t l) { return do_fallocate(fd, o, l); }

/* -------------------------------------------------------------- namespace */
#define PATHOP(cls, op, d, p) \
    { char abs[PATH_MAX]; \
      if (scoped(d, p, abs)) { int e = point(cls, op, abs, 0); if (e > 0) { errno = e; return -1; } } }

static int do_rename(int od, const char *o, int nd, const char *n, unsigned fl)
{
    char a[PATH_MAX], b[PATH_MAX];
    int ia = scoped(od, o, a), ib = scoped(nd, n, b);
    if (ia || ib) {
        char both[2 * PATH_MAX + 8];
        if (!ia) abspath(od, o, a);
        if (!ib) abspath(nd, n, b);
        snprintf(both, sizeof both, "%s->%s", a, b);
        both[PATH_MAX - 1] = 0;
        int e = point(C_RENAME, "rename", both, 0);
        if (e > 0) { errno = e; return -1; }
    }
    return syscall(SYS_renameat2, od, o, nd, n, fl);
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned f) { return do_rename(od, o, nd, n, f); }

int unlink(const char *p) { PATHOP(C_UNLINK, "unlink", AT_FDCWD, p) return syscall(SYS_unlink, p); }
int rmdir(const char *p) { PATHOP(C_RMDIR, "rmdir", AT_FDCWD, p) return syscall(SYS_rmdir, p); }
int unlinkat(int d, const char *p, int fl)
{
    PATHOP((fl & AT_REMOVEDIR) ? C_RMDIR : C_UNLINK, (fl & AT_REMOVEDIR) ? "rmdir" : "unlink", d, p)
    return syscall(SYS_unlinkat, d, p, fl);
}
int remove(const char *p)
{
    struct stat st;
    if (!lstat(p, &st) && S_ISDIR(st.st_mode)) return rmdir(p);
    return unlink(p);
}
int mkdir(const char *p, mode_t m) { PATHOP(C_MKDIR, "mkdir", AT_FDCWD, p) return syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(C_MKDIR, "mkdir", d, p) return syscall(SYS_mkdirat, d, p, m); }
int chmod(const char *p, mode_t m) { PATHOP(C_CHMOD, "chmod", AT_FDCWD, p) return syscall(SYS_chmod, p, m); }
int fchmodat(int d, const char *p, mode_t m, int fl)
{
    PATHOP(C_CHMOD, "chmod", d, p)
    REAL(int, fchmodat, int, const char *, mode_t, int);
    return real(d, p, m, fl);
}
int lchmod(const char *p, mode_t m)
{
    PATHOP(C_CHMOD, "chmod", AT_FDCWD, p)
    REAL(int, lchmod, const char *, mode_t);
    return real(p, m);
}
int fchmod(int fd, mode_t m)
{
    if (fdscoped(fd)) { int e = point(C_CHMOD, "fchmod", fdname(fd), m); if (e > 0) { errno = e; return -1; } }
    return syscall(SYS_fchmod, fd, m);
}
int link(const char *o, const char *n) { PATHOP(C_LINK, "link", AT_FDCWD, n) return syscall(SYS_link, o, n); }
int linkat(int od, const char *o, int nd, const char *n, int fl)
{ PATHOP(C_LINK, "link", nd, n) return syscall(SYS_linkat, od, o, nd, n, fl); }
int symlink(const char *t, const char *p) { PATHOP(C_LINK, "symlink", AT_FDCWD, p) return syscall(SYS_symlink, t, p); }
int symlinkat(const char *t, int d, const char *p) { PATHOP(C_LINK, "symlink", d, p) return syscall(SYS_symlinkat, t, d, p); }
int utimensat(int d, const char *p, const struct timespec t[2], int fl)
{ if (p) PATHOP(C_UTIME, "utime", d, p) return syscall(SYS_utimensat, d, p, t, fl); }

/* ------------------------------------------------------------------ reads */
ssize_t read(int fd, void *b, size_t n)
{
    if (fdscoped(fd)) { int e = point(C_READ, "read", fdname(fd), (long)n); if (e > 0) { errno = e; return -1; } }
    return syscall(SYS_read, fd, b, n);
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t o)
{
    if (fdscoped(fd)) { int e = point(C_READ, "pread", fdname(fd), (long)n); if (e > 0) { errno = e; return -1; } }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }

#define STATOP(d, p) PATHOP(C_STAT, "stat", d, p)
int stat(const char *p, struct stat *s) { STATOP(AT_FDCWD, p) REAL(int, stat, const char *, struct stat *); return real(p, s); }
int stat64(const char *p, struct stat64 *s) { STATOP(AT_FDCWD, p) REAL(int, stat64, const char *, struct stat64 *); return real(p, s); }
int lstat(const char *p, struct stat *s) { STATOP(AT_FDCWD, p) REAL(int, lstat, const char *, struct stat *); return real(p, s); }
int lstat64(const char *p, struct stat64 *s) { STATOP(AT_FDCWD, p) REAL(int, lstat64, const char *, struct stat64 *); return real(p, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { STATOP(d, p) REAL(int, fstatat, int, const char *, struct stat *, int); return real(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { STATOP(d, p) REAL(int, fstatat64, int, const char *, struct stat64 *, int); return real(d, p, s, f); }
int access(const char *p, int m) { STATOP(AT_FDCWD, p) return syscall(SYS_access, p, m); }

DIR *opendir(const char *p)
{
    char abs[PATH_MAX];
    if (scoped(AT_FDCWD, p, abs)) { int e = point(C_DIR, "opendir", abs, 0); if (e > 0) { errno = e; return 0; } }
    REAL(DIR *, opendir, const char *);
    g_busy++;
    DIR *d = real(p);
    g_busy--;
    return d;
}
DIR *fdopendir(int fd)
{
    REAL(DIR *, fdopendir, int);
    return real(fd);
}

/* ------------------------------------------------------------------ locks */
static int do_fcntl(int fd, int cmd, long arg)
{
    if (fdscoped(fd) && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK)) {
        struct flock *fl = (struct flock *)arg;
        point(C_LOCK, cmd == F_GETLK ? "getlk" : fl->l_type == F_UNLCK ? "unlock" : "lock", fdname(fd), fl->l_type);
    }
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && fd >= 0 && fd < NFD && fd_in[fd])
        setfd(r, 1, fdname(fd));
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ------------------------------------------------------------------ sleep */
static int virtual_sleep(long long ns)
{
    if (g_mode == M_SCHED && !g_busy && (g_mask & C_SLEEP)) {
        /* (the virtual clock does not advance: it is not shared between the processes) */
        point(C_SLEEP, "sleep", "-", (long)(ns / 1000));
        return 1;
    }
    return 0;
}
int usleep(useconds_t us)
{
    if (virtual_sleep((long long)us * 1000)) return 0;
    struct timespec t = { us / 1000000, (us % 1000000) * 1000L };
    return syscall(SYS_nanosleep, &t, 0);
}
unsigned sleep(unsigned s)
{
    if (virtual_sleep((long long)s * 1000000000)) return 0;
    struct timespec t = { s, 0 };
    syscall(SYS_nanosleep, &t, 0);
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem)
{
    if (virtual_sleep(t->tv_sec * 1000000000LL + t->tv_nsec)) return 0;
    return syscall(SYS_nanosleep, t, rem);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem)
{
    if (virtual_sleep(fl ? 1000000 : t->tv_sec * 1000000000LL + t->tv_nsec)) return 0;
    int r = syscall(SYS_clock_nanosleep, c, fl, t, rem);
    return r < 0 ? errno : 0;
}

/* ------------------------------------------------------------------ clock */
int clock_gettime(clockid_t c, struct timespec *t)
{
    if (clk_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        t->tv_sec = clk_ns / 1000000000LL;
        t->tv_nsec = clk_ns % 1000000000LL;
        clk_ns += clk_step;
        return 0;
    }
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    return real(c, t);
}
int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *out)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
