/* Preloaded into an executable: its calls on files of its own (relative paths, and those below IOSHIM_ROOT) are
 * counted, delayed, handed over in pieces, failed, or are the moment at which the process is killed.
 *   IOSHIM_MODE  count | delay | short | fail | kill
 *   IOSHIM_AT    the number of the call that fails, or before (or, for a write, in the middle of) which to kill
 *   IOSHIM_ERRNO the error of the failing call
 *   IOSHIM_ONLY  w: only calls that open to write, write, or list or change the directory count
 *   IOSHIM_SEED  of the random choices
 *   IOSHIM_MAX   the longest delay in microseconds
 *   IOSHIM_LOG   where to write the number of calls at the end, and what kind they were */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, DELAY, SHORT, FAIL, KILL };
static int mode, at, err = EIO;
static unsigned maxus = 1500;
static unsigned long long seed;
static int calls, writes_only;
static char kinds[1 << 16];
static unsigned char mine[4096];
static const char *root, *logfile;

__attribute__((constructor)) static void start(void) {
    const char *m = getenv("IOSHIM_MODE");
    const char *e;
    if (!m) return;
    mode = !strcmp(m, "count") ? COUNT : !strcmp(m, "delay") ? DELAY : !strcmp(m, "short") ? SHORT : !strcmp(m, "fail") ? FAIL : !strcmp(m, "kill") ? KILL : OFF;
    if ((e = getenv("IOSHIM_AT"))) at = atoi(e);
    if ((e = getenv("IOSHIM_ERRNO"))) err = atoi(e);
    if ((e = getenv("IOSHIM_MAX"))) maxus = atoi(e);
    if ((e = getenv("IOSHIM_SEED"))) seed = strtoull(e, 0, 10);
    writes_only = getenv("IOSHIM_ONLY") != 0;
    root = getenv("IOSHIM_ROOT");
    logfile = getenv("IOSHIM_LOG");
}
__attribute__((destructor)) static void end(void) {
    if (!mode || !logfile) return;
    int fd = syscall(SYS_openat, AT_FDCWD, logfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    int n = calls < (int)sizeof kinds ? calls : (int)sizeof kinds;
    if (syscall(SYS_write, fd, kinds, n) != n) {}
    syscall(SYS_close, fd);
}
static unsigned rnd(void) {
    unsigned long long z = __atomic_add_fetch(&seed, 0x9E3779B97F4A7C15ULL, __ATOMIC_RELAXED);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return (unsigned)((z ^ (z >> 31)) >> 16);
}
static int eligible(const char *p) {
    if (!mode || !p) return 0;
    if (p[0] != '/') return 1;
    return root && !strncmp(p, root, strlen(root));
}
/* 1: this call is to fail, 2: it is the one to be killed in */
static int step(char kind) {
    if (writes_only && (kind == 'r' || kind == 'o' || kind == 'k')) return 0;
    int k = __atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED);
    if (k <= (int)sizeof kinds) kinds[k - 1] = kind;
    if (mode == DELAY && rnd() % 4) usleep(rnd() % (maxus + 1));
    if (mode == FAIL && k == at) return 1;
    if (mode == KILL && k == at) return 2;
    return 0;
}
static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define FAILS(kind) do { int s_ = step(kind); if (s_ == 2) die(); if (s_ == 1) { errno = err; return -1; } } while (0)
static int is_mine(int fd) { return mode && fd >= 0 && fd < (int)sizeof mine && mine[fd]; }
static int note(int fd) {
    if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 1;
    return fd;
}
static size_t part(size_t n) {
    if (mode != SHORT || n <= 1) return n;
    unsigned r = rnd();
    if (r % 8 == 0) return n;
    size_t lim = r % 8 < 3 ? (n < 16 ? n : 16) : n;
    return 1 + rnd() % lim;
}
int open64(const char *p, int flags, ...) {
    REAL(open64);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if (!eligible(p)) return real(p, flags, m);
    FAILS((flags & O_ACCMODE) == O_RDONLY ? 'o' : 'O');
    return note(real(p, flags, m));
}
int open(const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return open64(p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
    REAL(openat64);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if (!eligible(p)) return real(d, p, flags, m);
    FAILS((flags & O_ACCMODE) == O_RDONLY ? 'o' : 'O');
    return note(real(d, p, flags, m));
}
int close(int fd) {
    REAL(close);
    if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 0;
    return real(fd);
}
#define READER(name, args, call) \
    ssize_t name args { REAL(name); if (!is_mine(fd)) return real call; FAILS('r'); n = part(n); return real call; }
READER(read, (int fd, void *b, size_t n), (fd, b, n))
READER(pread64, (int fd, void *b, size_t n, off64_t o), (fd, b, n, o))
#define WRITER(name, args, call) \
    ssize_t name args { \
        REAL(name); \
        if (!is_mine(fd)) return real call; \
        int s = step('w'); \
        if (s == 1) { errno = err; return -1; } \
        if (s == 2) { n = seed % 2 ? n / 2 : 0; if (n && real call < 0) {} die(); } \
        n = part(n); \
        return real call; }
WRITER(write, (int fd, const void *b, size_t n), (fd, b, n))
WRITER(pwrite64, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o))
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if (!is_mine(fd)) return real(fd, v, n);
    FAILS('w');
    return real(fd, v, mode == SHORT && n > 1 ? 1 + rnd() % n : n);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    REAL(readv);
    if (!is_mine(fd)) return real(fd, v, n);
    FAILS('r');
    return real(fd, v, mode == SHORT && n > 1 ? 1 + rnd() % n : n);
}
/* listing a directory */
static DIR *listed;
DIR *opendir(const char *p) {
    REAL(opendir);
    if (!eligible(p)) return real(p);
    int s = step('L');
    if (s == 2) die();
    if (s == 1) { errno = err; return 0; }
    return listed = real(p);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    if (!mode || d != listed) return real(d);
    int s = step('L');
    if (s == 2) die();
    if (s == 1) { errno = err; return 0; }
    return real(d);
}
int rename(const char *a, const char *b) {
    REAL(rename);
    if (eligible(a) || eligible(b)) FAILS('m');
    return real(a, b);
}
int unlink(const char *a) {
    REAL(unlink);
    if (eligible(a)) FAILS('u');
    return real(a);
}
int link(const char *a, const char *b) {
    REAL(link);
    if (eligible(a)) FAILS('l');
    return real(a, b);
}
int linkat(int da, const char *a, int db, const char *b, int f) {
    REAL(linkat);
    if (eligible(a)) FAILS('l');
    return real(da, a, db, b, f);
}
int mkdir(const char *a, mode_t m) {
    REAL(mkdir);
    if (eligible(a)) FAILS('d');
    return real(a, m);
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (is_mine(fd)) FAILS('t');
    return real(fd, n);
}
int fsync(int fd) {
    REAL(fsync);
    if (is_mine(fd)) FAILS('s');
    return real(fd);
}
int fdatasync(int fd) {
    REAL(fdatasync);
    if (is_mine(fd)) FAILS('s');
    return real(fd);
}
off64_t lseek64(int fd, off64_t o, int w) {
    REAL(lseek64);
    if (is_mine(fd)) FAILS('k');
    return real(fd, o, w);
}
/* copying within the kernel is refused, so that it is done with reads and writes */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (is_mine(a) || is_mine(b)) { errno = ENOSYS; return -1; }
    return real(a, x, b, y, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
    extern ssize_t sendfile64(int, int, off64_t *, size_t);
    static ssize_t (*real)(int, int, off64_t *, size_t);
    if (!real) real = (ssize_t(*)(int, int, off64_t *, size_t))dlsym(RTLD_NEXT, "sendfile64");
    if (is_mine(a) || is_mine(b)) { errno = EINVAL; return -1; }
    return real(a, b, o, n);
}
