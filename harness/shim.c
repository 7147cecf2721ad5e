/* LD_PRELOAD fault injector and controller of the run's environment.
 *
 * MC_ROOT    directory whose files count (relative paths count as well)
 * MC_FAULTS  "index:kind,..." the faults to inject at the n-th counted call
 *            kind: e<errno> fail with it; s short read/write of 1 byte;
 *            z return 0 from write; k kill the process before the call;
 *            t<n> kill it after the first n bytes of a write
 * MC_LOG     file that every counted call is appended to: "index op path",
 *            with a tab and the second path if there is one
 *            (with " !" at the end when a fault was injected)
 * MC_SEED    number that getrandom() is derived from
 * MC_TIME    seconds that the clocks start from
 *
 * MC_THREADS order in which threads that are started get to run: f each on its
 *            own before the one that started it goes on, r the last one first,
 *            o those with even numbers first
 *
 * MC_GATE    socket: before every counted call the process sends "op path" there
 *            and goes on when it is told to (g), or ends itself (x)
 *
 * MC_SERVER  descriptor of a socket: instead of running main, the process waits
 *            for requests there and forks a child for each of them, which runs
 *            main from its very start with the arguments, environment and
 *            directory requested. Saves loading the program each time.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/file.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
static char names[MAXFD][512];
static int count;
static int logfd = -2;

static int tracked(const char *p) {
    const char *root = getenv("MC_ROOT");
    if (!root || !p || !*p) return 0;
    if (p[0] != '/') return 1;
    if (getenv("MC_GATE")) {
        /* everything a run could share with another one */
        static const char *const not[] = {"/proc", "/sys", "/dev", "/usr", "/lib", "/etc", 0};
        for (int i = 0; not[i]; i++)
            if (!strncmp(p, not[i], strlen(not[i]))) return 0;
        return 1;
    }
    return strncmp(p, root, strlen(root)) == 0;
}

static void die(void) {
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
}

static int gatefd = -1;
static void gate(const char *op, const char *path, const char *path2) {
    const char *g = getenv("MC_GATE");
    if (!g) return;
    if (gatefd < 0) {
        struct sockaddr_un a = {.sun_family = AF_UNIX};
        snprintf(a.sun_path, sizeof a.sun_path, "%s", g);
        int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        gatefd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
        if (gatefd < 0 || connect(gatefd, (struct sockaddr *)&a, sizeof a)) die();
    }
    char buf[1400];
    int n = snprintf(buf, sizeof buf, "%s\t%s\t%s\n", op, path, path2 ? path2 : "");
    if (syscall(SYS_write, gatefd, buf, n) != n) die();
    char c = 0;
    while (syscall(SYS_read, gatefd, &c, 1) < 0 && errno == EINTR) {}
    if (c != 'g') die();
}

/* Returns the fault for this call: 0, an errno, -1 (short), -2 (zero), or
 * -1000 - n (n bytes, then the end). */
static int event2(const char *op, const char *path, const char *path2) {
    int i = count++;
    int fault = 0;
    gate(op, path, path2);
    const char *f = getenv("MC_FAULTS");
    while (f && *f) {
        char *end;
        long n = strtol(f, &end, 10);
        if (*end != ':') break;
        const char *k = end + 1;
        if (n == i) {
            if (*k == 'e') fault = atoi(k + 1);
            else if (*k == 's') fault = -1;
            else if (*k == 'z') fault = -2;
            else if (*k == 'k') fault = -1000;
            else if (*k == 't') fault = -1000 - atoi(k + 1);
        }
        f = strchr(k, ',');
        if (f) f++;
    }
    const char *l = getenv("MC_LOG");
    if (l) {
        if (logfd == -2) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        char buf[1400];
        int n = snprintf(buf, sizeof buf, "%d %s %s%s%s%s\n", i, op, path, path2 ? "\t" : "", path2 ? path2 : "", fault ? " !" : "");
        if (logfd >= 0) syscall(SYS_write, logfd, buf, n);
    }
    if (fault == -1000) die();
    return fault;
}
static int event(const char *op, const char *path) { return event2(op, path, 0); }

static void note(int fd, const char *path) {
    if (fd >= 0 && fd < MAXFD) snprintf(names[fd], sizeof names[fd], "%s", path ? path : "");
}
static const char *name(int fd) { return fd > 2 && fd < MAXFD && names[fd][0] ? names[fd] : 0; }

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    int t = dir == AT_FDCWD && tracked(path);
    if (t) {
        int w = (flags & O_ACCMODE) != O_RDONLY;
        int e = event(w ? "create" : "open", path);
        if (e > 0) { errno = e; return -1; }
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    note(fd, t ? path : 0);
    return fd;
}
#define MODE(flags) mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }

static ssize_t do_read(int fd, void *b, size_t n) {
    if (name(fd)) {
        int e = event("read", name(fd));
        if (e > 0) { errno = e; return -1; }
        if (e == -1 && n > 1) n = 1;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }

static ssize_t do_write(int fd, const void *b, size_t n) {
    if (name(fd)) {
        int e = event("write", name(fd));
        if (e > 0) { errno = e; return -1; }
        if (e == -2) return 0;
        if (e < -1000) {
            size_t k = -1000 - e;
            syscall(SYS_write, fd, b, k < n ? k : n);
            die();
        }
        if (e == -1 && n > 1) n = 1;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (name(fd)) {
        for (int i = 0; i < n; i++)
            if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, n);
}

int statx(int dir, const char *path, int flags, unsigned mask, struct statx *st) {
    const char *volatile opaque = path; /* declared nonnull, yet std passes NULL */
    path = opaque;
    const char *p = path && *path ? (dir == AT_FDCWD && tracked(path) ? path : 0) : name(dir);
    if (p) {
        int e = event(path && *path ? "stat" : "fstat", p);
        if (e > 0) { errno = e; return -1; }
    }
    return syscall(SYS_statx, dir, path, flags, mask, st);
}
int fsync(int fd) {
    if (name(fd)) { int e = event("fsync", name(fd)); if (e > 0) { errno = e; return -1; } }
    return syscall(SYS_fsync, fd);
}
int ftruncate64(int fd, off64_t n) {
    if (name(fd)) { int e = event("truncate", name(fd)); if (e > 0) { errno = e; return -1; } }
    return syscall(SYS_ftruncate, fd, n);
}
#define PATHS(name, op, a, b, path, path2, call) \
    if (tracked(path) || tracked(path2)) { int e = event2(op, path, path2); if (e > 0) { errno = e; return -1; } } \
    return call;
int rename(const char *a, const char *b) { PATHS(rename, "rename", a, b, a, b, syscall(SYS_rename, a, b)) }
int renameat(int x, const char *a, int y, const char *b) { PATHS(renameat, "rename", a, b, a, b, syscall(SYS_renameat, x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { PATHS(renameat2, "rename", a, b, a, b, syscall(SYS_renameat2, x, a, y, b, f)) }
int link(const char *a, const char *b) { PATHS(link, "link", a, b, a, b, syscall(SYS_link, a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { PATHS(linkat, "link", a, b, a, b, syscall(SYS_linkat, x, a, y, b, f)) }
int symlink(const char *a, const char *b) { PATHS(symlink, "link", a, b, a, b, syscall(SYS_symlink, a, b)) }
int unlink(const char *a) { PATHS(unlink, "unlink", a, a, a, 0, syscall(SYS_unlink, a)) }
int unlinkat(int d, const char *a, int f) { PATHS(unlinkat, "unlink", a, a, a, 0, syscall(SYS_unlinkat, d, a, f)) }
int rmdir(const char *a) { PATHS(rmdir, "unlink", a, a, a, 0, syscall(SYS_rmdir, a)) }
int mkdir(const char *a, mode_t m) { PATHS(mkdir, "mkdir", a, a, a, 0, syscall(SYS_mkdir, a, m)) }
int chmod(const char *a, mode_t m) { PATHS(chmod, "chmod", a, a, a, 0, syscall(SYS_chmod, a, m)) }
int truncate64(const char *a, off64_t n) { PATHS(truncate64, "truncate", a, a, a, 0, syscall(SYS_truncate, a, n)) }
int truncate(const char *a, off_t n) { PATHS(truncate, "truncate", a, a, a, 0, syscall(SYS_truncate, a, n)) }
int access(const char *a, int m) { PATHS(access, "stat", a, a, a, 0, syscall(SYS_access, a, m)) }
int faccessat(int d, const char *a, int m, int f) { PATHS(faccessat, "stat", a, a, a, 0, syscall(SYS_faccessat2, d, a, m, f)) }
ssize_t readlink(const char *a, char *b, size_t n) { PATHS(readlink, "stat", a, a, a, 0, syscall(SYS_readlink, a, b, n)) }
int fdatasync(int fd) {
    if (name(fd)) { int e = event("fsync", name(fd)); if (e > 0) { errno = e; return -1; } }
    return syscall(SYS_fdatasync, fd);
}
/* A lock that is taken is asked for again and again. */
int flock(int fd, int op) {
    if (!name(fd) || !getenv("MC_GATE") || (op & (LOCK_NB | LOCK_UN))) {
        if (name(fd)) { int e = event("lock", name(fd)); if (e > 0) { errno = e; return -1; } }
        return syscall(SYS_flock, fd, op);
    }
    for (;;) {
        event("lock", name(fd));
        int r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK) return r;
    }
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (name(a)) { int e = event("read", name(a)); if (e > 0) { errno = e; return -1; } }
    if (name(b)) { int e = event("write", name(b)); if (e > 0) { errno = e; return -1; } if (e < -1000) { syscall(SYS_copy_file_range, a, x, b, y, -1000 - e, f); die(); } }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (name(fd)) { int e = event("write", name(fd)); if (e > 0) { errno = e; return -1; } }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (name(fd)) { int e = event("read", name(fd)); if (e > 0) { errno = e; return -1; } }
    return syscall(SYS_pread64, fd, b, n, o);
}
int close(int fd) {
    if (fd >= 0 && fd < MAXFD) names[fd][0] = 0;
    return syscall(SYS_close, fd);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    const char *s = getenv("MC_SEED");
    if (!s) return syscall(SYS_getrandom, buf, n, flags);
    unsigned long long x = strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL;
    for (size_t i = 0; i < n; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        ((unsigned char *)buf)[i] = x >> 24;
    }
    return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    const char *s = getenv("MC_TIME");
    if (r == 0 && s) { t->tv_sec = atoll(s); }
    return r;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}

/* ---------------------------------------------------------------- threads */

struct thread { void *(*f)(void *); void *arg; int delay; };
static void *delayed(void *p) {
    struct thread t = *(struct thread *)p;
    free(p);
    if (t.delay) usleep(t.delay * 1000);
    return t.f(t.arg);
}
typedef int (*create_fn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    create_fn real = (create_fn)dlsym(RTLD_NEXT, "pthread_create");
    const char *s = getenv("MC_THREADS");
    if (!s || !*s) return real(id, a, f, arg);
    static int number;
    int i = __atomic_fetch_add(&number, 1, __ATOMIC_SEQ_CST);
    struct thread *t = malloc(sizeof *t);
    *t = (struct thread){f, arg, *s == 'r' ? (i < 40 ? 120 - 3 * i : 0) : *s == 'o' && i % 2 ? 40 : 0};
    int r = real(id, a, delayed, t);
    if (r) free(t);
    else if (*s == 'f') usleep(10000);
    return r;
}

/* ------------------------------------------------------------ fork server */

static int full(int fd, void *b, size_t n) {
    char *p = b;
    while (n) {
        ssize_t r = syscall(SYS_read, fd, p, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return 0;
        p += r;
        n -= r;
    }
    return 1;
}

/* A request is a length, then NUL-terminated strings: the time limit in
 * seconds, the directory, the number of arguments, the arguments, and the
 * environment. The answer is the wait status. Descriptors 1 and 2 of the
 * server are what the children write to. */
static void serve(int fd, int *argc, char ***argv) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (;;) {
        unsigned len;
        if (!full(fd, &len, 4)) _exit(0);
        char *b = malloc(len + 1);
        if (!b || !full(fd, b, len)) _exit(0);
        pid_t pid = fork();
        if (pid < 0) _exit(97);
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            syscall(SYS_close, fd);
            char *p = b, *end = b + len;
            int limit = atoi(p);
            p += strlen(p) + 1;
            if (chdir(p)) _exit(98);
            p += strlen(p) + 1;
            int n = atoi(p);
            p += strlen(p) + 1;
            int all = 0;
            for (char *q = p; q < end; q += strlen(q) + 1) all++;
            char **v = calloc(all + 8, sizeof *v);
            int i = 0;
            for (; i < n; i++, p += strlen(p) + 1) v[i] = p;
            for (i = n + 1; p < end; i++, p += strlen(p) + 1) v[i] = p;
            *argc = n;
            *argv = v;
            environ = v + n + 1;
            alarm(limit);
            struct rlimit cpu = {60, 65};
            setrlimit(RLIMIT_CPU, &cpu);
            return;
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        free(b);
        if (syscall(SYS_write, fd, &st, 4) != 4) _exit(0);
    }
}

typedef int (*start_fn)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld)(void), void *end) {
    start_fn real = (start_fn)dlsym(RTLD_NEXT, "__libc_start_main");
    const char *s = getenv("MC_SERVER");
    if (s) serve(atoi(s), &argc, &argv);
    return real(m, argc, argv, init, fini, rtld, end);
}
