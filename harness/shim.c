/* LD_PRELOAD shim: gives the verification driver control over the clock of a FlashMQ process, lets it see when the
 * process is quiescent, and logs / fails / kills at file operations on the storage directory.
 * It changes nothing in how FlashMQ computes; only time, polling granularity and (on request) file system results. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define MAXT 64
struct slot { _Atomic int64_t tid, calls, nonempty, inwait; int64_t pad[4]; };
struct shm {
    int64_t magic;
    _Atomic int64_t mono_ns;      /* virtual CLOCK_MONOTONIC */
    _Atomic int64_t real_ns;      /* virtual CLOCK_REALTIME */
    _Atomic int64_t step_ns;      /* added to both on each clock read (0 = frozen) */
    _Atomic int64_t clip_us;      /* upper bound on real waiting in epoll_wait/poll */
    _Atomic int64_t nthreads;
    _Atomic int64_t fop;          /* number of file operations done on the storage dir */
    _Atomic int64_t crash_at;     /* _exit right before file op number crash_at (0 = never) */
    _Atomic int64_t fail_at;      /* let file op number fail_at fail */
    _Atomic int64_t fail_errno;
    _Atomic int64_t fail_count;   /* number of consecutive ops to fail */
    _Atomic int64_t partial;      /* on crash in a write: write only this many bytes first (-1: none) */
    _Atomic int64_t stall_tid_kind; /* thread pausing: index of the thread slot to stall at its next return from waiting, -1 none */
    _Atomic int64_t jitter;       /* if >0: random yields at lock points, seed */
    _Atomic int64_t fmask;        /* kinds of file operations that crash_at and fail_at count (0 = all) */
    _Atomic int64_t fcnt;         /* and how many there were */
    int64_t reserved[32];
    struct slot slots[MAXT];
};
static struct shm *S;
static char storage[512];
static int oplog = -1;
static __thread struct slot *my;
static __thread unsigned rngstate;

static int (*r_epoll_wait)(int, struct epoll_event *, int, int);
static int (*r_poll)(struct pollfd *, nfds_t, int);
static int (*r_clock_gettime)(clockid_t, struct timespec *);
static size_t (*r_fwrite)(const void *, size_t, size_t, FILE *);
static int (*r_fflush)(FILE *);
static int (*r_fsync)(int);
static int (*r_fclose)(FILE *);
static int (*r_rename)(const char *, const char *);
static int (*r_unlink)(const char *);
static int (*r_open)(const char *, int, ...);
static FILE *(*r_fdopen)(int, const char *);
static int (*r_mutex_lock)(pthread_mutex_t *);

__attribute__((constructor)) static void init(void)
{
    if (S) return;
    r_epoll_wait = dlsym(RTLD_NEXT, "epoll_wait");
    r_poll = dlsym(RTLD_NEXT, "poll");
    r_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
    r_fwrite = dlsym(RTLD_NEXT, "fwrite");
    r_fflush = dlsym(RTLD_NEXT, "fflush");
    r_fsync = dlsym(RTLD_NEXT, "fsync");
    r_fclose = dlsym(RTLD_NEXT, "fclose");
    r_rename = dlsym(RTLD_NEXT, "rename");
    r_unlink = dlsym(RTLD_NEXT, "unlink");
    r_open = dlsym(RTLD_NEXT, "open");
    r_fdopen = dlsym(RTLD_NEXT, "fdopen");
    r_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    const char *p = getenv("FMQ_SHM");
    if (!p) return;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR);
    if (fd < 0) return;
    void *m = mmap(NULL, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED) return;
    const char *st = getenv("FMQ_STORAGE");
    if (st) snprintf(storage, sizeof storage, "%s", st);
    const char *ol = getenv("FMQ_OPLOG");
    if (ol) oplog = (int)syscall(SYS_openat, AT_FDCWD, ol, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    S = m;
}

static struct slot *slot(void)
{
    if (!my) {
        int64_t i = atomic_fetch_add(&S->nthreads, 1);
        if (i >= MAXT) abort();
        my = &S->slots[i];
        atomic_store(&my->tid, (int64_t)syscall(SYS_gettid));
    }
    return my;
}

static void jit(void)
{
    int64_t j = S ? atomic_load(&S->jitter) : 0;
    if (!j) return;
    if (!rngstate) rngstate = (unsigned)j * 2654435761u ^ (unsigned)syscall(SYS_gettid) * 40503u;
    rngstate = rngstate * 1664525u + 1013904223u;
    unsigned r = rngstate >> 16;
    if ((r & 7) == 0) sched_yield();
    if ((r & 127) == 1) { struct timespec ts = {0, 1000 * (r % 97)}; syscall(SYS_nanosleep, &ts, NULL); }
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!r_mutex_lock) r_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (S && S->jitter) jit();
    return r_mutex_lock(m);
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!r_clock_gettime) init();
    int64_t v;
    if (S && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW)) {
        int64_t st = atomic_load(&S->step_ns);
        if (st) { v = atomic_fetch_add(&S->mono_ns, st); atomic_fetch_add(&S->real_ns, st); } else v = atomic_load(&S->mono_ns);
    } else if (S && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        v = atomic_load(&S->real_ns);
    } else {
        if (r_clock_gettime) return r_clock_gettime(c, ts);
        return (int)syscall(SYS_clock_gettime, c, ts);
    }
    ts->tv_sec = v / 1000000000;
    ts->tv_nsec = v % 1000000000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
/* Sleeping: real sleep is short; the virtual clock moves by what was asked for, so that "wait at most n ms" loops end. */
static void vsleep(int64_t ns)
{
    struct timespec ts = {0, ns < 500000 ? ns : 500000};
    syscall(SYS_nanosleep, &ts, NULL);
}
int usleep(useconds_t us) { if (!S) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, NULL); } vsleep((int64_t)us * 1000); return 0; }

int epoll_wait(int fd, struct epoll_event *ev, int n, int timeout)
{
    if (!S) return r_epoll_wait(fd, ev, n, timeout);
    struct slot *s = slot();
    atomic_fetch_add(&s->calls, 1);
    atomic_store(&s->inwait, 1);
    int64_t clip = atomic_load(&S->clip_us);
    if (timeout >= 0 && (int64_t)timeout * 1000 < clip) clip = (int64_t)timeout * 1000;
    struct timespec ts = {clip / 1000000, (clip % 1000000) * 1000};
    int rc = (int)syscall(SYS_epoll_pwait2, fd, ev, n, &ts, NULL, (size_t)8);
    if (rc != 0) atomic_fetch_add(&s->nonempty, 1);
    atomic_store(&s->inwait, 0);
    if (rc < 0) errno = errno;
    return rc;
}
int poll(struct pollfd *fds, nfds_t n, int timeout)
{
    if (!S || n != 1 || timeout != 1000) return r_poll(fds, n, timeout);   /* only the background worker's loop */
    struct slot *s = slot();
    atomic_fetch_add(&s->calls, 1);
    atomic_store(&s->inwait, 1);
    int64_t clip = atomic_load(&S->clip_us);
    struct timespec ts = {clip / 1000000, (clip % 1000000) * 1000};
    int rc = (int)syscall(SYS_ppoll, fds, n, &ts, NULL, (size_t)8);
    if (rc != 0) atomic_fetch_add(&s->nonempty, 1);
    atomic_store(&s->inwait, 0);
    return rc;
}

/* stat: make ctime changes visible at millisecond granularity, so reload tests need not wait for the next second. */
int stat(const char *p, struct stat *st)
{
    struct stat tmp;
    int rc = (int)syscall(SYS_newfstatat, AT_FDCWD, p, &tmp, 0);
    if (rc == 0) {
        *st = tmp;
        if (S) st->st_ctim.tv_sec = tmp.st_ctim.tv_sec * 1000 + tmp.st_ctim.tv_nsec / 1000000;
    }
    return rc;
}

/* ---- file operations on the storage directory ---- */
static int in_storage_path(const char *p) { return storage[0] && p && strncmp(p, storage, strlen(storage)) == 0; }
static int in_storage_fd(int fd, char *out, size_t n)
{
    if (!storage[0] || fd < 0) return 0;
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, out, n - 1);
    if (k <= 0) return 0;
    out[k] = 0;
    return in_storage_path(out);
}
/* returns 1 when the operation must fail (errno set) */
static int fop(const char *what, const char *a, const char *b, long n)
{
    static const char *kinds[] = {"create", "write", "flush", "fsync", "close", "rename", "unlink"};
    int64_t i = atomic_fetch_add(&S->fop, 1) + 1;
    int64_t mask = atomic_load(&S->fmask);
    int counts = !mask;
    for (int j = 0; j < 7; j++) if ((mask >> j & 1) && !strcmp(kinds[j], what)) counts = 1;
    int64_t k = counts ? atomic_fetch_add(&S->fcnt, 1) + 1 : -1;
    int64_t fa = atomic_load(&S->fail_at);
    int fail = counts && fa && k >= fa && k < fa + atomic_load(&S->fail_count);
    int crash = counts && atomic_load(&S->crash_at) == k;
    if (oplog >= 0) {
        char line[1400];
        int m = snprintf(line, sizeof line, "%lld %s %s %s %ld %s\n", (long long)i, what, a ? a : "-", b ? b : "-", n,
                         crash ? "CRASH" : fail ? "FAIL" : "OK");
        ssize_t w = syscall(SYS_write, oplog, line, (size_t)m); (void)w;
    }
    if (crash) { kill(getpid(), SIGKILL); for (;;) pause(); }
    if (fail) { errno = (int)atomic_load(&S->fail_errno); return 1; }
    return 0;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    char path[600];
    if (!r_fwrite) init();
    if (S && sz * n > 0 && in_storage_fd(fileno(f), path, sizeof path) && fop("write", path, NULL, (long)(sz * n))) { f->_flags |= 0x20; return 0; }
    return r_fwrite(p, sz, n, f);
}
int fflush(FILE *f)
{
    char path[600];
    if (!r_fflush) init();
    if (S && f && in_storage_fd(fileno(f), path, sizeof path) && fop("flush", path, NULL, 0)) { f->_flags |= 0x20; return EOF; }
    return r_fflush(f);
}
int fclose(FILE *f)
{
    char path[600];
    if (!r_fclose) init();
    if (S && f && in_storage_fd(fileno(f), path, sizeof path) && (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY && fop("close", path, NULL, 0)) { r_fclose(f); errno = (int)S->fail_errno; return EOF; }
    return r_fclose(f);
}
int fsync(int fd)
{
    char path[600];
    if (!r_fsync) init();
    if (S && in_storage_fd(fd, path, sizeof path) && fop("fsync", path, NULL, 0)) return -1;
    return r_fsync(fd);
}
int fdatasync(int fd)
{
    char path[600];
    if (S && in_storage_fd(fd, path, sizeof path) && fop("fsync", path, NULL, 0)) return -1;
    return (int)syscall(SYS_fdatasync, fd);
}
int rename(const char *a, const char *b)
{
    if (!r_rename) init();
    if (S && in_storage_path(a) && fop("rename", a, b, 0)) return -1;
    return r_rename(a, b);
}
int unlink(const char *a)
{
    if (!r_unlink) init();
    if (S && in_storage_path(a) && fop("unlink", a, NULL, 0)) return -1;
    return r_unlink(a);
}
int open(const char *p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = (mode_t)va_arg(ap, int); va_end(ap); }
    if (S && in_storage_path(p) && (flags & O_CREAT) && fop("create", p, NULL, 0)) return -1;
    return (int)syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
