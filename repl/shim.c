// Preloaded into the real `repl`: every read, write, getrandom, clock and sleep of the process
// is answered by the simulator at the other end of the socket on file descriptor 3, one call at
// a time. Nothing the process does to its standard streams reaches the system.
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define CONTROL 3
struct request {
    uint8_t kind;
    uint8_t fd;
    uint16_t zero;
    uint32_t len;
};

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static uint64_t now_ns = 1000000000;

static long raw(long n, long a, long b, long c) {
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
static void gone(void) {
    raw(SYS_exit_group, 99, 0, 0);
}
static void all_out(const void *p, size_t n) {
    while (n) {
        long r = raw(SYS_write, CONTROL, (long)p, (long)n);
        if (r == -EINTR) continue;
        if (r <= 0) gone();
        p = (const char *)p + r;
        n -= (size_t)r;
    }
}
static void all_in(void *p, size_t n) {
    while (n) {
        long r = raw(SYS_read, CONTROL, (long)p, (long)n);
        if (r == -EINTR) continue;
        if (r <= 0) gone();
        p = (char *)p + r;
        n -= (size_t)r;
    }
}
static long answer(void *out) {
    int64_t ret;
    all_in(&ret, 8);
    if (ret > 0 && out) all_in(out, (size_t)ret);
    now_ns += 1000;
    return ret;
}
static long done(long ret) {
    if (ret < 0) {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}
static long ask(uint8_t kind, int fd, void *out, size_t len) {
    struct request r = {kind, (uint8_t)fd, 0, (uint32_t)len};
    pthread_mutex_lock(&lock);
    all_out(&r, sizeof r);
    long ret = answer(out);
    pthread_mutex_unlock(&lock);
    return done(ret);
}

ssize_t read(int fd, void *buf, size_t n) {
    if (fd != 0) return done(raw(SYS_read, fd, (long)buf, (long)n));
    return ask('R', fd, buf, n);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (fd != 0) return done(raw(SYS_readv, fd, (long)v, n));
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return ask('R', fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd != 1 && fd != 2) return done(raw(SYS_writev, fd, (long)v, n));
    size_t len = 0;
    for (int i = 0; i < n; i++) len += v[i].iov_len;
    struct request r = {'W', (uint8_t)fd, 0, (uint32_t)len};
    pthread_mutex_lock(&lock);
    all_out(&r, sizeof r);
    for (int i = 0; i < n; i++) all_out(v[i].iov_base, v[i].iov_len);
    long ret = answer(0);
    pthread_mutex_unlock(&lock);
    return done(ret);
}
ssize_t write(int fd, const void *buf, size_t n) {
    struct iovec v = {(void *)buf, n};
    if (fd != 1 && fd != 2) return done(raw(SYS_write, fd, (long)buf, (long)n));
    return writev(fd, &v, 1);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    return ask('G', 0, buf, n);
}
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    now_ns += 1000;
    t->tv_sec = (time_t)(now_ns / 1000000000u);
    t->tv_nsec = (long)(now_ns % 1000000000u);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
    (void)c, (void)flags, (void)rem;
    now_ns += (uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec;
    ask('S', 0, 0, 0);
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    return clock_nanosleep(0, 0, t, rem);
}
// the standard library asks for random bytes through this where libc has no getrandom
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom) return ask('G', 0, (void *)a[0], (size_t)a[1]);
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return done(r);
}
