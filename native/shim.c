/* LD_PRELOAD stand-ins used when a path is replayed on the real binary: the clock, the hash seeds, the
 * terminal and failing file operations are set from the environment. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <termios.h>

int clock_gettime(clockid_t k, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    char *e = getenv("VF_CLOCK");
    if (k == CLOCK_REALTIME && e) {
        t->tv_sec = atoll(e);
        t->tv_nsec = 0;
        return 0;
    }
    return real(k, t);
}
ssize_t getrandom(void *p, size_t n, unsigned f) {
    static uint64_t seed;
    static int init;
    (void)f;
    if (!init) {
        char *e = getenv("VF_SEED");
        seed = e ? strtoull(e, 0, 10) : 1;
        init = 1;
    }
    unsigned char *b = p;
    for (size_t i = 0; i < n; i += 8) {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        uint64_t v = seed ^ (seed >> 29);
        memcpy(b + i, &v, n - i < 8 ? n - i : 8);
    }
    return n;
}
static int tty(void) {
    char *e = getenv("VF_TTY");
    return e ? atoi(e) : 0;
}
int isatty(int fd) {
    if (tty() > 0 && fd <= 2) return 1;
    errno = ENOTTY;
    return 0;
}
int tcgetattr(int fd, struct termios *t) {
    if (tty() > 0 && fd <= 2) {
        memset(t, 0, sizeof *t);
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
int ioctl(int fd, unsigned long rq, ...) {
    va_list a;
    va_start(a, rq);
    void *p = va_arg(a, void *);
    va_end(a);
    if (tty() > 0 && fd <= 2) {
        if (rq == TIOCGWINSZ) {
            struct winsize *w = p;
            memset(w, 0, sizeof *w);
            w->ws_row = 50;
            w->ws_col = tty();
        }
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
/* VF_FAULT=op:suffix:nth:errno:keep[,...]; nth counts from 0, over all operations that any entry names; a negative
 * errno ends the process there */
static int fault(const char *op, const char *path, int *err, long *keep) {
    static int count[256];
    char *e = getenv("VF_FAULT");
    if (!e || !path) return 0;
    char buf[1024];
    strncpy(buf, e, sizeof buf - 1);
    buf[sizeof buf - 1] = 0;
    int hit = 0, any = 0;
    char *s1;
    for (char *f = strtok_r(buf, ",", &s1); f; f = strtok_r(0, ",", &s1)) {
        char o[16], suf[512];
        int nth, er;
        long kp;
        if (sscanf(f, "%15[^:]:%511[^:]:%d:%d:%ld", o, suf, &nth, &er, &kp) != 5) continue;
        size_t lp = strlen(path), ls = strlen(suf);
        if (strcmp(o, op) || lp < ls || strcmp(path + lp - ls, suf)) continue;
        any = 1;
        if (!hit && count[(int)op[0]] == nth) {
            *err = er;
            *keep = kp;
            hit = 1;
        }
    }
    if (any) count[(int)op[0]]++;
    return hit;
}
static const char *fdpath(int fd, char *b, size_t n) {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, b, n - 1);
    if (k < 0) return 0;
    b[k] = 0;
    return b;
}
ssize_t write(int fd, const void *p, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    char b[1024];
    int err;
    long keep;
    if (getenv("VF_FAULT") && fd > 2 && fault("write", fdpath(fd, b, sizeof b), &err, &keep)) {
        if (err < 0) _exit(99);
        if (keep > 0) return real(fd, p, (size_t)keep < n ? (size_t)keep : n);
        errno = err;
        return -1;
    }
    return real(fd, p, n);
}
ssize_t read(int fd, void *p, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    char b[1024];
    int err;
    long keep;
    if (getenv("VF_FAULT") && fd > 2 && fault("read", fdpath(fd, b, sizeof b), &err, &keep)) {
        errno = err;
        return -1;
    }
    return real(fd, p, n);
}
static int do_open(const char *name, const char *path, int fl, mode_t m) {
    int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, name);
    int err;
    long keep;
    if (getenv("VF_FAULT") && fault("open", path, &err, &keep)) {
        errno = err;
        return -1;
    }
    return real(path, fl, m);
}
int open64(const char *path, int fl, ...) {
    va_list a;
    va_start(a, fl);
    mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return do_open("open64", path, fl, m);
}
int open(const char *path, int fl, ...) {
    va_list a;
    va_start(a, fl);
    mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return do_open("open", path, fl, m);
}
