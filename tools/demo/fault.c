// write()/fsync() interposer: actions are read from the file named by ZFAULT at every call
//   fail <suffix> <nth>    the nth write on a file whose path ends with suffix fails (ENOSPC)
//   short <suffix> <nth>   ... writes only half
//   log                    append "write <path> <len>" / "fsync <path>" lines to ZFAULT.log
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
static int count;
static void path_of(int fd, char *b) {
    char l[64]; sprintf(l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, 1023); b[n < 0 ? 0 : n] = 0;
}
static void logline(const char *f, const char *what, const char *p, long n) {
    char b[1400]; int l = sprintf(b, "%s %s %ld\n", what, p, n);
    char q[1100]; sprintf(q, "%s.log", f);
    int fd = syscall(SYS_openat, AT_FDCWD, q, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if(fd >= 0) { syscall(SYS_write, fd, b, l); syscall(SYS_close, fd); }
}
static int plan(char *act, char *suf, int *nth) {
    const char *f = getenv("ZFAULT");
    char b[512]; int fd;
    if(!f || (fd = syscall(SYS_openat, AT_FDCWD, f, O_RDONLY, 0)) < 0) return 0;
    ssize_t n = syscall(SYS_read, fd, b, 511); syscall(SYS_close, fd);
    if(n <= 0) return 0;
    b[n] = 0;
    return sscanf(b, "%15s %255s %d", act, suf, nth) >= 1;
}
static char armed[300];
ssize_t write(int fd, const void *buf, size_t len) {
    char act[16] = "", suf[256] = "", p[1100]; int nth = 1;
    if(plan(act, suf, &nth)) {
        int e = errno; path_of(fd, p); errno = e;
        if(!strcmp(act, "log")) logline(getenv("ZFAULT"), "write", p, len);
        else {
            char cur[300]; snprintf(cur, 300, "%s %s %d", act, suf, nth);
            if(strcmp(cur, armed)) { strcpy(armed, cur); count = 0; }
            size_t lp = strlen(p), ls = strlen(suf);
            if(lp >= ls && !strcmp(p + lp - ls, suf) && ++count == nth) {
                if(!strcmp(act, "fail")) { errno = ENOSPC; return -1; }
                if(!strcmp(act, "short")) return syscall(SYS_write, fd, buf, len / 2);
            }
        }
    } else { armed[0] = 0; count = 0; }
    return syscall(SYS_write, fd, buf, len);
}
int fsync(int fd) {
    char act[16] = "", suf[256] = "", p[1100]; int nth;
    if(plan(act, suf, &nth) && !strcmp(act, "log")) { path_of(fd, p); logline(getenv("ZFAULT"), "fsync", p, 0); }
    return syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
    char act[16] = "", suf[256] = "", p[1100]; int nth;
    if(plan(act, suf, &nth) && !strcmp(act, "log")) { path_of(fd, p); logline(getenv("ZFAULT"), "fsync", p, 0); }
    return syscall(SYS_fdatasync, fd);
}
