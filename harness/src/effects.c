/* Preloaded into a process that runs library calls: notes every attempt to affect the outside
   (files, streams, network, processes, environment) made while `on` is set, and lets it happen. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
struct hv_effects { int on; int count; char first[240]; };
struct hv_effects hv_effects;
static void note(const char *what, const char *arg) {
    if (!__atomic_load_n(&hv_effects.on, __ATOMIC_SEQ_CST)) return;
    if (__atomic_fetch_add(&hv_effects.count, 1, __ATOMIC_SEQ_CST) == 0) {
        size_t n = strlen(what);
        memcpy(hv_effects.first, what, n);
        hv_effects.first[n++] = ' ';
        if (arg) for (; *arg && n < sizeof hv_effects.first - 1; arg++) hv_effects.first[n++] = (*arg >= 32 && *arg < 127) ? *arg : '.';
        hv_effects.first[n] = 0;
    }
}
static void note_fd(const char *what, int fd, const void *p, size_t n) {
    char b[120];
    int k = snprintf(b, 20, "fd %d: ", fd);
    if (n > 90) n = 90;
    if (p) memcpy(b + k, p, n); else n = 0;
    b[k + n] = 0;
    note(what, b);
}
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
#define MUT(fl) ((fl) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND))
#define OPEN(f) int f(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (MUT(fl)) note(#f, p); return REAL(f)(p, fl, m); }
OPEN(open) OPEN(open64)
#define OPENAT(f) int f(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (MUT(fl)) note(#f, p); return REAL(f)(d, p, fl, m); }
OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { note("creat", p); return REAL(creat)(p, m); }
#define FOPEN(f) FILE *f(const char *p, const char *m) { if (strpbrk(m, "wa+")) note(#f, p); return REAL(f)(p, m); }
FOPEN(fopen) FOPEN(fopen64)
ssize_t write(int fd, const void *p, size_t n) { note_fd("write", fd, p, n); return REAL(write)(fd, p, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { note_fd("writev", fd, n ? v[0].iov_base : 0, n ? v[0].iov_len : 0); return REAL(writev)(fd, v, n); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { note_fd("pwrite", fd, p, n); return REAL(pwrite)(fd, p, n, o); }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) { note_fd("pwrite64", fd, p, n); return REAL(pwrite64)(fd, p, n, o); }
int unlink(const char *p) { note("unlink", p); return REAL(unlink)(p); }
int unlinkat(int d, const char *p, int f) { note("unlinkat", p); return REAL(unlinkat)(d, p, f); }
int rmdir(const char *p) { note("rmdir", p); return REAL(rmdir)(p); }
int mkdir(const char *p, mode_t m) { note("mkdir", p); return REAL(mkdir)(p, m); }
int rename(const char *a, const char *b) { note("rename", a); return REAL(rename)(a, b); }
int link(const char *a, const char *b) { note("link", a); return REAL(link)(a, b); }
int linkat(int c, const char *a, int d, const char *b, int f) { note("linkat", a); return REAL(linkat)(c, a, d, b, f); }
int symlink(const char *a, const char *b) { note("symlink", a); return REAL(symlink)(a, b); }
int truncate64(const char *p, off64_t n) { note("truncate", p); return REAL(truncate64)(p, n); }
int ftruncate64(int fd, off64_t n) { note_fd("ftruncate", fd, 0, 0); return REAL(ftruncate64)(fd, n); }
int chmod(const char *p, mode_t m) { note("chmod", p); return REAL(chmod)(p, m); }
int chdir(const char *p) { note("chdir", p); return REAL(chdir)(p); }
int socket(int a, int b, int c) { note("socket", 0); return REAL(socket)(a, b, c); }
ssize_t send(int fd, const void *p, size_t n, int f) { note_fd("send", fd, p, n); return REAL(send)(fd, p, n, f); }
ssize_t sendto(int fd, const void *p, size_t n, int f, const struct sockaddr *a, socklen_t l) { note_fd("sendto", fd, p, n); return REAL(sendto)(fd, p, n, f, a, l); }
pid_t fork(void) { note("fork", 0); return REAL(fork)(); }
int execvp(const char *p, char *const a[]) { note("execvp", p); return REAL(execvp)(p, a); }
int posix_spawnp(pid_t *pid, const char *f, const void *fa, const void *at, char *const a[], char *const e[]) {
    note("posix_spawnp", f);
    int (*r)(pid_t *, const char *, const void *, const void *, char *const *, char *const *) = dlsym(RTLD_NEXT, "posix_spawnp");
    return r(pid, f, fa, at, a, e);
}
int setenv(const char *n, const char *v, int o) { note("setenv", n); return REAL(setenv)(n, v, o); }
int unsetenv(const char *n) { note("unsetenv", n); return REAL(unsetenv)(n); }
int dup2(int a, int b) { note("dup2", 0); return REAL(dup2)(a, b); }
