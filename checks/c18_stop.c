/* Loaded into builder processes by checks/c18.py: stops the process before its n-th file operation below a
   directory (and in the middle of what it writes), until the driver lets it go on.  Inert until vf_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int rfd = -1, wfd = -1, on = 0;
static long left = 0, total = 0;
static char armed[512], base[512];
static int last_fd = -1;
static long run_len = 0;

void vf_init(int r, int w, const char *arm_file, const char *base_dir) {
    rfd = r; wfd = w;
    strncpy(armed, arm_file, sizeof armed - 1);
    strncpy(base, base_dir, sizeof base - 1);
}
void vf_arm(long n) { left = n; total = 0; last_fd = -1; run_len = 0; on = 1; }
long vf_disarm(void) { on = 0; return total; }

/* is this operation the one to stop at? */
static int here(void) {
    char b[32];
    if (syscall(SYS_access, armed, F_OK) == 0) {
        int fd = syscall(SYS_openat, AT_FDCWD, armed, O_RDONLY, 0);
        long n = fd < 0 ? -1 : syscall(SYS_read, fd, b, sizeof b - 1);
        if (fd >= 0) syscall(SYS_close, fd);
        syscall(SYS_unlinkat, AT_FDCWD, armed, 0);
        if (n > 0) { b[n] = 0; left = atol(b); }
    }
    total++;
    if (left <= 0) return 0;
    return --left == 0;
}
static void stop(const char *what) {
    char m[128], c;
    int e = errno, n = snprintf(m, sizeof m, "{\"s\": \"stopped\", \"at\": \"%s\"}\n", what);
    on = 0;
    syscall(SYS_write, wfd, m, n);
    for (;;) {
        long k = syscall(SYS_read, rfd, &c, 1);
        if (k == 0) _exit(9);
        if (k == 1 && c == '\n') break;
    }
    on = 1;
    errno = e;
}
static int counts(const char *path) {
    if (!on || !path) return 0;
    if (path[0] == '/') return strncmp(path, base, strlen(base)) == 0;
    return 1;
}
static void at(const char *what, const char *path) {
    if (counts(path)) { last_fd = -1; if (here()) stop(what); }
}
static void at_dir(const char *what, int dirfd, const char *path) {
    if (on && path && (path[0] != '/' || counts(path))) { last_fd = -1; if (here()) stop(what); }
}
/* of a long run of writes to the same file, the 1st, 2nd, 4th, 8th ... count */
static int writing(int fd) {
    struct stat st;
    if (!on || fd == wfd || syscall(SYS_fstat, fd, &st) != 0 || !S_ISREG(st.st_mode)) return 0;
    if (fd == last_fd) run_len++; else { last_fd = fd; run_len = 1; }
    if (run_len & (run_len - 1)) return 0;
    return here();
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define MODE_ARG(f) mode_t m = 0; if ((f) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); }

int open(const char *p, int f, ...) { MODE_ARG(f) at("open", p); return REAL(open)(p, f, m); }
int open64(const char *p, int f, ...) { MODE_ARG(f) at("open", p); return REAL(open64)(p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE_ARG(f) at_dir("openat", d, p); return REAL(openat)(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE_ARG(f) at_dir("openat", d, p); return REAL(openat64)(d, p, f, m); }
FILE *fopen(const char *p, const char *f) { at("fopen", p); return REAL(fopen)(p, f); }
FILE *fopen64(const char *p, const char *f) { at("fopen", p); return REAL(fopen64)(p, f); }
int mkdir(const char *p, mode_t m) { at("mkdir", p); return REAL(mkdir)(p, m); }
int mkdirat(int d, const char *p, mode_t m) { at_dir("mkdirat", d, p); return REAL(mkdirat)(d, p, m); }
int rmdir(const char *p) { at("rmdir", p); return REAL(rmdir)(p); }
int unlink(const char *p) { at("unlink", p); return REAL(unlink)(p); }
int unlinkat(int d, const char *p, int f) { at_dir("unlinkat", d, p); return REAL(unlinkat)(d, p, f); }
int remove(const char *p) { at("remove", p); return REAL(remove)(p); }
int rename(const char *p, const char *q) { at("rename", q); return REAL(rename)(p, q); }
int renameat(int d, const char *p, int e, const char *q) { at_dir("rename", e, q); return REAL(renameat)(d, p, e, q); }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { at_dir("rename", e, q); return REAL(renameat2)(d, p, e, q, f); }
int link(const char *p, const char *q) { at("link", q); return REAL(link)(p, q); }
int linkat(int d, const char *p, int e, const char *q, int f) { at_dir("link", e, q); return REAL(linkat)(d, p, e, q, f); }
int symlink(const char *p, const char *q) { at("symlink", q); return REAL(symlink)(p, q); }
int chmod(const char *p, mode_t m) { at("chmod", p); return REAL(chmod)(p, m); }
int truncate(const char *p, off_t n) { at("truncate", p); return REAL(truncate)(p, n); }
int stat(const char *p, struct stat *s) { at("stat", p); return REAL(stat)(p, s); }
int stat64(const char *p, struct stat64 *s) { at("stat", p); return REAL(stat64)(p, s); }
int lstat(const char *p, struct stat *s) { at("stat", p); return REAL(lstat)(p, s); }
int lstat64(const char *p, struct stat64 *s) { at("stat", p); return REAL(lstat64)(p, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { at_dir("stat", d, p); return REAL(fstatat)(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { at_dir("stat", d, p); return REAL(fstatat64)(d, p, s, f); }
int access(const char *p, int m) { at("access", p); return REAL(access)(p, m); }
void *dlopen(const char *p, int f) { at("dlopen", p); return REAL(dlopen)(p, f); }

ssize_t write(int fd, const void *b, size_t n) {
    if (writing(fd)) {
        ssize_t k = n > 1 ? REAL(write)(fd, b, n / 2) : 0, r;
        stop("write");
        if (k < 0) return k;
        r = REAL(write)(fd, (const char *)b + k, n - k);
        return r < 0 ? (k > 0 ? k : r) : k + r;
    }
    return REAL(write)(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (writing(fd)) stop("writev");
    return REAL(writev)(fd, v, n);
}
static ssize_t half_sendfile(int o, int i, off_t *off, size_t n) {
    struct stat st;
    size_t want = n;
    if (syscall(SYS_fstat, i, &st) == 0 && (size_t)st.st_size < want) want = st.st_size;
    ssize_t k = want > 1 ? syscall(SYS_sendfile, o, i, off, want / 2) : 0;
    stop("sendfile");
    return k > 0 ? k : syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return writing(o) ? half_sendfile(o, i, off, n) : REAL(sendfile)(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return writing(o) ? half_sendfile(o, i, off, n) : REAL(sendfile64)(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
    if (writing(o)) stop("copy_file_range");
    return REAL(copy_file_range)(i, a, o, b, n, f);
}
