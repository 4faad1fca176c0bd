/* Every call that changes files under $SHIM_ROOT first asks the controller listening on
   $SHIM_SOCK: the controller decides which thread goes on (schedule) or ends them all (crash). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

static __thread int conn = -1;
static __thread pid_t conn_tid = 0;
static __thread int inside = 0;

static int under(const char *p, char *out) {
    const char *root = getenv("SHIM_ROOT");
    char abs[PATH_MAX];
    if (!root || !p) return 0;
    if (p[0] == '/') snprintf(abs, sizeof abs, "%s", p);
    else { char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return 0; snprintf(abs, sizeof abs, "%.2000s/%.2000s", cwd, p); }
    /* collapse leading // */
    char *q = abs; while (q[0] == '/' && q[1] == '/') q++;
    size_t n = strlen(root);
    if (strncmp(q, root, n) == 0) { snprintf(out, 200, "%.190s", q + n); return 1; }
    return 0;
}

static int under_fd(int fd, char *out) {
    char l[64], p[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n <= 0) return 0;
    p[n] = 0;
    return under(p, out);
}

static void ask(const char *call, const char *path) {
    const char *sock = getenv("SHIM_SOCK");
    int e = errno, tries = 0;
    if (!sock) return;
again:
    if (conn_tid != syscall(SYS_gettid) || conn < 0) {
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
        snprintf(a.sun_path, sizeof a.sun_path, "%s", sock);
        int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (s < 0 || connect(s, (void *)&a, sizeof a) < 0) { if (s >= 0) close(s); errno = e; return; }
        int hi = fcntl(s, F_DUPFD_CLOEXEC, 700);
        if (hi >= 0) { close(s); s = hi; }
        conn = s; conn_tid = syscall(SYS_gettid);
    }
    char m[400], r;
    int k = snprintf(m, sizeof m, "%d %d %s %s\n", (int)getpid(), (int)conn_tid, call, path);
    if (send(conn, m, k, MSG_NOSIGNAL) != k || recv(conn, &r, 1, 0) != 1) {
        conn = -1;
        if (++tries < 2) goto again;
    }
    errno = e;
}

#define REAL(t, n) static t n##_real; if (!n##_real) n##_real = (t)dlsym(RTLD_NEXT, #n)
#define GATE(cond, call) do { char o_[256]; if (!inside && (cond)) { inside = 1; ask(call, o_); inside = 0; } } while (0)
#define MUT(f) ((f) & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))

typedef int (*open_t)(const char *, int, ...);
typedef int (*openat_t)(int, const char *, int, ...);
#define OPEN(name) int name(const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
    REAL(open_t, name); GATE(MUT(f) && under(p, o_), "open"); return name##_real(p, f, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
    REAL(openat_t, name); GATE(MUT(f) && under(p, o_), "open"); return name##_real(d, p, f, m); }
OPENAT(openat) OPENAT(openat64)
typedef int (*mkdir_t)(const char *, mode_t);
int mkdir(const char *p, mode_t m) { REAL(mkdir_t, mkdir); GATE(under(p, o_), "mkdir"); return mkdir_real(p, m); }
typedef int (*two_t)(const char *, const char *);
int rename(const char *a, const char *b) { REAL(two_t, rename); GATE(under(b, o_) , "rename"); return rename_real(a, b); }
int link(const char *a, const char *b) { REAL(two_t, link); GATE(under(b, o_), "link"); return link_real(a, b); }
typedef int (*at_t)(int, const char *, int, const char *);
int renameat(int x, const char *a, int y, const char *b) { REAL(at_t, renameat); GATE(under(b, o_), "rename"); return renameat_real(x, a, y, b); }
typedef int (*one_t)(const char *);
int unlink(const char *p) { REAL(one_t, unlink); GATE(under(p, o_), "unlink"); return unlink_real(p); }
int rmdir(const char *p) { REAL(one_t, rmdir); GATE(under(p, o_), "rmdir"); return rmdir_real(p); }
typedef ssize_t (*write_t)(int, const void *, size_t);
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write_t, write);
    char o_[256];
    if (!inside && under_fd(fd, o_)) {
        inside = 1; ask("write", o_); inside = 0;
        if (n > 1) { /* a write may stop half way */
            size_t h = n / 2; ssize_t w = write_real(fd, b, h);
            if (w != (ssize_t)h) return w;
            inside = 1; ask("write2", o_); inside = 0;
            ssize_t v = write_real(fd, (const char *)b + h, n - h);
            return v < 0 ? w : w + v;
        }
    }
    return write_real(fd, b, n);
}
typedef int (*ftr_t)(int, off_t);
int ftruncate(int fd, off_t n) { REAL(ftr_t, ftruncate); GATE(under_fd(fd, o_), "truncate"); return ftruncate_real(fd, n); }
