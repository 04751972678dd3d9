// Preloaded into the program under test: every call that changes the names or
// the contents of files in the scratch directory asks the driver first, which
// may hold it back, let it go on, or make it fail.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

static int active, hold_exit;
static char sock[100], dir[400], reads[60];

__attribute__((constructor)) static void init(void) {
    const char *app = getenv("MC_APP"), *s = getenv("MC_SOCK"), *d = getenv("MC_DIR");
    if (!app || !s || !d || strlen(s) >= sizeof sock || strlen(d) >= sizeof dir) return;
    strcpy(sock, s);
    strcpy(dir, d);
    // Files with this suffix are also asked for when they are read
    const char *r = getenv("MC_READS");
    if (r && strlen(r) < sizeof reads) strcpy(reads, r);
    hold_exit = getenv("MC_HOLD_EXIT") != 0;
    active = !strcmp(app, program_invocation_short_name);
}

static int ours(const char *p) {
    return active && p && *p && (*p != '/' || !strncmp(p, dir, strlen(dir)));
}

// Tell the driver, wait for its answer. Returns the connection; the driver
// sees it close once the call is over.
static int ask(const char *op, const char *a, const char *b, int *err) {
    int saved = errno;
    char buf[1200], ans[32];
    *err = 0;
    int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (s < 0) return -1;
    struct sockaddr_un u = {.sun_family = AF_UNIX};
    strcpy(u.sun_path, sock);
    if (connect(s, (void *)&u, sizeof u) < 0) {
        close(s);
        errno = saved;
        return -1;
    }
    int n = snprintf(buf, sizeof buf, "op\t%s\t%s\t%s\n", op, a, b ? b : "");
    if (send(s, buf, n, MSG_NOSIGNAL) == n) {
        ssize_t r;
        do r = recv(s, ans, sizeof ans - 1, 0);
        while (r < 0 && errno == EINTR);
        if (r > 0) {
            ans[r] = 0;
            if (!strncmp(ans, "fail ", 5)) *err = atoi(ans + 5);
        }
    }
    errno = saved;
    return s;
}
static void over(int s) {
    int saved = errno;
    if (s >= 0) close(s);
    errno = saved;
}

// The program is done, but its threads are still there
__attribute__((destructor)) static void fini(void) {
    int err;
    if (active && hold_exit) over(ask("exit", "", 0, &err));
}

static int read_too(const char *p) {
    size_t n = p ? strlen(p) : 0, m = strlen(reads);
    return m && n >= m && !strcmp(p + n - m, reads) && ours(p);
}

#define REAL(name) \
    static typeof(name) *real; \
    if (!real) real = (typeof(name) *)dlsym(RTLD_NEXT, #name)
#define WRAP(cond, op, a, b, call) \
    do { \
        if (!(cond)) return call; \
        int err, s = ask(op, a, b, &err), r; \
        if (err) { r = -1; } else r = call; \
        if (err) errno = err; \
        over(s); \
        return r; \
    } while (0)

int rename(const char *a, const char *b) {
    REAL(rename);
    WRAP(ours(a) || ours(b), "rename", a, b, real(a, b));
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(renameat);
    WRAP(ours(a) || ours(b), "rename", a, b, real(da, a, db, b));
}
int renameat2(int da, const char *a, int db, const char *b, unsigned f) {
    REAL(renameat2);
    WRAP(ours(a) || ours(b), "rename", a, b, real(da, a, db, b, f));
}
int link(const char *a, const char *b) {
    REAL(link);
    WRAP(ours(a) || ours(b), "link", a, b, real(a, b));
}
int linkat(int da, const char *a, int db, const char *b, int f) {
    REAL(linkat);
    WRAP(ours(a) || ours(b), "link", a, b, real(da, a, db, b, f));
}
int unlink(const char *a) {
    REAL(unlink);
    WRAP(ours(a), "unlink", a, 0, real(a));
}
int unlinkat(int d, const char *a, int f) {
    REAL(unlinkat);
    WRAP(ours(a), "unlink", a, 0, real(d, a, f));
}

#define MODE(f) \
    mode_t m = 0; \
    if ((f) & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, f); m = va_arg(v, mode_t); va_end(v); }
#define WRITES(p, f) (((f) & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && ours(p))
#define WRAP_READ(p, f, call) \
    if (!WRITES(p, f) && read_too(p)) { WRAP(1, "read", p, 0, call); }
int open(const char *p, int f, ...) {
    REAL(open);
    MODE(f);
    WRAP_READ(p, f, real(p, f, m));
    WRAP(WRITES(p, f), "open", p, 0, real(p, f, m));
}
int open64(const char *p, int f, ...) {
    REAL(open64);
    MODE(f);
    WRAP_READ(p, f, real(p, f, m));
    WRAP(WRITES(p, f), "open", p, 0, real(p, f, m));
}
int openat(int d, const char *p, int f, ...) {
    REAL(openat);
    MODE(f);
    WRAP_READ(p, f, real(d, p, f, m));
    WRAP(WRITES(p, f), "open", p, 0, real(d, p, f, m));
}
int openat64(int d, const char *p, int f, ...) {
    REAL(openat64);
    MODE(f);
    WRAP_READ(p, f, real(d, p, f, m));
    WRAP(WRITES(p, f), "open", p, 0, real(d, p, f, m));
}
