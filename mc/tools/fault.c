// LD_PRELOAD library: numbers the file system operations below FI_ROOT, stops or fails the process
// at a chosen one (FI_SHM->at), or makes every thread wait at each of them for the controller.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

#define SLOTS 16
struct slot {
    _Atomic uint32_t state; // 0 free, 1 being filled, 2 waiting, 3 go
    char op[12];
    char who[64];  // last input file opened by this thread
    char path[160];
};
struct shm {
    _Atomic uint32_t count;    // operations so far
    uint32_t at;               // stop or fail at this operation (1..), 0: never
    uint32_t mode;             // 1 kill before it, 2 kill in the middle of it (write), 3 fail with err, 4 fail from there on (disk full)
    uint32_t err;
    uint32_t gate;             // 1: wait for the controller
    _Atomic uint32_t hit;      // the chosen operation was reached
    char hit_op[12];
    char hit_path[160];
    struct slot slots[SLOTS];
};

static struct shm *S;
static char ROOT[PATH_MAX], IN[PATH_MAX];
static unsigned char tracked[4096];
static char fdpath[256][160];
static __thread char who[64];
static __thread int inside;

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("FI_SHM"), *r = getenv("FI_ROOT"), *i = getenv("FI_IN");
    if (!p || !r) return;
    snprintf(ROOT, sizeof ROOT, "%s", r);
    snprintf(IN, sizeof IN, "%s", i ? i : "");
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) S = m;
    unsetenv("LD_PRELOAD");
}

static void resolve(int dirfd, const char *path, char *out) {
    if (!path) { out[0] = 0; return; }
    if (path[0] == '/') { snprintf(out, PATH_MAX, "%s", path); return; }
    char base[PATH_MAX / 2] = "";
    if (dirfd == AT_FDCWD) {
        if (!getcwd(base, sizeof base)) base[0] = 0;
    } else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(l, base, sizeof base - 1);
        base[n < 0 ? 0 : n] = 0;
    }
    snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, path);
}

static int under(const char *p, const char *root) {
    size_t n = strlen(root);
    return n && !strncmp(p, root, n) && (p[n] == 0 || p[n] == '/');
}

static void gate(const char *op, const char *path) {
    if (!S->gate) return;
    for (int i = 0; i < SLOTS; i++) {
        uint32_t z = 0;
        struct slot *s = &S->slots[i];
        if (__atomic_compare_exchange_n(&s->state, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
            snprintf(s->op, sizeof s->op, "%s", op);
            snprintf(s->who, sizeof s->who, "%s", who);
            snprintf(s->path, sizeof s->path, "%.150s", path);
            __atomic_store_n(&s->state, 2, __ATOMIC_SEQ_CST);
            while (__atomic_load_n(&s->state, __ATOMIC_SEQ_CST) == 2)
                syscall(SYS_futex, &s->state, FUTEX_WAIT, 2, 0, 0, 0);
            __atomic_store_n(&s->state, 0, __ATOMIC_SEQ_CST);
            return;
        }
    }
}

static void die(void) { syscall(SYS_exit_group, 137); }

// 0: go on; >0: fail with this errno; -1: perform half of the write, then die; -2: half, then fail
static int op(const char *name, const char *path, int is_write) {
    if (!S) return 0;
    gate(name, path);
    uint32_t n = __atomic_add_fetch(&S->count, 1, __ATOMIC_SEQ_CST);
    if (!S->at || n < S->at) return 0;
    if (n == S->at) {
        snprintf(S->hit_op, sizeof S->hit_op, "%s", name);
        snprintf(S->hit_path, sizeof S->hit_path, "%.150s", path);
        S->hit = 1;
    }
    switch (S->mode) {
    case 1: die(); break;
    case 2: if (is_write) return -1; die(); break;
    case 3: return n == S->at ? (int)S->err : 0;
    case 4: // nothing new fits any more; removing still works
        if (n == S->at && is_write) return -2;
        if (!strcmp(name, "unlink") || !strcmp(name, "rename") || !strcmp(name, "fsync") || !strcmp(name, "chmod")) return 0;
        return S->err;
    }
    return 0;
}

#define REAL(f) static __typeof__(&f) real; if (!real) real = dlsym(RTLD_NEXT, #f)
#define FAIL(e) do { if ((e) > 0) { errno = (e); return -1; } } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (S && !inside) {
        char p[PATH_MAX];
        resolve(dirfd, path, p);
        int w = flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR);
        if (w && under(p, ROOT)) {
            inside++;
            int e = op("open", p, 0);
            inside--;
            FAIL(e);
            int fd = syscall(SYS_openat, dirfd, path, flags, mode);
            if (fd >= 0 && fd < (int)sizeof tracked) {
                tracked[fd] = 1;
                if (fd < 256) snprintf(fdpath[fd], sizeof fdpath[fd], "%.150s", p);
            }
            return fd;
        }
        if (under(p, IN) && !(flags & O_DIRECTORY)) {
            const char *b = strrchr(p, '/');
            snprintf(who, sizeof who, "%.60s", b ? b + 1 : p);
        }
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0;
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int is_tracked(int fd) { return S && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
static const char *nm(int fd) { return fd < 256 ? fdpath[fd] : "?"; }

ssize_t write(int fd, const void *b, size_t n) {
    if (is_tracked(fd)) {
        int e = op("write", nm(fd), 1);
        if (e == -1) { syscall(SYS_write, fd, b, n / 2); die(); }
        if (e == -2) { if (n >= 2) return syscall(SYS_write, fd, b, n / 2); errno = S->err; return -1; }
        FAIL(e);
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    if (is_tracked(fd)) { int e = op("write", nm(fd), 1); if (e == -1) { syscall(SYS_pwrite64, fd, b, n / 2, o); die(); } if (e < 0) { errno = S->err; return -1; } FAIL(e); }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (is_tracked(fd)) {
        int e = op("write", nm(fd), 1);
        if (e == -1) { if (c) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); die(); }
        if (e < 0) { errno = S->err; return -1; }
        FAIL(e);
    }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    if (is_tracked(o)) { int e = op("write", nm(o), 1); if (e == -1) { syscall(SYS_copy_file_range, i, io, o, oo, n > 1u << 20 ? 64 : n / 2, f); die(); } if (e < 0) { errno = S->err; return -1; } FAIL(e); }
    return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (is_tracked(o)) { int e = op("write", nm(o), 1); if (e == -1) die(); if (e < 0) { errno = S->err; return -1; } FAIL(e); }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
int close(int fd) {
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0;
    return syscall(SYS_close, fd);
}
int ftruncate(int fd, off_t n) {
    if (is_tracked(fd)) { int e = op("truncate", nm(fd), 0); FAIL(e); }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) {
    if (is_tracked(fd)) { int e = op("fsync", nm(fd), 0); FAIL(e); }
    return syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
    if (is_tracked(fd)) { int e = op("fsync", nm(fd), 0); FAIL(e); }
    return syscall(SYS_fdatasync, fd);
}
int fchmod(int fd, mode_t m) {
    if (is_tracked(fd)) { int e = op("chmod", nm(fd), 0); FAIL(e); }
    return syscall(SYS_fchmod, fd, m);
}

static int path_op(const char *name, int d, const char *path) {
    if (!S || inside) return 0;
    char p[PATH_MAX];
    inside++;
    resolve(d, path, p);
    int e = under(p, ROOT) ? op(name, p, 0) : 0;
    inside--;
    return e;
}
int chmod(const char *p, mode_t m) { int e = path_op("chmod", AT_FDCWD, p); FAIL(e); return syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { int e = path_op("chmod", d, p); FAIL(e); return syscall(SYS_fchmodat, d, p, m); }
int mkdir(const char *p, mode_t m) { int e = path_op("mkdir", AT_FDCWD, p); FAIL(e); return syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { int e = path_op("mkdir", d, p); FAIL(e); return syscall(SYS_mkdirat, d, p, m); }
int rename(const char *a, const char *b) { int e = path_op("rename", AT_FDCWD, b); FAIL(e); return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { int e = path_op("rename", db, b); FAIL(e); return syscall(SYS_renameat2, da, a, db, b, 0); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { int e = path_op("rename", db, b); FAIL(e); return syscall(SYS_renameat2, da, a, db, b, f); }
int link(const char *a, const char *b) { int e = path_op("link", AT_FDCWD, b); FAIL(e); return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int da, const char *a, int db, const char *b, int f) { int e = path_op("link", db, b); FAIL(e); return syscall(SYS_linkat, da, a, db, b, f); }
int symlink(const char *a, const char *b) { int e = path_op("link", AT_FDCWD, b); FAIL(e); return syscall(SYS_symlinkat, a, AT_FDCWD, b); }
int unlink(const char *p) { int e = path_op("unlink", AT_FDCWD, p); FAIL(e); return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { int e = path_op("unlink", d, p); FAIL(e); return syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { int e = path_op("unlink", AT_FDCWD, p); FAIL(e); return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }

// existence checks are points where threads can interleave, but never fail
static void look(int d, const char *path) {
    if (!S || inside || !S->gate) return;
    char p[PATH_MAX];
    inside++;
    resolve(d, path, p);
    if (under(p, ROOT)) gate("stat", p);
    inside--;
}
int statx(int d, const char *p, int f, unsigned m, struct statx *x) { const char *volatile q = p; if (q && q[0]) look(d, q); return syscall(SYS_statx, d, p, f, m, x); }
int stat64(const char *p, struct stat64 *s) { look(AT_FDCWD, p); return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat64(const char *p, struct stat64 *s) { look(AT_FDCWD, p); return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int access(const char *p, int m) { look(AT_FDCWD, p); return syscall(SYS_faccessat, AT_FDCWD, p, m); }
