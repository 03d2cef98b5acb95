/*
 * Preloaded before libc: counts the calls that change files below one folder and makes the
 * n-th of them fail, or ends or interrupts the process there. Armed and read through ctypes.
 * In steps, it also counts the calls that open something to read it, and waits at each call
 * until it is told to go on.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT, CRASH, FAIL_ONCE, FAIL_FROM, FAIL_ALL_FROM, INTERRUPT, STEPS };

static int armed = 0, mode = COUNT, failing = EIO, part = -1;
static int steps_out = -1, steps_in = -1;
static long target = 0, seen = 0;
static char folder[PATH_MAX];
static size_t folder_length = 0;
static char kinds[65536];

void faults_arm(const char *below, int how, long at, int error, int eighths) {
    snprintf(folder, sizeof folder, "%s", below);
    folder_length = strlen(folder);
    mode = how;
    target = at;
    failing = error;
    part = eighths;
    seen = 0;
    kinds[0] = 0;
    armed = 1;
}

void faults_steps(const char *below, int out, int in) {
    faults_arm(below, STEPS, 0, 0, -1);
    steps_out = out;
    steps_in = in;
}

void faults_disarm(void) { armed = 0; }
long faults_seen(void) { return seen; }
const char *faults_kinds(void) { return kinds; }

static int below_folder(const char *path) {
    return !strncmp(path, folder, folder_length) && (path[folder_length] == '/' || !path[folder_length]);
}

static int path_counts(int dirfd, const char *path) {
    char full[2 * PATH_MAX + 2];
    if (!armed || !path) return 0;
    if (path[0] == '/') return below_folder(path);
    if (dirfd == AT_FDCWD) {
        if (!getcwd(full, PATH_MAX)) return 0;
    } else {
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t length = readlink(link, full, PATH_MAX);
        if (length <= 0) return 0;
        full[length] = 0;
    }
    strncat(full, "/", 2);
    strncat(full, path, PATH_MAX);
    return below_folder(full);
}

static int fd_counts(int fd) {
    char link[64], full[PATH_MAX];
    if (!armed) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t length = readlink(link, full, sizeof full - 1);
    if (length <= 0) return 0;
    full[length] = 0;
    return below_folder(full);
}

/* What is to be done at this call: 0 carry on, 1 fail, 2 do a part of it and then end or fail. */
static int fault(char kind, int uses_space) {
    seen++;
    if (seen < (long)sizeof kinds) {
        kinds[seen - 1] = kind;
        kinds[seen] = 0;
    }
    int partial = part > 0 && kind == 'w';
    switch (mode) {
    case CRASH:
        if (seen != target) return 0;
        if (partial) return 2;
        _exit(77);
    case FAIL_ONCE:
        if (seen != target) return 0;
        return partial ? 2 : 1;
    case FAIL_FROM:
        if (seen < target || !uses_space) return 0;
        return seen == target && partial ? 2 : 1;
    case FAIL_ALL_FROM:
        if (seen < target) return 0;
        return seen == target && partial ? 2 : 1;
    case INTERRUPT:
        if (seen == target) raise(SIGINT);
        return 0;
    case STEPS:
        if (syscall(SYS_write, steps_out, &kind, 1) != 1 || syscall(SYS_read, steps_in, &kind, 1) != 1) _exit(78);
        return 0;
    }
    return 0;
}

#define REAL(name, type) \
    static __typeof__(type) real = 0; \
    if (!real) real = (__typeof__(type))dlsym(RTLD_NEXT, name)

#define JUDGE(counts, kind, uses_space) \
    if ((counts) && fault(kind, uses_space)) { \
        errno = failing; \
        return -1; \
    }

static int opens_to_write(int flags) { return mode == STEPS || (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

/* A disk without space refuses new files; one that is there can still be emptied. */
static int open_uses_space(int dirfd, const char *path) {
    return !path || (failing != ENOSPC && failing != EDQUOT) || faccessat(dirfd, path, F_OK, 0);
}

#define OPEN(name) \
    int name(const char *path, int flags, ...) { \
        REAL(#name, int (*)(const char *, int, ...)); \
        va_list rest; \
        va_start(rest, flags); \
        int bits = va_arg(rest, int); \
        va_end(rest); \
        if (opens_to_write(flags)) JUDGE(path_counts(AT_FDCWD, path), 'o', open_uses_space(AT_FDCWD, path)); \
        return real(path, flags, bits); \
    }
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
    int name(int dirfd, const char *path, int flags, ...) { \
        REAL(#name, int (*)(int, const char *, int, ...)); \
        va_list rest; \
        va_start(rest, flags); \
        int bits = va_arg(rest, int); \
        va_end(rest); \
        if (opens_to_write(flags)) JUDGE(path_counts(dirfd, path), 'o', open_uses_space(dirfd, path)); \
        return real(dirfd, path, flags, bits); \
    }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *data, size_t size) {
    REAL("write", ssize_t (*)(int, const void *, size_t));
    if (fd_counts(fd)) {
        int what = fault('w', 1);
        if (what == 2 && size > 1) {
            size_t some = size * part / 8 ? size * part / 8 : 1;
            ssize_t done = real(fd, data, some);
            if (mode == CRASH) _exit(77);
            return done;
        }
        if (what) {
            if (mode == CRASH) _exit(77);
            errno = failing;
            return -1;
        }
    }
    return real(fd, data, size);
}

#define WRITER(name, kind, params, types, args) \
    ssize_t name params { \
        REAL(#name, ssize_t (*) types); \
        JUDGE(fd_counts(fd), kind, 1); \
        return real args; \
    }
WRITER(pwrite, 'W', (int fd, const void *data, size_t size, off_t at), (int, const void *, size_t, off_t), (fd, data, size, at))
WRITER(pwrite64, 'W', (int fd, const void *data, size_t size, off64_t at), (int, const void *, size_t, off64_t), (fd, data, size, at))
WRITER(writev, 'W', (int fd, const struct iovec *parts, int count), (int, const struct iovec *, int), (fd, parts, count))
WRITER(sendfile, 'W', (int fd, int in, off_t *at, size_t size), (int, int, off_t *, size_t), (fd, in, at, size))
WRITER(sendfile64, 'W', (int fd, int in, off64_t *at, size_t size), (int, int, off64_t *, size_t), (fd, in, at, size))

ssize_t copy_file_range(int in, off64_t *in_at, int fd, off64_t *at, size_t size, unsigned flags) {
    REAL("copy_file_range", ssize_t (*)(int, off64_t *, int, off64_t *, size_t, unsigned));
    JUDGE(fd_counts(fd), 'W', 1);
    return real(in, in_at, fd, at, size, flags);
}

#define FD_CALL(name, kind, uses_space) \
    int name(int fd) { \
        REAL(#name, int (*)(int)); \
        JUDGE(fd_counts(fd), kind, uses_space); \
        return real(fd); \
    }
FD_CALL(fsync, 'f', 1)
FD_CALL(fdatasync, 'f', 1)

int ftruncate(int fd, off_t size) {
    REAL("ftruncate", int (*)(int, off_t));
    JUDGE(fd_counts(fd), 't', 0);
    return real(fd, size);
}
int ftruncate64(int fd, off64_t size) {
    REAL("ftruncate64", int (*)(int, off64_t));
    JUDGE(fd_counts(fd), 't', 0);
    return real(fd, size);
}
int truncate(const char *path, off_t size) {
    REAL("truncate", int (*)(const char *, off_t));
    JUDGE(path_counts(AT_FDCWD, path), 't', 0);
    return real(path, size);
}
int truncate64(const char *path, off64_t size) {
    REAL("truncate64", int (*)(const char *, off64_t));
    JUDGE(path_counts(AT_FDCWD, path), 't', 0);
    return real(path, size);
}

int rename(const char *from, const char *to) {
    REAL("rename", int (*)(const char *, const char *));
    JUDGE(path_counts(AT_FDCWD, from) || path_counts(AT_FDCWD, to), 'r', 1);
    return real(from, to);
}
int renameat(int from_fd, const char *from, int to_fd, const char *to) {
    REAL("renameat", int (*)(int, const char *, int, const char *));
    JUDGE(path_counts(from_fd, from) || path_counts(to_fd, to), 'r', 1);
    return real(from_fd, from, to_fd, to);
}
int link(const char *from, const char *to) {
    REAL("link", int (*)(const char *, const char *));
    JUDGE(path_counts(AT_FDCWD, to), 'l', 1);
    return real(from, to);
}
int linkat(int from_fd, const char *from, int to_fd, const char *to, int flags) {
    REAL("linkat", int (*)(int, const char *, int, const char *, int));
    JUDGE(path_counts(to_fd, to), 'l', 1);
    return real(from_fd, from, to_fd, to, flags);
}
int symlink(const char *from, const char *to) {
    REAL("symlink", int (*)(const char *, const char *));
    JUDGE(path_counts(AT_FDCWD, to), 'l', 1);
    return real(from, to);
}
int unlink(const char *path) {
    REAL("unlink", int (*)(const char *));
    JUDGE(path_counts(AT_FDCWD, path), 'u', 0);
    return real(path);
}
int unlinkat(int dirfd, const char *path, int flags) {
    REAL("unlinkat", int (*)(int, const char *, int));
    JUDGE(path_counts(dirfd, path), 'u', 0);
    return real(dirfd, path, flags);
}
int mkdir(const char *path, mode_t bits) {
    REAL("mkdir", int (*)(const char *, mode_t));
    JUDGE(path_counts(AT_FDCWD, path), 'm', 1);
    return real(path, bits);
}
int mkdirat(int dirfd, const char *path, mode_t bits) {
    REAL("mkdirat", int (*)(int, const char *, mode_t));
    JUDGE(path_counts(dirfd, path), 'm', 1);
    return real(dirfd, path, bits);
}
int rmdir(const char *path) {
    REAL("rmdir", int (*)(const char *));
    JUDGE(path_counts(AT_FDCWD, path), 'u', 0);
    return real(path);
}
int chmod(const char *path, mode_t bits) {
    REAL("chmod", int (*)(const char *, mode_t));
    JUDGE(path_counts(AT_FDCWD, path), 'c', 0);
    return real(path, bits);
}
int fchmod(int fd, mode_t bits) {
    REAL("fchmod", int (*)(int, mode_t));
    JUDGE(fd_counts(fd), 'c', 0);
    return real(fd, bits);
}
DIR *opendir(const char *path) {
    REAL("opendir", DIR *(*)(const char *));
    if (mode == STEPS && path_counts(AT_FDCWD, path)) fault('d', 0);
    return real(path);
}
