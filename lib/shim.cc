#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "shim.h"

#include <aio.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <mutex>

namespace shim {

Hook hook      = nullptr;
Post post      = nullptr;
bool spinLocks = false;
Sockets* sockets = nullptr;

static std::string root_;
static thread_local int off_ = 0;

static const int MAXFD = 4096;
static char* fdPath_[MAXFD];

const char* opName(int op) {
    static const char* n[] = {"open",   "create", "close", "read",  "write", "seek",    "sync", "trunc", "rename",
                              "unlink", "rmdir",  "mkdir", "stat",  "opendir", "lock", "link",  "other"};
    return n[op];
}

void track(const std::string& root) {
    root_ = root;
}
const std::string& tracked() {
    return root_;
}

Off::Off() {
    ++off_;
}
Off::~Off() {
    --off_;
}

void die() {
    ::syscall(SYS_exit_group, 137);
    __builtin_unreachable();
}

static bool under(const char* p) {
    return !root_.empty() && p && strncmp(p, root_.c_str(), root_.size()) == 0 &&
           (p[root_.size()] == '/' || p[root_.size()] == 0);
}
static bool active(const char* p) {
    return hook && !off_ && under(p);
}
static const char* pathOf(int fd) {
    return (fd >= 0 && fd < MAXFD) ? fdPath_[fd] : nullptr;
}
static void setFd(int fd, const char* p) {
    if (fd >= 0 && fd < MAXFD) {
        char* old   = fdPath_[fd];
        fdPath_[fd] = p ? strdup(p) : nullptr;
        if (old) {
            free(old);
        }
    }
}
static bool activeFd(int fd) {
    return hook && !off_ && pathOf(fd);
}

template <class F>
static F real(F, const char* name) {
    void* f = dlsym(RTLD_NEXT, name);
    return reinterpret_cast<F>(f);
}
#define REAL(name) \
    static auto real_##name = real(&::name, #name)

/// Run the hook and the call. `call(len)` performs the operation (on at most len bytes, if it is a transfer).
template <class C>
static long guard(Event& e, C call) {
    Action a;
    {
        Off o;
        a = hook(e);
    }
    long r;
    int err = 0;
    switch (a.kind) {
        case Action::KILL:
            die();
        case Action::FAIL:
            r   = -1;
            err = a.err;
            break;
        case Action::KILL_AFTER:
            call(a.len < e.len ? a.len : e.len);
            die();
        case Action::SHORT:
            r   = call(a.len < e.len ? a.len : e.len);
            err = errno;
            break;
        default:
            r   = call(e.len);
            err = errno;
    }
    if (post) {
        Off o;
        post(e, r, err);
    }
    errno = err;
    return r;
}

}  // namespace shim

using namespace shim;

//----------------------------------------------------------------------------------------------------------------------

static int do_open(const char* path, int flags, mode_t mode) {
    // a plain system call, so that this works before dlsym does
    return (int)::syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}

static int hooked_open(const char* path, int flags, mode_t mode) {
    int fd;
    if (active(path)) {
        Event e;
        e.op    = (flags & O_CREAT) ? CREATE : OPEN;
        e.path  = path;
        e.flags = flags;
        fd      = (int)guard(e, [&](size_t) { return (long)do_open(path, flags, mode); });
    }
    else {
        fd = do_open(path, flags, mode);
    }
    if (fd >= 0) {
        int err = errno;
        setFd(fd, under(path) ? path : nullptr);
        errno = err;
    }
    return fd;
}

extern "C" {

#define GET_MODE                      \
    mode_t mode = 0;                  \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap;                   \
        va_start(ap, flags);          \
        mode = va_arg(ap, mode_t);    \
        va_end(ap);                   \
    }

int open(const char* path, int flags, ...) {
    GET_MODE return hooked_open(path, flags, mode);
}
int open64(const char* path, int flags, ...) {
    GET_MODE return hooked_open(path, flags, mode);
}
int __open_2(const char* path, int flags) {
    return hooked_open(path, flags, 0);
}
int creat(const char* path, mode_t mode) {
    return hooked_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

static bool socketIO(int fd, bool write, const void* buf, size_t len, long& r) {
    int err = 0;
    if (!sockets || !sockets->io(fd, write, (char*)buf, len, r, err)) {
        return false;
    }
    if (r < 0) {
        errno = err;
    }
    return true;
}

int connect(int fd, const struct sockaddr* a, socklen_t n) {
    int r = (int)::syscall(SYS_connect, fd, a, n);
    if (sockets && a->sa_family == AF_INET && (r == 0 || errno == EINPROGRESS)) {
        int e = errno;
        sockets->connected(fd);
        errno = e;
    }
    return r;
}

int close(int fd) {
    if (sockets) {
        sockets->closed(fd);
    }
    const char* p = pathOf(fd);
    if (p && activeFd(fd)) {
        std::string keep(p);
        Event e;
        e.op   = CLOSE;
        e.fd   = fd;
        e.path = keep.c_str();
        setFd(fd, nullptr);
        return (int)guard(e, [&](size_t) { return (long)::syscall(SYS_close, fd); });
    }
    if (p) {
        setFd(fd, nullptr);
    }
    return (int)::syscall(SYS_close, fd);
}

ssize_t read(int fd, void* buf, size_t len) {
    if (activeFd(fd)) {
        Event e;
        e.op   = READ;
        e.fd   = fd;
        e.path = pathOf(fd);
        e.len  = len;
        return guard(e, [&](size_t n) { return ::syscall(SYS_read, fd, buf, n); });
    }
    long r;
    if (socketIO(fd, false, buf, len, r)) {
        return r;
    }
    return ::syscall(SYS_read, fd, buf, len);
}
ssize_t pread(int fd, void* buf, size_t len, off_t off) {
    if (activeFd(fd)) {
        Event e;
        e.op   = READ;
        e.fd   = fd;
        e.path = pathOf(fd);
        e.len  = len;
        e.off  = off;
        return guard(e, [&](size_t n) { return ::syscall(SYS_pread64, fd, buf, n, off); });
    }
    return ::syscall(SYS_pread64, fd, buf, len, off);
}
ssize_t pread64(int fd, void* buf, size_t len, off_t off) {
    return pread(fd, buf, len, off);
}
ssize_t write(int fd, const void* buf, size_t len) {
    if (activeFd(fd)) {
        Event e;
        e.op   = WRITE;
        e.fd   = fd;
        e.path = pathOf(fd);
        e.len  = len;
        e.data = buf;
        return guard(e, [&](size_t n) { return ::syscall(SYS_write, fd, buf, n); });
    }
    long r;
    if (socketIO(fd, true, buf, len, r)) {
        return r;
    }
    return ::syscall(SYS_write, fd, buf, len);
}
ssize_t pwrite(int fd, const void* buf, size_t len, off_t off) {
    if (activeFd(fd)) {
        Event e;
        e.op   = WRITE;
        e.fd   = fd;
        e.path = pathOf(fd);
        e.len  = len;
        e.off  = off;
        e.data = buf;
        return guard(e, [&](size_t n) { return ::syscall(SYS_pwrite64, fd, buf, n, off); });
    }
    return ::syscall(SYS_pwrite64, fd, buf, len, off);
}
ssize_t pwrite64(int fd, const void* buf, size_t len, off_t off) {
    return pwrite(fd, buf, len, off);
}
ssize_t writev(int fd, const struct iovec* iov, int n) {
    if (activeFd(fd)) {
        std::string all;
        for (int i = 0; i < n; ++i) {
            all.append((const char*)iov[i].iov_base, iov[i].iov_len);
        }
        return write(fd, all.data(), all.size());
    }
    return ::syscall(SYS_writev, fd, iov, n);
}
off_t lseek(int fd, off_t off, int whence) {
    if (activeFd(fd)) {
        Event e;
        e.op   = SEEK;
        e.fd   = fd;
        e.path = pathOf(fd);
        e.off  = off;
        return guard(e, [&](size_t) { return ::syscall(SYS_lseek, fd, off, whence); });
    }
    return ::syscall(SYS_lseek, fd, off, whence);
}
off_t lseek64(int fd, off_t off, int whence) {
    return lseek(fd, off, whence);
}
int fsync(int fd) {
    if (activeFd(fd)) {
        Event e;
        e.op   = SYNC;
        e.fd   = fd;
        e.path = pathOf(fd);
        return (int)guard(e, [&](size_t) { return ::syscall(SYS_fsync, fd); });
    }
    return (int)::syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
    if (activeFd(fd)) {
        Event e;
        e.op   = SYNC;
        e.fd   = fd;
        e.path = pathOf(fd);
        return (int)guard(e, [&](size_t) { return ::syscall(SYS_fdatasync, fd); });
    }
    return (int)::syscall(SYS_fdatasync, fd);
}
int ftruncate(int fd, off_t len) {
    if (activeFd(fd)) {
        Event e;
        e.op   = TRUNC;
        e.fd   = fd;
        e.path = pathOf(fd);
        e.off  = len;
        return (int)guard(e, [&](size_t) { return ::syscall(SYS_ftruncate, fd, len); });
    }
    return (int)::syscall(SYS_ftruncate, fd, len);
}
int ftruncate64(int fd, off_t len) {
    return ftruncate(fd, len);
}

#define PATHOP(OP, P, P2, CALL)                             \
    if (active(P) || active(P2)) {                          \
        Event e;                                            \
        e.op    = OP;                                       \
        e.path  = P;                                        \
        e.path2 = P2;                                       \
        return (int)guard(e, [&](size_t) { return (long)CALL; }); \
    }                                                       \
    return (int)CALL;

int truncate(const char* path, off_t len) {
    PATHOP(TRUNC, path, (const char*)nullptr, ::syscall(SYS_truncate, path, len))
}
int rename(const char* a, const char* b) {
    PATHOP(RENAME, a, b, ::syscall(SYS_rename, a, b))
}
int link(const char* a, const char* b) {
    PATHOP(LINK, a, b, ::syscall(SYS_link, a, b))
}
int symlink(const char* a, const char* b) {
    PATHOP(LINK, a, b, ::syscall(SYS_symlink, a, b))
}
int unlink(const char* a) {
    PATHOP(UNLINK, a, (const char*)nullptr, ::syscall(SYS_unlink, a))
}
int remove(const char* a) {
    REAL(remove);
    PATHOP(UNLINK, a, (const char*)nullptr, real_remove(a))
}
int rmdir(const char* a) {
    PATHOP(RMDIR, a, (const char*)nullptr, ::syscall(SYS_rmdir, a))
}
int mkdir(const char* a, mode_t m) {
    PATHOP(MKDIR, a, (const char*)nullptr, ::syscall(SYS_mkdir, a, m))
}
int access(const char* a, int m) {
    PATHOP(STAT, a, (const char*)nullptr, ::syscall(SYS_access, a, m))
}
int stat(const char* __restrict a, struct stat* __restrict s) {
    REAL(stat);
    PATHOP(STAT, a, (const char*)nullptr, real_stat(a, s))
}
int lstat(const char* __restrict a, struct stat* __restrict s) {
    REAL(lstat);
    PATHOP(STAT, a, (const char*)nullptr, real_lstat(a, s))
}
int __xstat(int v, const char* a, struct stat* s) {
    typedef int (*F)(const char*, struct stat*);
    static F f = (F)dlsym(RTLD_NEXT, "stat");
    PATHOP(STAT, a, (const char*)nullptr, f(a, s))
}
int __lxstat(int v, const char* a, struct stat* s) {
    typedef int (*F)(const char*, struct stat*);
    static F f = (F)dlsym(RTLD_NEXT, "lstat");
    PATHOP(STAT, a, (const char*)nullptr, f(a, s))
}
DIR* opendir(const char* a) {
    REAL(opendir);
    if (active(a)) {
        Event e;
        e.op   = OPENDIR;
        e.path = a;
        long r = guard(e, [&](size_t) { return (long)real_opendir(a); });
        return r == -1 ? nullptr : (DIR*)r;
    }
    return real_opendir(a);
}

int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if ((cmd == F_SETLKW || cmd == F_SETLK) && activeFd(fd)) {
        for (;;) {
            Event e;
            e.op      = LOCK;
            e.fd      = fd;
            e.path    = pathOf(fd);
            e.flags   = ((struct flock*)arg)->l_type;
            e.trylock = spinLocks && cmd == F_SETLKW;
            long r    = guard(e, [&](size_t) { return ::syscall(SYS_fcntl, fd, e.trylock ? F_SETLK : cmd, arg); });
            if (r < 0 && e.trylock && (errno == EAGAIN || errno == EACCES)) {
                continue;
            }
            return (int)r;
        }
    }
    return (int)::syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}
int flock(int fd, int op) {
    if (activeFd(fd)) {
        for (;;) {
            Event e;
            e.op      = LOCK;
            e.fd      = fd;
            e.path    = pathOf(fd);
            e.flags   = op;
            e.trylock = spinLocks && !(op & LOCK_NB);
            long r    = guard(e, [&](size_t) { return ::syscall(SYS_flock, fd, e.trylock ? op | LOCK_NB : op); });
            if (r < 0 && e.trylock && errno == EWOULDBLOCK) {
                continue;
            }
            return (int)r;
        }
    }
    return (int)::syscall(SYS_flock, fd, op);
}

//---------------------------------------------------------------------------------------------------------------- stdio

}  // extern "C"

namespace {
struct Cookie {
    int fd;
};
struct CookieMap {
    std::mutex m;
    std::map<FILE*, int> fds;
};
CookieMap& cookies() {
    static CookieMap* c = new CookieMap;
    return *c;
}
ssize_t ck_read(void* c, char* b, size_t n) {
    return read(((Cookie*)c)->fd, b, n);
}
ssize_t ck_write(void* c, const char* b, size_t n) {
    // as _IO_new_file_write: all of it, or an error after a partial write
    size_t done = 0;
    while (done < n) {
        ssize_t r = write(((Cookie*)c)->fd, b + done, n - done);
        if (r < 0) {
            // fopencookie: 0 signals an error
            return done ? (ssize_t)done : 0;
        }
        done += r;
    }
    return (ssize_t)done;
}
int ck_seek(void* c, off64_t* off, int whence) {
    off_t r = lseek(((Cookie*)c)->fd, *off, whence);
    if (r < 0) {
        return -1;
    }
    *off = r;
    return 0;
}
int ck_close(void* c) {
    int fd = ((Cookie*)c)->fd;
    delete (Cookie*)c;
    return close(fd);
}
}  // namespace

extern "C" {

FILE* fopen(const char* path, const char* mode) {
    REAL(fopen);
    if (!active(path)) {
        return real_fopen(path, mode);
    }
    bool plus = strchr(mode, '+');
    int flags = 0;
    switch (mode[0]) {
        case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
        case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: errno = EINVAL; return nullptr;
    }
    int fd = hooked_open(path, flags, 0666);
    if (fd < 0) {
        return nullptr;
    }
    if (mode[0] == 'a') {
        ::syscall(SYS_lseek, fd, 0, SEEK_END);
    }
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f                  = fopencookie(new Cookie{fd}, mode, io);
    std::lock_guard<std::mutex> l(cookies().m);
    cookies().fds[f] = fd;
    return f;
}
FILE* fopen64(const char* path, const char* mode) {
    return fopen(path, mode);
}
int fileno(FILE* f) {
    REAL(fileno);
    {
        std::lock_guard<std::mutex> l(cookies().m);
        auto it = cookies().fds.find(f);
        if (it != cookies().fds.end()) {
            return it->second;
        }
    }
    return real_fileno(f);
}
int fclose(FILE* f) {
    REAL(fclose);
    {
        std::lock_guard<std::mutex> l(cookies().m);
        cookies().fds.erase(f);
    }
    return real_fclose(f);
}

//------------------------------------------------------------------------------------------------------------------ aio

}  // extern "C"

namespace {
struct AioMap {
    std::mutex m;
    std::map<const struct aiocb*, std::pair<ssize_t, int>> done;
};
AioMap& aios() {
    static AioMap* a = new AioMap;
    return *a;
}
bool aioFind(const struct aiocb* p, std::pair<ssize_t, int>& r, bool erase = false) {
    std::lock_guard<std::mutex> l(aios().m);
    auto it = aios().done.find(p);
    if (it == aios().done.end()) {
        return false;
    }
    r = it->second;
    if (erase) {
        aios().done.erase(it);
    }
    return true;
}
}  // namespace

extern "C" {

int aio_read(struct aiocb* p) {
    REAL(aio_read);
    if (!activeFd(p->aio_fildes)) {
        return real_aio_read(p);
    }
    // synchronously, so that the order of operations is that of the program
    ssize_t r = pread(p->aio_fildes, (void*)p->aio_buf, p->aio_nbytes, p->aio_offset);
    int err   = r < 0 ? errno : 0;
    std::lock_guard<std::mutex> l(aios().m);
    aios().done[p] = {r, err};
    return 0;
}
int aio_error(const struct aiocb* p) {
    REAL(aio_error);
    std::pair<ssize_t, int> r;
    return aioFind(p, r) ? r.second : real_aio_error(p);
}
ssize_t aio_return(struct aiocb* p) {
    REAL(aio_return);
    std::pair<ssize_t, int> r;
    if (aioFind(p, r, true)) {
        errno = r.second;
        return r.first;
    }
    return real_aio_return(p);
}
int aio_suspend(const struct aiocb* const list[], int n, const struct timespec* t) {
    REAL(aio_suspend);
    std::pair<ssize_t, int> r;
    for (int i = 0; i < n; ++i) {
        if (list[i] && aioFind(list[i], r)) {
            return 0;
        }
    }
    return real_aio_suspend(list, n, t);
}
int aio_cancel(int fd, struct aiocb* p) {
    REAL(aio_cancel);
    std::pair<ssize_t, int> r;
    if (p && aioFind(p, r)) {
        return AIO_ALLDONE;
    }
    return real_aio_cancel(fd, p);
}

}  // extern "C"
