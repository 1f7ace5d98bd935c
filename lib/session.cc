#include <stdexcept>
#include <sys/types.h>
#include "session.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include "mc.h"

namespace mc {

static bool readAll(int fd, void* b, size_t n) {
    char* p = (char*)b;
    while (n) {
        ssize_t r = ::syscall(SYS_read, fd, p, n);
        if (r <= 0) {
            return false;
        }
        p += r;
        n -= r;
    }
    return true;
}
static bool writeAll(int fd, const void* b, size_t n) {
    const char* p = (const char*)b;
    while (n) {
        ssize_t r = ::syscall(SYS_write, fd, p, n);
        if (r <= 0) {
            return false;
        }
        p += r;
        n -= r;
    }
    return true;
}
static bool put(int fd, const std::string& s) {
    uint32_t n    = s.size();
    std::string m = std::string((char*)&n, 4) + s;
    return writeAll(fd, m.data(), m.size());
}
static bool get(int fd, std::string& s) {
    uint32_t n;
    if (!readAll(fd, &n, 4)) {
        return false;
    }
    s.resize(n);
    return readAll(fd, &s[0], n);
}

Session::Session(const std::function<Handler()>& start) {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) {
        throw Broken("pipe");
    }
    signal(SIGPIPE, SIG_IGN);
    log_ = memfd_create("log", MFD_CLOEXEC);
    pid_ = fork();
    if (pid_ == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        ::close(a[1]);
        ::close(b[0]);
        dup2(log_, 1);
        dup2(log_, 2);
        {
            Handler h;
            try {
                h = start();
            }
            catch (std::exception& e) {
                put(b[1], std::string("EXC start ") + e.what());
                ::syscall(SYS_exit_group, 4);
            }
            std::string cmd;
            while (get(a[0], cmd) && cmd != "\x01quit") {
                std::string r;
                try {
                    r = h(cmd);
                }
                catch (std::exception& e) {
                    r = std::string("EXC ") + e.what();
                }
                if (!put(b[1], r)) {
                    ::syscall(SYS_exit_group, 5);
                }
            }
        }
        ::syscall(SYS_exit_group, 0);
    }
    ::close(a[0]);
    ::close(b[1]);
    to_   = a[1];
    from_ = b[0];
}

Session::~Session() {
    killNow();
    ::close(to_);
    ::close(from_);
    ::close(log_);
}

void Session::killNow() {
    if (pid_ > 0) {
        kill(pid_, SIGKILL);
        int st;
        waitpid(pid_, &st, 0);
        pid_ = -1;
    }
}

void Session::send(const std::string& cmd) {
    if (!put(to_, cmd)) {
        throw Broken("process died before '" + cmd + "': " + log());
    }
}

std::string Session::receive(int timeout) {
    struct pollfd f = {from_, POLLIN, 0};
    double end      = now() + timeout;
    int r;
    while ((r = poll(&f, 1, (int)((end - now()) * 1000))) < 0) {}
    if (r == 0) {
        killNow();
        throw Broken("hang: " + log());
    }
    std::string s;
    if (!get(from_, s)) {
        int st = 0;
        waitpid(pid_, &st, 0);
        pid_ = -1;
        throw Broken((WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st))
                                      : "process exited with " + std::to_string(WEXITSTATUS(st))) +
                     ": " + log());
    }
    return s;
}

std::string Session::operator()(const std::string& cmd, int timeout) {
    send(cmd);
    return receive(timeout);
}

bool Session::quit(int timeout) {
    if (pid_ < 0) {
        return false;
    }
    put(to_, "\x01quit");
    double end = now() + timeout;
    int st     = 0;
    while (waitpid(pid_, &st, WNOHANG) != pid_) {
        if (now() > end) {
            killNow();
            return false;
        }
        usleep(100);
    }
    pid_ = -1;
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

std::string Session::log() const {
    std::string s;
    off_t sz = lseek(log_, 0, SEEK_END);
    if (sz > 0) {
        off_t from = sz > 2000 ? sz - 2000 : 0;
        s.resize(sz - from);
        if (pread(log_, &s[0], s.size(), from) < 0) {}
    }
    return s;
}

}  // namespace mc
