#include "procs.h"

#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <sstream>

namespace sched {

namespace {

const int MAXP = 4, MAXSEG = 16, MAXTRACE = 6000, PATHLEN = 88;

struct Rec {
    int8_t p, op;
    char path[PATHLEN], path2[PATHLEN];
};

struct Shared {
    std::atomic<int> turn;
    int n, nseg;
    Segment segs[MAXSEG];
    std::atomic<int> seg;
    std::atomic<long> left;
    std::atomic<int> done[MAXP], blocked[MAXP];
    std::atomic<long> ops[MAXP];
    std::atomic<long> clock;
    std::atomic<int> deadlock;
    std::atomic<int> ntrace;
    Rec trace[MAXTRACE];
};
Shared* S    = nullptr;
int me       = -1;
bool stopped = false;  ///< in a process: it no longer takes part
Visible visible_;
size_t rootLen_;

void futexWait(std::atomic<int>* a, int v) {
    struct timespec ts = {1, 0};
    ::syscall(SYS_futex, (int*)a, FUTEX_WAIT, v, &ts, nullptr, 0);
}
void futexWake(std::atomic<int>* a) {
    ::syscall(SYS_futex, (int*)a, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0);
}

/// Give the turn to the next process (called by, or on behalf of, the one that has it)
void handOver() {
    int cur = S->turn;
    for (;;) {
        int s = ++S->seg;
        if (s >= S->nseg) {
            break;
        }
        int p = S->segs[s].p;
        if (S->done[p] || S->segs[s].n == 0) {
            continue;
        }
        if (S->blocked[p] && p == cur) {
            continue;
        }
        S->blocked[p] = 0;
        S->left       = S->segs[s].n < 0 ? LONG_MAX : S->segs[s].n;
        S->turn       = p;
        futexWake(&S->turn);
        return;
    }
    // those left, lowest first; a blocked one only once another has run
    for (int pass = 0; pass < 2; ++pass) {
        for (int p = 0; p < S->n; ++p) {
            if (!S->done[p] && (pass == 1 || !S->blocked[p])) {
                if (pass == 1 && p == cur) {
                    bool other = false;
                    for (int q = 0; q < S->n; ++q) {
                        other = other || (q != p && !S->done[q]);
                    }
                    if (!other || S->blocked[p] > 3) {
                        S->deadlock = 1;
                    }
                }
                S->left = LONG_MAX;
                S->turn = p;
                futexWake(&S->turn);
                return;
            }
        }
    }
    S->turn = -1;
    futexWake(&S->turn);
}

void waitTurn() {
    for (;;) {
        int t = S->turn;
        if (t == me) {
            return;
        }
        futexWait(&S->turn, t);
    }
}

shim::Action before(shim::Event& e) {
    if (stopped || !visible_(e)) {
        return {};
    }
    waitTurn();
    for (;;) {
        long l = S->left;
        if (l <= 0) {
            handOver();
            waitTurn();
            continue;
        }
        if (S->left.compare_exchange_strong(l, l - 1)) {
            break;
        }
    }
    if (S->deadlock && e.op == shim::LOCK) {
        shim::Action a;
        a.kind = shim::Action::FAIL;
        a.err  = EDEADLK;
        return a;
    }
    S->ops[me]++;
    S->clock++;
    int i = S->ntrace++;
    if (i < MAXTRACE) {
        Rec& r = S->trace[i];
        r.p    = me;
        r.op   = e.op;
        auto put = [](char* to, const char* p) {
            p        = p ? p : "";
            size_t n = strlen(p);
            p += n > rootLen_ ? rootLen_ + 1 : n;
            strncpy(to, p, PATHLEN - 1);
        };
        put(r.path, e.path);
        put(r.path2, e.path2);
    }
    return {};
}

void after(shim::Event& e, long result, int err) {
    if (e.op == shim::LOCK && e.trylock) {
        if (result < 0 && (err == EWOULDBLOCK || err == EAGAIN || err == EACCES)) {
            S->blocked[me]++;
            handOver();
            waitTurn();
        }
        else {
            S->blocked[me] = 0;
        }
    }
}

}  // namespace

long now() {
    return S->clock;
}

std::string str(const std::vector<Segment>& s) {
    std::ostringstream o;
    for (auto& x : s) {
        o << (o.str().empty() ? "" : " ") << "P" << x.p << "*";
        if (x.n < 0) {
            o << "end";
        }
        else {
            o << x.n;
        }
    }
    return o.str();
}

std::string Run::text() const {
    std::ostringstream o;
    int last = -1;
    for (auto& t : trace) {
        if (t.p != last) {
            o << "\nP" << t.p << ":";
            last = t.p;
        }
        o << " " << shim::opName(t.op) << "(" << t.path << (t.path2.empty() ? "" : ", ") << t.path2 << ")";
    }
    return o.str();
}

Run run(const std::string& root, const std::vector<std::function<std::string()>>& procs, const std::vector<Segment>& schedule,
        Visible visible, int timeoutSeconds) {
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();  // (forked: the parent's is not ours)
        S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    int nt = std::min<int>(S->ntrace, MAXTRACE);
    memset((void*)S, 0, sizeof(Shared) - sizeof(Rec) * (MAXTRACE - nt));
    S->n    = (int)procs.size();
    S->nseg = (int)std::min<size_t>(schedule.size(), MAXSEG);
    for (int i = 0; i < S->nseg; ++i) {
        S->segs[i] = schedule[i];
    }
    S->seg  = -1;
    S->turn = -2;
    rootLen_ = root.size();
    visible_ = visible;

    Run r;
    r.procs.resize(procs.size());
    std::vector<pid_t> pids(procs.size());
    std::vector<int> outs(procs.size()), logs(procs.size());
    for (size_t i = 0; i < procs.size(); ++i) {
        outs[i] = memfd_create("out", MFD_CLOEXEC);
        logs[i] = memfd_create("log", MFD_CLOEXEC);
    }
    fflush(nullptr);
    for (size_t i = 0; i < procs.size(); ++i) {
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            dup2(logs[i], 1);
            dup2(logs[i], 2);
            me = (int)i;
            waitTurn();
            shim::track(root);
            shim::spinLocks = true;
            shim::post      = after;
            shim::hook      = before;
            int rc = 0;
            std::string out;
            try {
                out = procs[i]();
            }
            catch (std::exception& e) {
                out = e.what();
                rc  = 3;
            }
            stopped    = true;
            shim::hook = nullptr;
            size_t off = 0;
            while (off < out.size()) {
                ssize_t w = ::syscall(SYS_write, outs[i], out.data() + off, out.size() - off);
                if (w <= 0) {
                    break;
                }
                off += w;
            }
            waitTurn();
            S->done[me] = 1;
            handOver();
            ::syscall(SYS_exit_group, rc);
        }
        pids[i] = pid;
    }
    handOver();
    // wait for all
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    size_t left = procs.size();
    long nap    = 20000;
    while (left) {
        bool any = false;
        for (size_t i = 0; i < procs.size(); ++i) {
            if (pids[i] <= 0) {
                continue;
            }
            int st  = 0;
            pid_t w = waitpid(pids[i], &st, WNOHANG);
            if (w == pids[i]) {
                any     = true;
                pids[i] = 0;
                --left;
                auto& c = r.procs[i];
                if (!c.timeout) {
                    if (WIFSIGNALED(st)) {
                        c.sig = WTERMSIG(st);
                    }
                    else {
                        c.code = WEXITSTATUS(st);
                        c.ok   = c.code == 0;
                    }
                }
                if (!S->done[i]) {
                    S->done[i] = 1;
                    if (S->turn == (int)i) {
                        handOver();
                    }
                }
            }
        }
        if (!any) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (t1.tv_sec - t0.tv_sec > timeoutSeconds) {
                for (size_t i = 0; i < procs.size(); ++i) {
                    if (pids[i] > 0) {
                        r.procs[i].timeout = true;
                        kill(pids[i], SIGKILL);
                    }
                }
            }
            struct timespec ts = {0, nap};
            nanosleep(&ts, nullptr);
            nap = std::min(nap * 3 / 2, 500000L);
        }
    }
    for (size_t i = 0; i < procs.size(); ++i) {
        auto get = [](int fd, off_t last) {
            std::string s;
            off_t sz   = lseek(fd, 0, SEEK_END);
            off_t from = sz > last ? sz - last : 0;
            s.resize(sz - from);
            if (sz > from && pread(fd, &s[0], sz - from, from) < 0) {}
            ::close(fd);
            return s;
        };
        r.procs[i].out = get(outs[i], 1 << 30);
        auto log       = get(logs[i], 3000);
        if (!r.procs[i].ok) {
            r.procs[i].log = log;
        }
        r.ops.push_back(S->ops[i]);
    }
    for (int i = 0; i < std::min<int>(S->ntrace, MAXTRACE); ++i) {
        r.trace.push_back({S->trace[i].p, S->trace[i].op, S->trace[i].path, S->trace[i].path2});
    }
    r.deadlock = S->deadlock;
    return r;
}

}  // namespace sched
