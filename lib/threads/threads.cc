#include "threads.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unwind.h>

#include <atomic>
#include <chrono>
#include <deque>
#include <map>
#include <set>
#include <sstream>

#include <bits/atomic_futex.h>

#include "internal.h"
#include "shim.h"

namespace threads {

namespace {

const int MAXDEC = 60000, MAXTRACE = 1 << 20, MAXPLACES = 4096;

const size_t MAXTOUCH = 1 << 16;
struct Dec {
    uint8_t options, chosen, current, foreign, thread;
    uint64_t obj[2];
    const char* what;
    void* pc;
};
struct Touch {
    uint64_t obj, threads;
};
struct Shared {
    Touch touches[MAXTOUCH];
    int nplaces;
    void* places[MAXPLACES];
    char fault[512];
    int deadlock, truncated;
    long points;
    int ndec;
    Dec dec[MAXDEC];
    int ntrace;
    char trace[MAXTRACE];
    char blocked[4096];
};
Shared* S = nullptr;

struct T {
    int id;
    std::atomic<int> go{0};
    bool done    = false;
    bool blocked = false;
    bool timed = false, timedOut = false, signalled = false;
    std::function<bool()> ready;
    const char* what = "";
    uint64_t obj[2]  = {};  ///< of the point; 0 for what concerns all
    bool foreign     = false;
    void* pc         = nullptr;
    int delayed      = 0;  ///< when it was last preempted: those never preempted come first
    pthread_t handle{};
};

bool active = false;
Options opt;
std::vector<int> prefix_;
T* all[MAXT];
int nt = 0;
int delays = 0;
thread_local T* self = nullptr;  ///< null: not under control
thread_local int off = 0;
long rwEvents = 0;
std::map<pthread_cond_t*, std::vector<T*>>* waiting = nullptr;
std::set<void*>* inProgress = nullptr;

bool controlled() {
    return active && self && !off;
}

struct NoPoints {
    NoPoints() { ++off; }
    ~NoPoints() { --off; }
};

// what memory.cc asks for
Hooks* hooks = nullptr;
void acquired(void* m) {
    if (hooks) {
        hooks->acquired(m);
    }
}
void released(void* m) {
    if (hooks) {
        hooks->released(m);
    }
}
void publishes(void* m) {
    if (hooks && controlled()) {
        hooks->publishes(m);
    }
}
void observes(void* m) {
    if (hooks && controlled()) {
        hooks->observes(m);
    }
}

void wake(T* t) {
    t->go.store(1);
    ::syscall(SYS_futex, (int*)&t->go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void sleepUntilGo() {
    while (self->go.load() == 0) {
        ::syscall(SYS_futex, (int*)&self->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    self->go.store(0);
}

void trace(const char* what, void* obj) {
    if (S->ntrace + 40 < MAXTRACE) {
        S->ntrace += snprintf(S->trace + S->ntrace, 40, "%d:%s ", self->id, what);
    }
}

[[noreturn]] void deadlocked() {
    S->deadlock = 1;
    int n       = 0;
    for (int i = 0; i < nt; ++i) {
        if (!all[i]->done) {
            n += snprintf(S->blocked + n, sizeof(S->blocked) - n, "thread %d in %s; ", i, all[i]->what);
            if (n > 3900) {
                break;
            }
        }
    }
    ::syscall(SYS_exit_group, 99);
    for (;;) {}
}

/// Choose who goes on, and return once it is this thread. The calling thread's `blocked` and `ready` say whether it can.
void schedule() {
    NoPoints np;
    T* options[MAXT];
    for (;;) {
        int n        = 0;
        bool current = !self->done && (!self->blocked || self->ready());
        if (current) {
            options[n++] = self;
        }
        for (int i = 0; i < nt; ++i) {
            T* t = all[i];
            if (t != self && !t->done && (!t->blocked || t->ready())) {
                options[n++] = t;
            }
        }
        for (int i = current ? 2 : 1; i < n; ++i) {
            for (int j = i; j > (current ? 1 : 0) && options[j]->delayed < options[j - 1]->delayed; --j) {
                std::swap(options[j], options[j - 1]);
            }
        }
        if (n == 0) {
            // time passes: those waiting for a time, one after the other
            T* timed = nullptr;
            for (int i = 0; i < nt && !timed; ++i) {
                if (!all[i]->done && all[i]->timed && !all[i]->timedOut) {
                    timed = all[i];
                }
            }
            if (!timed) {
                bool left = false;
                for (int i = 0; i < nt; ++i) {
                    left = left || !all[i]->done;
                }
                if (left) {
                    deadlocked();
                }
                return;
            }
            timed->timedOut = true;
            timed->blocked  = false;
            continue;
        }
        int c = 0;
        if (n > 1) {
            if (S->ndec < MAXDEC && (size_t)S->ndec < opt.maxDecisions) {
                if ((size_t)S->ndec < prefix_.size()) {
                    c = prefix_[S->ndec];
                    if (c >= n) {
                        c = n - 1;
                    }
                }
                S->dec[S->ndec++] = {(uint8_t)n, (uint8_t)c, (uint8_t)current, (uint8_t)(current && self->foreign), (uint8_t)self->id,
                                     {current ? self->obj[0] : 0, current ? self->obj[1] : 0}, self->what, current ? self->pc : nullptr};
            }
            else {
                S->truncated = 1;
            }
        }
        if (c && current) {
            self->delayed = ++delays;
        }
        T* t       = options[c];
        t->blocked = false;
        if (t == self) {
            return;
        }
        bool done = self->done;
        wake(t);
        if (done) {
            return;
        }
        sleepUntilGo();
        return;
    }
}

// Is this operation on a lock another library's own affair? Looks at who has called: of eckit's lock classes, at their caller.
struct Range {
    uintptr_t from, to;
};
std::vector<Range>* own = nullptr;
struct Walk {
    int skip;
    int n = 0;
    uintptr_t pc[2];
};
void findOwn() {
    own = new std::vector<Range>;
    dl_iterate_phdr(
        [](dl_phdr_info* i, size_t, void*) {
            if (!*i->dlpi_name || strstr(i->dlpi_name, "fdb5")) {
                for (int k = 0; k < i->dlpi_phnum; ++k) {
                    auto& h = i->dlpi_phdr[k];
                    if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) {
                        own->push_back({i->dlpi_addr + h.p_vaddr, i->dlpi_addr + h.p_vaddr + h.p_memsz});
                    }
                }
            }
            return 0;
        },
        nullptr);
}
bool isOwn(uintptr_t pc) {
    for (auto& r : *own) {
        if (pc >= r.from && pc < r.to) {
            return true;
        }
    }
    return false;
}
std::map<void*, bool>* foreignObjects = nullptr;
bool isForeign(void* caller, void* obj) {
    if (!opt.classify || isOwn((uintptr_t)caller)) {
        return false;
    }
    NoPoints np;
    if (!foreignObjects) {
        foreignObjects = new std::map<void*, bool>;
    }
    auto known = foreignObjects->find(obj);
    if (known != foreignObjects->end()) {
        return known->second;
    }
    struct State {
        uintptr_t caller;
        bool found = false, done = false, own = false;
    } st{(uintptr_t)caller};
    _Unwind_Backtrace(
        [](_Unwind_Context* c, void* p) {
            auto& st     = *(State*)p;
            uintptr_t pc = _Unwind_GetIP(c);
            if (st.found) {
                st.own = isOwn(pc);
                return _URC_END_OF_STACK;
            }
            st.found = pc == st.caller;
            return _URC_NO_REASON;
        },
        &st);
    (*foreignObjects)[obj] = !st.own;
    return !st.own;
}

void touch(uint64_t obj) {
    size_t h = obj * 0x9E3779B97F4A7C15ull >> 48;
    for (size_t i = 0; i < MAXTOUCH; ++i, h = (h + 1) % MAXTOUCH) {
        if (S->touches[h].obj == obj || !S->touches[h].obj) {
            S->touches[h].obj = obj;
            S->touches[h].threads |= 1ull << self->id;
            return;
        }
    }
}
bool touchedByOthers(uint64_t obj) {
    size_t h = obj * 0x9E3779B97F4A7C15ull >> 48;
    for (size_t i = 0; i < MAXTOUCH && S->touches[h].obj; ++i, h = (h + 1) % MAXTOUCH) {
        if (S->touches[h].obj == obj) {
            return S->touches[h].threads & (S->touches[h].threads - 1);
        }
    }
    return false;
}

void pointHere(const char* what, uint64_t a, uint64_t b) {
    S->points++;
    self->what   = what;
    self->obj[0] = a;
    self->obj[1] = b;
    if (a) {
        touch(a);
    }
    if (b) {
        touch(b);
    }
    schedule();
    trace(what, nullptr);
    self->obj[0] = self->obj[1] = 0;
    self->foreign               = false;
    self->pc                    = nullptr;
}
void pointHere(const char* what, void* obj) {
    pointHere(what, (uint64_t)obj, 0);
}

void blockUntil(const char* what, void* obj, std::function<bool()> ready) {
    self->what    = what;
    self->blocked = true;
    self->ready   = std::move(ready);
    schedule();
    self->blocked = false;
}

template <class F>
F real(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

struct Real {
    int (*mutex_lock)(pthread_mutex_t*);
    int (*mutex_trylock)(pthread_mutex_t*);
    int (*mutex_unlock)(pthread_mutex_t*);
    int (*cond_wait)(pthread_cond_t*, pthread_mutex_t*);
    int (*cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
    int (*cond_clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
    int (*cond_signal)(pthread_cond_t*);
    int (*cond_broadcast)(pthread_cond_t*);
    int (*create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    int (*join)(pthread_t, void**);
    int (*once)(pthread_once_t*, void (*)());
    int (*rdlock)(pthread_rwlock_t*);
    int (*wrlock)(pthread_rwlock_t*);
    int (*tryrdlock)(pthread_rwlock_t*);
    int (*trywrlock)(pthread_rwlock_t*);
    int (*rwunlock)(pthread_rwlock_t*);
    int (*guard_acquire)(uint64_t*);
    void (*guard_release)(uint64_t*);
    void (*guard_abort)(uint64_t*);
    int (*usleep_)(useconds_t);
    int (*nanosleep_)(const timespec*, timespec*);
    int (*clock_nanosleep_)(clockid_t, int, const timespec*, timespec*);
    int (*yield)();
};
Real R;
std::atomic<int> inited{0};
void init() {
    if (inited.load() == 2) {
        return;
    }
    // (single-threaded: called from the first of these functions to be used)
    R.mutex_lock     = real<decltype(R.mutex_lock)>("pthread_mutex_lock");
    R.mutex_trylock  = real<decltype(R.mutex_trylock)>("pthread_mutex_trylock");
    R.mutex_unlock   = real<decltype(R.mutex_unlock)>("pthread_mutex_unlock");
    R.cond_wait      = (decltype(R.cond_wait))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    R.cond_timedwait = (decltype(R.cond_timedwait))dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    R.cond_clockwait = real<decltype(R.cond_clockwait)>("pthread_cond_clockwait");
    R.cond_signal    = (decltype(R.cond_signal))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    R.cond_broadcast = (decltype(R.cond_broadcast))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    R.create         = real<decltype(R.create)>("pthread_create");
    R.join           = real<decltype(R.join)>("pthread_join");
    R.once           = real<decltype(R.once)>("pthread_once");
    R.rdlock         = real<decltype(R.rdlock)>("pthread_rwlock_rdlock");
    R.wrlock         = real<decltype(R.wrlock)>("pthread_rwlock_wrlock");
    R.tryrdlock      = real<decltype(R.tryrdlock)>("pthread_rwlock_tryrdlock");
    R.trywrlock      = real<decltype(R.trywrlock)>("pthread_rwlock_trywrlock");
    R.rwunlock       = real<decltype(R.rwunlock)>("pthread_rwlock_unlock");
    R.guard_acquire  = real<decltype(R.guard_acquire)>("__cxa_guard_acquire");
    R.guard_release  = real<decltype(R.guard_release)>("__cxa_guard_release");
    R.guard_abort    = real<decltype(R.guard_abort)>("__cxa_guard_abort");
    R.usleep_        = real<decltype(R.usleep_)>("usleep");
    R.nanosleep_     = real<decltype(R.nanosleep_)>("nanosleep");
    R.clock_nanosleep_ = real<decltype(R.clock_nanosleep_)>("clock_nanosleep");
    R.yield          = real<decltype(R.yield)>("sched_yield");
    inited.store(2);
}
struct Init {
    Init() { init(); }
} initNow;

bool isFree(pthread_mutex_t* m) {
    return m->__data.__lock == 0;
}

void lockControlled(pthread_mutex_t* m, const char* what) {
    for (;;) {
        int rc = R.mutex_trylock(m);
        if (rc != EBUSY) {
            acquired(m);
            return;
        }
        blockUntil(what, m, [m] { return isFree(m); });
    }
}

void waitCond(pthread_cond_t* c, pthread_mutex_t* m, bool timed, bool& timedOut) {
    {
        NoPoints np;
        (*waiting)[c].push_back(self);
    }
    T* me         = self;
    me->signalled = false;
    me->timed     = timed;
    me->timedOut  = false;
    R.mutex_unlock(m);
    released(m);
    blockUntil(timed ? "timedwait" : "wait", c, [me] { return me->signalled; });
    timedOut     = me->timedOut && !me->signalled;
    me->timed    = false;
    me->timedOut = false;
    trace(timedOut ? "timedout" : "woken", c);
    {
        NoPoints np;
        auto& w = (*waiting)[c];
        w.erase(std::remove(w.begin(), w.end(), me), w.end());
    }
    lockControlled(m, "relock");
}

void napControlled(const char* what) {
    // others first; time passes only when nobody else can go on
    T* me         = self;
    me->signalled = false;
    me->timed     = true;
    me->timedOut  = false;
    blockUntil(what, nullptr, [me] { return false; });
    me->timed    = false;
    me->timedOut = false;
}

struct Start {
    void* (*fn)(void*);
    void* arg;
    T* t;
};
void* starter(void* p) {
    Start s = *(Start*)p;
    delete (Start*)p;
    self = s.t;
    sleepUntilGo();
    if (hooks) {
        hooks->began();
    }
    trace("start", nullptr);
    void* r = s.fn(s.arg);
    trace("end", nullptr);
    T* me    = self;
    me->done = true;
    schedule();
    self = nullptr;
    return r;
}

shim::Action fileHook(shim::Event& e) {
    if (controlled() && opt.filePoints) {
        NoPoints np;
        std::string path = e.path, other = e.path2 ? e.path2 : "";
        auto id          = [](const std::string& p) { return std::hash<std::string>()(p) | 1; };
        auto dir         = [](const std::string& p) { return p.substr(0, p.rfind('/')); };
        bool entries     = e.op == shim::UNLINK || e.op == shim::RMDIR || e.op == shim::MKDIR || e.op == shim::RENAME || e.op == shim::LINK ||
                       e.op == shim::CREATE || (e.op == shim::OPEN && (e.flags & O_CREAT));
        // (a link or renaming: the destination is what others look at)
        self->foreign = false;
        uint64_t a = id(other.empty() ? path : other), b = entries ? id(dir(other.empty() ? path : other)) : 0;
        --off;
        pointHere(shim::opName(e.op), a, b);
        ++off;
    }
    return {};
}

}  // namespace

bool underControl() {
    return controlled();
}
int current() {
    return self ? self->id : -1;
}
int alive() {
    int n = 0;
    for (int i = 0; i < nt; ++i) {
        n += !all[i]->done;
    }
    return n;
}
void enter() {
    ++off;
}
void leave() {
    --off;
}
void memoryFault(const char* what) {
    snprintf(S->fault, sizeof S->fault, "%s", what);
    ::syscall(SYS_exit_group, 98);
}
void setHooks(Hooks* h) {
    hooks = h;
}
const Options& options() {
    return opt;
}
void place(void* pc) {
    if (S->nplaces < MAXPLACES) {
        S->places[S->nplaces++] = pc;
    }
}

void point(const char* what, void* obj, void* pc) {
    if (controlled()) {
        self->pc = pc;
        pointHere(what, obj);
    }
}

std::vector<int> choices(const Outcome& o, size_t upTo) {
    std::vector<int> c;
    for (size_t i = 0; i < upTo && i < o.decisions.size(); ++i) {
        c.push_back(o.decisions[i].chosen);
    }
    return c;
}

std::string str(const std::vector<int>& c) {
    std::ostringstream o;
    int zeros = 0;
    for (int x : c) {
        if (x == 0) {
            ++zeros;
            continue;
        }
        o << (o.str().empty() ? "" : " ") << zeros << "*0 " << x;
        zeros = 0;
    }
    return o.str().empty() ? "default" : o.str();
}

Outcome run(const std::function<std::string()>& fn, const std::vector<int>& prefix, const Options& o) {
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        S     = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    S->deadlock = S->truncated = 0;
    S->points                  = 0;
    S->ndec = S->ntrace = 0;
    S->trace[0] = S->blocked[0] = S->fault[0] = 0;
    S->nplaces  = 0;
    memset(S->touches, 0, sizeof S->touches);
    Outcome r;
    r.child = mc::runChild(
        [&]() {
            opt        = o;
            prefix_    = prefix;
            waiting    = new std::map<pthread_cond_t*, std::vector<T*>>;
            inProgress = new std::set<void*>;
            self       = new T;
            self->id   = 0;
            all[nt++]  = self;
            if (o.filePoints) {
                shim::hook = fileHook;
            }
            if (hooks) {
                hooks->start();
            }
            if (o.classify) {
                findOwn();
            }
            active = true;
            std::string out;
            out = fn();
            if (hooks) {
                hooks->stop();
            }
            active     = false;
            shim::hook = nullptr;
            return out;
        },
        o.timeout);
    r.deadlock  = S->deadlock;
    r.truncated = S->truncated;
    r.points    = S->points;
    for (int i = 0; i < S->ndec; ++i) {
        auto& d     = S->dec[i];
        bool shared = !d.obj[0] && !d.obj[1];
        for (auto o : d.obj) {
            shared = shared || (o && touchedByOthers(o));
        }
        r.decisions.push_back({d.options, d.chosen, (bool)d.current, shared, (bool)d.foreign, d.obj[0], d.thread, d.what ? d.what : "", d.pc});
    }
    r.trace.assign(S->trace, S->ntrace);
    r.blocked = S->blocked;
    r.fault   = S->fault;
    r.places.assign(S->places, S->places + S->nplaces);
    return r;
}

Explored explore(const std::function<std::string()>& fn, const std::vector<int>& prefix, int bound, int freeBound, const Options& o,
                 const std::function<bool(const Outcome&)>& judge, long maxRuns) {
    Explored x;
    std::deque<std::vector<int>> stack = {prefix};  // (fewest deviations first)
    while (!stack.empty()) {
        if (x.runs >= maxRuns) {
            x.stopped = true;
            break;
        }
        auto p = std::move(stack.front());
        stack.pop_front();
        auto r = run(fn, p, o);
        x.runs++;
        x.decisions += r.decisions.size();
        x.points += r.points;
        x.longest = std::max<long>(x.longest, r.decisions.size());
        if (!judge(r)) {
            x.stopped = true;
            break;
        }
        int preemptions = 0, free = 0;
        for (size_t i = 0; i < r.decisions.size(); ++i) {
            auto& d = r.decisions[i];
            if (i >= p.size()) {
                for (int alt = d.options - 1; alt >= 1; --alt) {
                    if (d.current ? preemptions + 1 <= bound : free + 1 <= freeBound) {
                        auto q = choices(r, i);
                        q.push_back(alt);
                        stack.push_back(std::move(q));
                    }
                }
            }
            if (d.chosen) {
                (d.current ? preemptions : free)++;
            }
        }
    }
    return x;
}

}  // namespace threads

//----------------------------------------------------------------------------------------------------------- interposed

using namespace threads;

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!controlled()) {
        init();
        return R.mutex_lock(m);
    }
    self->foreign = isForeign(__builtin_return_address(0), m);
        pointHere("lock", m);
    for (;;) {
        int rc = R.mutex_trylock(m);
        if (rc != EBUSY) {
            acquired(m);
            return rc;
        }
        if (m->__data.__owner == (int)::syscall(SYS_gettid) && m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK_NP) {
            return EDEADLK;
        }
        blockUntil("lock", m, [m] { return isFree(m); });
    }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    init();
    if (controlled()) {
        self->foreign = isForeign(__builtin_return_address(0), m);
        pointHere("trylock", m);
    }
    int rc = R.mutex_trylock(m);
    if (rc == 0 && controlled()) {
        acquired(m);
    }
    return rc;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
    return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    init();
    int rc = R.mutex_unlock(m);
    if (controlled()) {
        released(m);
    }
    if (controlled() && opt.unlockPoints) {
        self->foreign = isForeign(__builtin_return_address(0), m);
        pointHere("unlock", m);
    }
    return rc;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    init();
    if (!controlled()) {
        return R.cond_wait(c, m);
    }
    bool timedOut;
    waitCond(c, m, false, timedOut);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    init();
    if (!controlled()) {
        return R.cond_timedwait(c, m, t);
    }
    bool timedOut;
    waitCond(c, m, true, timedOut);
    return timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    init();
    if (!controlled()) {
        return R.cond_clockwait(c, m, k, t);
    }
    bool timedOut;
    waitCond(c, m, true, timedOut);
    return timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    init();
    if (!controlled()) {
        return R.cond_signal(c);
    }
    NoPoints np;
    auto& w = (*waiting)[c];
    for (auto* t : w) {
        if (!t->signalled) {
            t->signalled = true;
            break;
        }
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    init();
    if (!controlled()) {
        return R.cond_broadcast(c);
    }
    NoPoints np;
    for (auto* t : (*waiting)[c]) {
        t->signalled = true;
    }
    return 0;
}

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    init();
    if (!controlled()) {
        return R.create(h, a, fn, arg);
    }
    T* t;
    {
        NoPoints np;
        t     = new T;
        t->id = nt;
        if (nt >= MAXT) {
            return EAGAIN;
        }
    }
    int rc = R.create(h, a, starter, new Start{fn, arg, t});
    if (rc) {
        return rc;
    }
    t->handle = *h;
    all[nt++] = t;
    if (hooks) {
        hooks->created(self->id, t->id);
    }
    pointHere("create", nullptr);
    return 0;
}
int pthread_join(pthread_t h, void** r) {
    init();
    if (controlled()) {
        for (int i = nt - 1; i >= 0; --i) {
            T* t = all[i];
            if (pthread_equal(t->handle, h) && t->id) {
                pointHere("join", t);
                if (!t->done) {
                    blockUntil("join", t, [t] { return t->done; });
                }
                t->handle = 0;
                if (hooks) {
                    hooks->joined(self->id, t->id);
                }
                break;
            }
        }
    }
    return R.join(h, r);
}

int pthread_once(pthread_once_t* o, void (*fn)()) {
    init();
    if (!controlled()) {
        return R.once(o, fn);
    }
    if (*o == 2) {
        observes(o);
        return 0;
    }
    self->foreign = isForeign(__builtin_return_address(0), o);
    pointHere("once", o);
    for (;;) {
        if (*o == 2) {
            observes(o);
            return 0;
        }
        if (!inProgress->count(o)) {
            break;
        }
        blockUntil("once", o, [o] { return !inProgress->count(o); });
    }
    {
        NoPoints np;
        inProgress->insert(o);
    }
    try {
        fn();
    }
    catch (...) {
        inProgress->erase(o);
        throw;
    }
    *o = 2;
    publishes(o);
    NoPoints np;
    inProgress->erase(o);
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    init();
    if (!controlled()) {
        return R.rdlock(l);
    }
    self->foreign = isForeign(__builtin_return_address(0), l);
    pointHere("rdlock", l);
    for (;;) {
        int rc = R.tryrdlock(l);
        if (rc != EBUSY) {
            acquired(l);
            return rc;
        }
        long n = rwEvents;
        blockUntil("rdlock", l, [n] { return rwEvents != n; });
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    init();
    if (!controlled()) {
        return R.wrlock(l);
    }
    self->foreign = isForeign(__builtin_return_address(0), l);
    pointHere("wrlock", l);
    for (;;) {
        int rc = R.trywrlock(l);
        if (rc != EBUSY) {
            acquired(l);
            return rc;
        }
        long n = rwEvents;
        blockUntil("wrlock", l, [n] { return rwEvents != n; });
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    init();
    int rc = R.rwunlock(l);
    ++rwEvents;
    if (controlled()) {
        released(l);
    }
    if (controlled() && opt.unlockPoints) {
        self->foreign = isForeign(__builtin_return_address(0), l);
        pointHere("rwunlock", l);
    }
    return rc;
}

int __cxa_guard_acquire(uint64_t* g) {
    init();
    if (!controlled()) {
        return R.guard_acquire(g);
    }
    if (*(char*)g) {
        return 0;
    }
    self->foreign = isForeign(__builtin_return_address(0), g);
    pointHere("static", g);
    for (;;) {
        if (*(char*)g) {
            observes(g);
            return 0;
        }
        if (!inProgress->count(g)) {
            NoPoints np;
            inProgress->insert(g);
            return 1;
        }
        blockUntil("static", g, [g] { return !inProgress->count(g); });
    }
}
void __cxa_guard_release(uint64_t* g) {
    init();
    if (!active || !self || !inProgress->count(g)) {
        return R.guard_release(g);
    }
    publishes(g);
    NoPoints np;
    inProgress->erase(g);
    *(char*)g = 1;
}
void __cxa_guard_abort(uint64_t* g) {
    init();
    if (!active || !self || !inProgress->count(g)) {
        return R.guard_abort(g);
    }
    NoPoints np;
    inProgress->erase(g);
}

int usleep(useconds_t u) {
    init();
    if (controlled()) {
        napControlled("usleep");
        return 0;
    }
    return R.usleep_(u);
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    init();
    if (controlled()) {
        napControlled("nanosleep");
        return 0;
    }
    return R.nanosleep_(a, b);
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
    init();
    if (controlled()) {
        napControlled("nanosleep");
        return 0;
    }
    return R.clock_nanosleep_(k, f, a, b);
}
int sched_yield() {
    init();
    if (controlled()) {
        napControlled("yield");
        return 0;
    }
    return R.yield();
}

}  // extern "C"

// libstdc++'s futures wait on a futex of their own
namespace std {

bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s,
                                                       chrono::nanoseconds ns) {
    if (!controlled()) {
        // as libstdc++ does, but for the time: woken often enough
        struct timespec ts = {0, 1000000};
        ::syscall(SYS_futex, addr, FUTEX_WAIT, val, &ts, nullptr, 0);
        if (has_timeout) {
            auto now = chrono::system_clock::now().time_since_epoch();
            return now < s + ns;
        }
        return true;
    }
    if (has_timeout) {
        napControlled("future");
        return __atomic_load_n(addr, __ATOMIC_ACQUIRE) != val;
    }
    blockUntil("future", addr, [addr, val] { return __atomic_load_n(addr, __ATOMIC_ACQUIRE) != val; });
    observes(addr);
    return true;
}

bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s,
                                                              chrono::nanoseconds ns) {
    if (!controlled() && has_timeout) {
        struct timespec ts = {0, 1000000};
        ::syscall(SYS_futex, addr, FUTEX_WAIT, val, &ts, nullptr, 0);
        auto now = chrono::steady_clock::now().time_since_epoch();
        return now < s + ns;
    }
    return _M_futex_wait_until(addr, val, has_timeout, s, ns);
}

void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
    publishes(addr);
    ::syscall(SYS_futex, addr, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0);
}

}  // namespace std
