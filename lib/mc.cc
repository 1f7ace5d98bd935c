#include "mc.h"

#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

#include "eckit/runtime/Main.h"

namespace mc {

Options opts;

namespace {

const size_t NCOUNTERS = 64;
const size_t NHASH     = 1 << 22;
const size_t NSAMPLES  = 12;
const int MAXWORKERS   = 64;

struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> done;
    std::atomic<uint64_t> distinct;
    std::atomic<uint64_t> evaluations;
    std::atomic<uint64_t> counters[NCOUNTERS];
    char counterNames[NCOUNTERS][40];
    std::atomic<int> ncounters;
    std::atomic<int> lock;
    std::atomic<uint64_t> slotIdx[MAXWORKERS];   // idx+1, or 0
    std::atomic<double> slotStart[MAXWORKERS];
    std::atomic<int> nsamples;
    char samples[NSAMPLES][1600];
    std::atomic<uint64_t> hashes[NHASH];
};
Shared* sh = nullptr;

struct Lock {
    Lock() {
        int z = 0;
        while (!sh->lock.compare_exchange_weak(z, 1)) {
            z = 0;
            usleep(10);
        }
    }
    ~Lock() { sh->lock = 0; }
};

std::string scratch_;
std::string verif_;
double start_;
int violations_ = 0;
int knownHits_  = 0;
uint64_t replayIdx_ = 0;
std::string replaySweep_;
bool truncated_ = false;
std::set<std::string> reported_;
std::vector<std::pair<std::string, std::string>> known_;  // signature, text
std::map<std::string, std::string> sweepInfo_;
pid_t mainPid_ = 0;
int childLog_  = -1;

uint64_t fnv(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h ? h : 1;
}

void cleanup() {
    if (getpid() == mainPid_ && !scratch_.empty() && scratch_.rfind("/dev/shm/fdbmc.", 0) == 0) {
        std::string cmd = "rm -rf -- " + scratch_;
        if (system(cmd.c_str())) {}
    }
}

// say where a child crashed
void onCrash(int s) {
    void* a[40];
    int n = backtrace(a, 40);
    backtrace_symbols_fd(a, n, 2);
    signal(s, SIG_DFL);
    raise(s);
}

void onSignal(int s) {
    cleanup();
    ::syscall(SYS_exit_group, 128 + s);
}

std::atomic<uint64_t>& slot(const char* name) {
    int n = sh->ncounters;
    for (int i = 0; i < n; ++i) {
        if (strcmp(sh->counterNames[i], name) == 0) {
            return sh->counters[i];
        }
    }
    Lock l;
    n = sh->ncounters;
    for (int i = 0; i < n; ++i) {
        if (strcmp(sh->counterNames[i], name) == 0) {
            return sh->counters[i];
        }
    }
    strncpy(sh->counterNames[n], name, 39);
    sh->ncounters = n + 1;
    return sh->counters[n];
}

// Known findings: one JSON object per line, {"property": ..., "signature": ..., "what": ...}; a tiny parser suffices.
std::string field(const std::string& line, const std::string& name) {
    auto p = line.find("\"" + name + "\"");
    if (p == std::string::npos) {
        return "";
    }
    p = line.find(':', p);
    p = line.find('"', p);
    std::string r;
    for (++p; p < line.size() && line[p] != '"'; ++p) {
        if (line[p] == '\\' && p + 1 < line.size()) {
            ++p;
        }
        r += line[p];
    }
    return r;
}

void loadKnown() {
    std::ifstream in(verif_ + "/known_findings.jsonl");
    std::string line;
    while (std::getline(in, line)) {
        if (field(line, "property") == opts.property && field(line, "status") == "known") {
            known_.push_back({field(line, "signature"), field(line, "what")});
        }
    }
}

bool isKnown(const std::string& sig) {
    for (const auto& k : known_) {
        if (k.first == sig) {
            return true;
        }
    }
    return false;
}

void reportUnseenKnown() {
    for (const auto& k : known_) {
        if (!reported_.count(k.first)) {
            printf("KNOWN-FINDING: property=%s %s (%s; not reached in this run)\n", opts.property.c_str(),
                   k.second.c_str(), k.first.c_str());
        }
    }
}

/// 0 new violation, 1 known
int report(const std::string& sweepName, uint64_t idx, const std::string& sig, const std::string& detail,
           const std::string& describe) {
    if (!reported_.insert(sig).second) {
        return 0;
    }
    for (const auto& k : known_) {
        if (k.first == sig) {
            printf("KNOWN-FINDING: property=%s %s (%s)\n", opts.property.c_str(), k.second.c_str(), sig.c_str());
            fflush(stdout);
            ++knownHits_;
            return 1;
        }
    }
    ++violations_;
    mkdir((verif_ + "/replay").c_str(), 0777);
    char name[256];
    snprintf(name, sizeof name, "%s/replay/%s-%s-%llu.txt", verif_.c_str(), opts.property.c_str(), sweepName.c_str(),
             (unsigned long long)idx);
    std::ofstream out(name);
    out << "sweep " << sweepName << "\nindex " << idx << "\ntier " << opts.tier << "\nsignature " << sig
        << "\n\nscenario:\n" << describe << "\n\nwhat happened:\n" << detail << "\n";
    out.close();
    printf("VIOLATION property=%s replay=%s\n", opts.property.c_str(), name);
    printf("  %s: %.700s\n", sig.c_str(), detail.c_str());
    fflush(stdout);
    return 0;
}

}  // namespace

double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

const std::string& scratch() {
    return scratch_;
}

bool overBudget() {
    return now() - start_ > opts.budget;
}

void init(int argc, char** argv, const char* property, double quickBudget, double thoroughBudget) {
    if (!getenv("LD_BIND_NOW")) {
        // resolve all symbols once, rather than in every child
        setenv("LD_BIND_NOW", "1", 1);
        execv("/proc/self/exe", argv);
    }
    start_         = now();
    opts.property  = property;
    if (const char* t = getenv("VERIF_TIER")) {
        opts.tier = t;
    }
    if (const char* s = getenv("VERIF_SEED")) {
        opts.seed = atoi(s);
    }
    const char* v = getenv("VERIF_DIR");
    verif_        = v ? v : "/verif";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc) {
            opts.replay = argv[++i];
        }
        else if (a == "--tier" && i + 1 < argc) {
            opts.tier = argv[++i];
        }
        else if (a == "--jobs" && i + 1 < argc) {
            opts.jobs = atoi(argv[++i]);
        }
        else if (a == "--only" && i + 1 < argc) {
            opts.only = argv[++i];
        }
        else if (a == "--budget" && i + 1 < argc) {
            opts.budget = atof(argv[++i]);
        }
    }
    opts.thorough = opts.tier == "thorough";
    if (opts.budget == 0) {
        opts.budget = opts.thorough ? thoroughBudget : quickBudget;
    }
    if (!opts.replay.empty()) {
        std::ifstream in(opts.replay);
        std::string w, rest;
        in >> w >> replaySweep_ >> w >> replayIdx_ >> w >> opts.tier;
        opts.thorough = opts.tier == "thorough";
        printf("replaying %s #%llu\n", replaySweep_.c_str(), (unsigned long long)replayIdx_);
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    mainPid_ = getpid();
    char tmpl[] = "/dev/shm/fdbmc.XXXXXX";
    scratch_    = mkdtemp(tmpl);
    atexit(cleanup);
    if (chdir(scratch_.c_str())) {}  // some code writes into its current directory
    signal(SIGTERM, onSignal);
    signal(SIGINT, onSignal);
    loadKnown();

    // Nothing of the environment of the caller may change what is explored
    std::vector<std::string> drop;
    for (char** e = environ; *e; ++e) {
        std::string s(*e);
        if (s.rfind("FDB", 0) == 0 || s.rfind("METKIT", 0) == 0 || s.rfind("ECKIT", 0) == 0 || s.rfind("DAOS", 0) == 0) {
            drop.push_back(s.substr(0, s.find('=')));
        }
    }
    for (const auto& s : drop) {
        unsetenv(s.c_str());
    }
    setenv("FDB_HOME", scratch_.c_str(), 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    setenv("TMPDIR", scratch_.c_str(), 1);
    static char* av[] = {(char*)"fdbmc", nullptr};
    eckit::Main::initialise(1, av, "FDB_HOME");
}

//-------------------------------------------------------------------------------------------------------------- children

std::string Child::status() const {
    std::ostringstream s;
    if (ok) {
        s << "ok";
    }
    else if (timeout) {
        s << "hang";
    }
    else if (sig) {
        s << "killed by signal " << sig;
    }
    else if (code == 3) {
        s << "exception: " << out;
    }
    else {
        s << "exit code " << code;
    }
    return s.str();
}

Child runChild(const std::function<std::string()>& fn, int timeoutSeconds) {
    Child c;
    int p[2];
    if (pipe2(p, O_CLOEXEC)) {
        c.code = 99;
        return c;
    }
    int log = memfd_create("log", 0);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        ::close(p[0]);
        dup2(log, 1);
        dup2(log, 2);
        signal(SIGSEGV, onCrash);
        signal(SIGABRT, onCrash);
        int rc = 0;
        std::string r;
        try {
            r = fn();
        }
        catch (std::exception& e) {
            r  = e.what();
            rc = 3;
        }
        size_t off = 0;
        while (off < r.size()) {
            ssize_t w = ::syscall(SYS_write, p[1], r.data() + off, r.size() - off);
            if (w <= 0) {
                break;
            }
            off += w;
        }
        ::syscall(SYS_exit_group, rc);
    }
    ::close(p[1]);
    double deadline = now() + timeoutSeconds;
    for (;;) {
        struct pollfd f = {p[0], POLLIN, 0};
        int r           = poll(&f, 1, (int)std::max(0.0, (deadline - now()) * 1000));
        if (r == 0) {
            c.timeout = true;
            kill(pid, SIGKILL);
            break;
        }
        if (r < 0) {
            continue;
        }
        char buf[65536];
        ssize_t n = ::syscall(SYS_read, p[0], buf, sizeof buf);
        if (n <= 0) {
            break;
        }
        c.out.append(buf, n);
    }
    ::close(p[0]);
    int st = 0;
    // the pipe is closed, but the process may still hang
    for (;;) {
        pid_t w = waitpid(pid, &st, c.timeout ? 0 : WNOHANG);
        if (w == pid) {
            break;
        }
        if (now() > deadline) {
            c.timeout = true;
            kill(pid, SIGKILL);
        }
        else {
            usleep(200);
        }
    }
    if (!c.timeout) {
        if (WIFSIGNALED(st)) {
            c.sig = WTERMSIG(st);
        }
        else {
            c.code = WEXITSTATUS(st);
            c.ok   = c.code == 0;
        }
    }
    off_t sz = lseek(log, 0, SEEK_END);
    if (sz > 0 && (!c.ok)) {
        off_t from = sz > 3000 ? sz - 3000 : 0;
        c.log.resize(sz - from);
        if (pread(log, &c.log[0], sz - from, from) < 0) {}
    }
    ::close(log);
    return c;
}

std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) {
        if (c == sep) {
            r.push_back(cur);
            cur.clear();
        }
        else {
            cur += c;
        }
    }
    if (!cur.empty()) {
        r.push_back(cur);
    }
    return r;
}

//------------------------------------------------------------------------------------------------------------- scenarios

void Ctx::fail(const std::string& signature, const std::string& detail) {
    failed_ = true;
    size_t unlisted = 0;
    for (const auto& f : fails_) {
        if (f.first == signature) {
            return;
        }
        unlisted += !isKnown(f.first);
    }
    if (unlisted < 12 || isKnown(signature)) {
        fails_.push_back({signature, detail});
    }
}
void Ctx::distinct(const std::string& what) {
    uint64_t h = fnv(what);
    size_t i   = h % NHASH;
    for (size_t k = 0; k < 64; ++k, i = (i + 1) % NHASH) {
        uint64_t z = 0;
        if (sh->hashes[i] == h) {
            return;
        }
        if (sh->hashes[i].compare_exchange_strong(z, h)) {
            sh->distinct++;
            return;
        }
        if (z == h) {
            return;
        }
    }
}
void Ctx::count(const char* c, uint64_t n) {
    slot(c) += n;
}
void Ctx::sample(const std::string& t) {
    if (sh->nsamples >= (int)NSAMPLES) {
        return;
    }
    int i = sh->nsamples++;
    if (i < (int)NSAMPLES) {
        strncpy(sh->samples[i], t.c_str(), sizeof(sh->samples[i]) - 1);
    }
}

uint64_t counter(const char* name) {
    return slot(name);
}
void addCounter(const char* name, uint64_t n) {
    slot(name) += n;
}
bool anyViolation() {
    return violations_ > 0;
}
void violation(const std::string& signature, const std::string& detail) {
    report("main", 0, signature, detail, "");
}

namespace {

std::string escape(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '\n') {
            r += "\\n";
        }
        else if (c == '\t') {
            r += "\\t";
        }
        else if (c == '\\') {
            r += "\\\\";
        }
        else if (c == 0) {
            r += "\\0";
        }
        else {
            r += c;
        }
    }
    return r;
}
std::string unescape(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\\' && i + 1 < s.size()) {
            ++i;
            r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i] == '0' ? '0' : s[i];
        }
        else {
            r += s[i];
        }
    }
    return r;
}

void runOne(const std::string& name, uint64_t idx, int worker, const Scenario& fn, int resultFd, const char* tag) {
    Ctx c;
    c.idx    = idx;
    c.worker = worker;
    char d[300];
    snprintf(d, sizeof d, "%s/%s%s-%llu", scratch_.c_str(), name.c_str(), tag, (unsigned long long)idx);
    c.dir = d;
    mkdir(d, 0777);
    try {
        fn(c);
    }
    catch (std::exception& e) {
        c.fail("exception", std::string("the scenario ended with an exception: ") + e.what());
    }
    if (std::string(d).rfind("/dev/shm/fdbmc.", 0) == 0 && !getenv("VERIF_KEEP")) {
        std::error_code ec;
        std::filesystem::remove_all(d, ec);
    }
    static std::map<std::string, int> written;  // by this worker
    for (const auto& f : c.fails_) {
        if (isKnown(f.first) ? written[f.first]++ >= 2 : written[f.first]++ >= 50) {
            continue;
        }
        std::ostringstream s;
        s << idx << "\t" << escape(f.first) << "\t" << escape(f.second) << "\t" << escape(c.describe) << "\n";
        std::string t = s.str();
        if (::write(resultFd, t.data(), t.size()) < 0) {}
    }
}

struct Fail {
    uint64_t idx;
    std::string sig, detail, describe;
};

std::vector<Fail> readFails(const std::string& file) {
    std::vector<Fail> r;
    std::ifstream in(file);
    std::string line;
    while (std::getline(in, line)) {
        auto f = split(line, '\t');
        if (f.size() < 3) {
            continue;
        }
        f.resize(4);
        r.push_back({(uint64_t)strtoull(f[0].c_str(), nullptr, 10), unescape(f[1]), unescape(f[2]), unescape(f[3])});
    }
    return r;
}

/// Run one scenario alone in a new process, and return its failures
std::vector<Fail> runAlone(const std::string& name, uint64_t idx, const Scenario& fn, int timeout) {
    static int serial = 0;
    char tag[32];
    snprintf(tag, sizeof tag, "r%d", ++serial);
    std::string file = scratch_ + "/alone" + tag;
    int fd           = ::open(file.c_str(), O_CREAT | O_RDWR | O_APPEND, 0666);
    auto c           = runChild(
        [&]() {
            runOne(name, idx, 0, fn, fd, tag);
            return std::string("done");
        },
        timeout);
    ::close(fd);
    auto r = readFails(file);
    if (!c.ok) {
        std::string sig = c.timeout ? "hang" : c.sig ? "crash" : "abnormal exit";
        r.push_back({idx, sig, "the scenario's process ended with: " + c.status() + "\n" + c.log, ""});
    }
    return r;
}

}  // namespace

uint64_t sweep(const std::string& name, uint64_t n, const Scenario& fn, int timeoutSeconds) {
    if (!opts.only.empty() && opts.only != name) {
        return 0;
    }
    if (!opts.replay.empty()) {
        if (name != replaySweep_) {
            return 0;
        }
        for (auto& f : runAlone(name, replayIdx_, fn, timeoutSeconds)) {
            report(name, f.idx, f.sig, f.detail, f.describe);
        }
        return 1;
    }

    double t0 = now();
    sh->next  = 0;
    sh->done  = 0;
    int jobs  = (int)std::min<uint64_t>(std::min(opts.jobs, MAXWORKERS), n);
    std::string file = scratch_ + "/fails-" + name;
    int fd           = ::open(file.c_str(), O_CREAT | O_RDWR | O_APPEND, 0666);
    std::map<pid_t, int> workers;
    std::vector<Fail> crashes;
    bool stopping = false;

    auto spawn = [&](int w) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            int log = ::open((scratch_ + "/log" + std::to_string(w)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0666);
            dup2(log, 1);
            dup2(log, 2);
            for (;;) {
                uint64_t i = sh->next++;
                if (i >= n || overBudget()) {
                    break;
                }
                sh->slotStart[w] = now();
                sh->slotIdx[w]   = i + 1;
                runOne(name, i, w, fn, fd, "");
                sh->slotIdx[w] = 0;
                sh->done++;
                sh->evaluations++;
                if ((i & 63) == 0 && ftruncate(log, 0) == 0) {
                    lseek(log, 0, SEEK_SET);
                }
            }
            ::syscall(SYS_exit_group, 0);
        }
        workers[p] = w;
    };
    for (int w = 0; w < jobs; ++w) {
        sh->slotIdx[w] = 0;
        spawn(w);
    }
    while (!workers.empty()) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0 && workers.count(p)) {
            int w = workers[p];
            workers.erase(p);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                uint64_t i = sh->slotIdx[w];
                if (i) {
                    crashes.push_back({i - 1, "crash", "", ""});
                }
                sh->slotIdx[w] = 0;
                if (crashes.size() < 40 && !stopping) {
                    spawn(w);
                }
            }
            continue;
        }
        for (auto& kv : workers) {
            if (sh->slotIdx[kv.second] && now() - sh->slotStart[kv.second] > timeoutSeconds) {
                kill(-kv.first, SIGKILL);
                kill(kv.first, SIGKILL);
            }
        }
        // enough is known once many scenarios have failed
        struct stat ss;
        if (!stopping && fstat(fd, &ss) == 0 && ss.st_size > 400000) {
            stopping = true;
            sh->next = n;
        }
        usleep(2000);
    }
    ::close(fd);
    uint64_t done = sh->done;
    if (done < n) {
        truncated_ = true;
    }
    char info[200];
    snprintf(info, sizeof info, "{\"scenarios\": %llu, \"explored\": %llu, \"wall_s\": %.1f}", (unsigned long long)n,
             (unsigned long long)done, now() - t0);
    sweepInfo_[name] = info;
    printf("%s: sweep %s: %llu of %llu scenarios in %.1f s\n", opts.property.c_str(), name.c_str(),
           (unsigned long long)done, (unsigned long long)n, now() - t0);
    fflush(stdout);

    // Confirm each kind of failure by running it again, alone
    auto fails = readFails(file);
    for (auto& c : crashes) {
        fails.push_back(c);
    }
    std::map<std::string, int> tried;
    int notes = 0;
    for (auto& f : fails) {
        if (reported_.count(f.sig) && f.sig != "crash") {
            continue;
        }
        if (tried[f.sig]++ >= 4) {
            continue;
        }
        for (int k = 0; k < 3; ++k) {
            auto again = runAlone(name, f.idx, fn, timeoutSeconds);
            bool same  = false;
            for (auto& a : again) {
                if (f.sig == a.sig || f.sig == "crash") {
                    report(name, f.idx, a.sig, a.detail, a.describe);
                    same = true;
                }
            }
            if (same) {
                break;
            }
            if (k == 2 && ++notes > 6) {
                addCounter("unconfirmed", 1);
            }
            else if (k == 2) {
                printf("%s: note: %s #%llu did not fail again when run alone (%s): %.600s\n", opts.property.c_str(),
                       name.c_str(), (unsigned long long)f.idx, f.sig.c_str(), f.detail.c_str());
                addCounter("unconfirmed", 1);
            }
        }
    }
    return done;
}

//--------------------------------------------------------------------------------------------------------------- choices

int Chooser::choose(int n) {
    if (pos_ < seq_.size()) {
        if (width_.size() <= pos_) {
            width_.resize(pos_ + 1);
        }
        width_[pos_] = n;
        return seq_[pos_++];
    }
    seq_.push_back(0);
    width_.push_back(n);
    ++pos_;
    return 0;
}

bool Chooser::next() {
    seq_.resize(std::min(pos_, seq_.size()));
    width_.resize(seq_.size());
    while (seq_.size() > fixed_) {
        if (seq_.back() + 1 < width_.back()) {
            ++seq_.back();
            pos_ = 0;
            return true;
        }
        seq_.pop_back();
        width_.pop_back();
    }
    pos_ = 0;
    return false;
}

std::string Chooser::str() const {
    std::string s;
    for (int i : seq_) {
        s += (s.empty() ? "" : ",") + std::to_string(i);
    }
    return s;
}

//-------------------------------------------------------------------------------------------------------------- evidence

std::string jsonString(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else {
            r += c;
        }
    }
    return r + "\"";
}

int finish(const Evidence& e) {
    double wall = now() - start_;
    if (opts.replay.empty() && opts.only.empty()) {
        reportUnseenKnown();
    }
    if (opts.replay.empty() && opts.only.empty()) {
        std::ostringstream s;
        s << "{\n \"property\": \"" << opts.property << "\",\n \"tier\": \"" << opts.tier << "\",\n \"seed\": " << opts.seed
          << ",\n \"level\": \"" << e.level << "\",\n \"coverage\": {\n  \"evaluations\": " << sh->evaluations
          << ",\n  \"distinct_nontrivial\": " << sh->distinct << ",\n  \"rule\": " << jsonString(e.rule)
          << ",\n  \"exhaustive\": " << (truncated_ ? "false" : "true") << ",\n  \"samples\": [";
        int ns = std::min<int>(sh->nsamples, NSAMPLES);
        for (int i = 0; i < ns; ++i) {
            s << (i ? ",\n    " : "\n    ") << jsonString(sh->samples[i]);
        }
        s << "\n  ],\n  \"sweeps\": {";
        bool first = true;
        for (auto& kv : sweepInfo_) {
            s << (first ? "\n    " : ",\n    ") << jsonString(kv.first) << ": " << kv.second;
            first = false;
        }
        s << "\n  },\n  \"counters\": {";
        for (int i = 0; i < sh->ncounters; ++i) {
            s << (i ? ", " : "") << jsonString(sh->counterNames[i]) << ": " << sh->counters[i];
        }
        s << "}";
        for (auto& kv : e.extra) {
            s << ",\n  " << jsonString(kv.first) << ": " << kv.second;
        }
        s << "\n },\n \"assumptions\": [";
        for (size_t i = 0; i < e.assumptions.size(); ++i) {
            s << (i ? ", " : "") << jsonString(e.assumptions[i]);
        }
        s << "],\n \"known_findings_seen\": " << knownHits_ << ",\n \"violations\": " << violations_
          << ",\n \"wall_s\": " << wall << "\n}\n";
        mkdir((verif_ + "/evidence").c_str(), 0777);
        std::ofstream out(verif_ + "/evidence/" + opts.property + ".json");
        out << s.str();
        out.close();
        if (!out) {
            printf("cannot write evidence\n");
            return 2;
        }
    }
    printf("%s: %llu evaluations, %llu distinct, %d violations, %d known findings, %.1f s%s\n", opts.property.c_str(),
           (unsigned long long)sh->evaluations, (unsigned long long)sh->distinct.load(), violations_, knownHits_, wall,
           truncated_ ? " (time budget used up: not exhaustive)" : "");
    fflush(stdout);
    return violations_ ? 1 : 0;
}

}  // namespace mc
