#include "faults.h"

#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <map>
#include <mutex>
#include <sstream>

#include "fx.h"
#include "mc.h"

namespace faults {

using shim::Action;
using shim::Event;

namespace {
std::mutex& mutex() {
    static std::mutex* m = new std::mutex;
    return *m;
}
Plan plan_;
Which which_;
std::vector<Rec> trace_;
bool struck_ = false;
struct Durable {
    std::string content;
    bool dirty = false;
    int order  = 0;
};
std::map<std::string, Durable> durable_;
int dirtyOrder_ = 0;

bool counts(const Event& e) {
    switch (e.op) {
        case shim::CREATE:
        case shim::WRITE:
        case shim::SYNC:
        case shim::TRUNC:
        case shim::RENAME:
        case shim::UNLINK:
        case shim::RMDIR:
        case shim::MKDIR:
        case shim::LINK:
            return true;
        case shim::STAT:
        case shim::SEEK:
        case shim::CLOSE:
        case shim::LOCK:
            return which_ == ALL;
        default:
            return which_ != MUTATING;
    }
}

void loseUnsynced() {
    if (!plan_.lose) {
        return;
    }
    for (auto& kv : durable_) {
        if (kv.second.dirty && (plan_.lose == -1 || plan_.lose == kv.second.order)) {
            int fd = ::open(kv.first.c_str(), O_WRONLY);
            if (fd >= 0) {
                if (::ftruncate(fd, 0) || ::pwrite(fd, kv.second.content.data(), kv.second.content.size(), 0) < 0) {}
                ::close(fd);
            }
        }
    }
}

Action before(Event& e) {
    if (!counts(e)) {
        return {};
    }
    std::lock_guard<std::mutex> l(mutex());
    long i = (long)trace_.size();
    trace_.push_back({e.op, e.path, e.len, e.flags});
    if (struck_ && plan_.kind == Plan::FAIL && plan_.sticky) {
        const Rec& r = trace_[plan_.at];
        if (r.op == e.op && r.path == e.path) {
            Action a;
            a.kind = Action::FAIL;
            a.err  = plan_.err;
            return a;
        }
    }
    if (i == plan_.at && plan_.kind != Plan::NONE) {
        struck_          = true;
        shared()->struck = 1;
        Action a;
        switch (plan_.kind) {
            case Plan::CRASH:
                loseUnsynced();
                a.kind = Action::KILL;
                return a;
            case Plan::TORN:
                // the torn part of the write is lost with the rest, if data is lost
                loseUnsynced();
                a.kind = Action::KILL_AFTER;
                a.len  = plan_.len;
                return a;
            case Plan::FAIL:
                a.kind = Action::FAIL;
                a.err  = plan_.err;
                return a;
            case Plan::SHORT:
                a.kind = Action::SHORT;
                a.len  = plan_.len;
                return a;
            default:
                break;
        }
    }
    return {};
}

void after(Event& e, long result, int) {
    if (result < 0 || !plan_.lose) {
        return;
    }
    std::lock_guard<std::mutex> l(mutex());
    switch (e.op) {
        case shim::CREATE:
            durable_[e.path];  // if new: durable as an empty file
            break;
        case shim::WRITE:
        case shim::TRUNC: {
            Durable& d = durable_[e.path];
            if (!d.dirty) {
                d.dirty = true;
                d.order = ++dirtyOrder_;
            }
            break;
        }
        case shim::SYNC: {
            Durable& d = durable_[e.path];
            d.content  = fx::readFile(e.path);
            d.dirty    = false;
            break;
        }
        case shim::RENAME:
            if (durable_.count(e.path)) {
                durable_[e.path2] = durable_[e.path];
                durable_.erase(e.path);
            }
            break;
        case shim::LINK:
            if (durable_.count(e.path)) {
                durable_[e.path2] = durable_[e.path];
            }
            break;
        case shim::UNLINK:
            durable_.erase(e.path);
            break;
        default:
            break;
    }
}
}  // namespace

std::string Plan::str() const {
    std::ostringstream s;
    static const char* n[] = {"no fault", "crash before", "torn write at", "failure of", "short transfer at"};
    s << n[kind] << " operation " << at;
    if (kind == TORN || kind == SHORT) {
        s << " after " << len << " bytes";
    }
    if (kind == FAIL) {
        s << " with " << strerror(err) << (sticky ? " from then on" : "");
    }
    if (lose) {
        s << (lose == -1 ? ", all unsynchronised data lost" : ", unsynchronised data of file #" + std::to_string(lose) + " lost");
    }
    return s.str();
}

std::string Rec::str() const {
    return std::string(shim::opName(op)) + " " + path + (len ? " (" + std::to_string(len) + ")" : "");
}

void arm(const std::string& root, const Plan& plan, Which which) {
    plan_   = plan;
    which_  = which;
    struck_ = false;
    trace_.clear();
    durable_.clear();
    dirtyOrder_ = 0;
    if (plan.lose) {
        for (const auto& kv : fx::contents(root)) {
            if (kv.first.back() != '/') {
                durable_[root + "/" + kv.first].content = kv.second;
            }
        }
    }
    shim::track(root);
    shim::post = plan.lose ? after : nullptr;
    shim::hook = before;
}

void disarm() {
    shim::hook = nullptr;
    shim::post = nullptr;
}

std::vector<Rec> trace() {
    std::lock_guard<std::mutex> l(mutex());
    return trace_;
}
long counted() {
    std::lock_guard<std::mutex> l(mutex());
    return (long)trace_.size();
}
bool struck() {
    return struck_;
}

std::string encode(const std::vector<Rec>& t) {
    std::ostringstream s;
    for (auto& r : t) {
        s << r.op << " " << r.len << " " << r.flags << " " << r.path << "\n";
    }
    return s.str();
}
std::vector<Rec> decode(const std::string& str) {
    std::vector<Rec> v;
    std::istringstream in(str);
    Rec r;
    while (in >> r.op >> r.len >> r.flags >> r.path) {
        v.push_back(r);
    }
    return v;
}

static Progress* shared_ = nullptr;
Progress* fresh() {
    // a new page, so that it is shared with this process's children only
    if (shared_) {
        munmap(shared_, sizeof(Progress));
    }
    return shared_ = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
Progress* shared() {
    return shared_ ? shared_ : fresh();
}

}  // namespace faults
