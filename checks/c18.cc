// C18: a broken connection is reported, and never becomes wrong or silent data.
//
// A client's operation is carried out through real servers with one of its connections cut at one point: before or
// within each of its reads and writes of the connection's socket, in either direction or both, or with a server dying
// there. The operation must end, with an error or its complete result; then the same client, another one and the
// stored data are looked at.
#include <fcntl.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <filesystem>
#include <mutex>
#include <sstream>

#include <map>
#include <mutex>
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private

#include "eckit/io/DataHandle.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fx.h"
#include "mc.h"
#include "servers.h"
#include "shim.h"
#include "world.h"

using namespace fx;

namespace {

enum Kind { CUT, HALF, KILL_CAT, KILL_STORE };
const char* kinds[] = {"connection cut", "direction to the server cut", "catalogue server dies", "store server dies"};

struct Point {
    int conn   = -1;  ///< in the order in which they are made
    int dir    = 0;   ///< 1: writes
    int call   = 0;   ///< number of the read or write
    bool within = false;
    std::string str() const {
        return "connection " + std::to_string(conn) + (dir ? " write " : " read ") + std::to_string(call) + (within ? " (within)" : "");
    }
};

struct Cutter : shim::Sockets {
    std::mutex m;
    std::map<int, int> conns;  ///< fd -> connection
    int made = 0;
    std::map<std::pair<int, int>, std::vector<size_t>> calls;  ///< (connection, direction) -> lengths
    Point at;
    Kind kind = CUT;
    pid_t cat = 0, store = 0;
    std::atomic<bool> done{false};
    std::atomic<bool> armed{false};

    void connected(int fd) override {
        std::lock_guard<std::mutex> l(m);
        conns[fd] = made++;
    }
    void closed(int fd) override {
        std::lock_guard<std::mutex> l(m);
        conns.erase(fd);
    }
    void strike(int fd) {
        done = true;
        switch (kind) {
            case CUT:
                ::shutdown(fd, SHUT_RDWR);
                break;
            case HALF:
                ::shutdown(fd, SHUT_WR);
                break;
            case KILL_CAT:
                ::kill(-cat, SIGKILL);
                break;
            case KILL_STORE:
                ::kill(-store, SIGKILL);
                break;
        }
    }
    bool io(int fd, bool write, char* buf, size_t len, long& r, int& err) override {
        bool here = false;
        {
            std::lock_guard<std::mutex> l(m);
            auto c = conns.find(fd);
            if (c == conns.end()) {
                return false;
            }
            auto& v = calls[{c->second, (int)write}];
            v.push_back(len);
            here = armed && !done && at.conn == c->second && at.dir == (int)write && at.call == (int)v.size() - 1;
            if (here) {
                done = true;
            }
        }
        if (!here) {
            return false;
        }
        if (at.within && len > 1) {
            size_t n = len / 2, got = 0;
            while (got < n) {
                long k = ::syscall(write ? SYS_write : SYS_read, fd, buf + got, n - got);
                if (k <= 0) {
                    break;
                }
                got += k;
            }
            strike(fd);
            r = got;
            if (!got) {
                return false;
            }
            return true;  // (the caller asks for the rest)
        }
        strike(fd);
        return false;
    }
};
Cutter cutter;

enum Op { LIST, LISTDATA, RETRIEVE, AXES, INSPECT, STATS, ARCHIVE, REPLACE, TWOFLUSHES, DRY, WIPE, ENTANGLED, NOPS };
const char* opNames[] = {"list",  "list and read",   "retrieve", "axes",     "inspect", "statistics",
                         "archive", "replace", "archive and flush twice", "wipe (dry)", "wipe", "list while archiving"};

const Universe& U() {
    return Universe::plain();
}
const char* before = "A0 A1 A2 A3 F A4 A0 F C";

/// Carry out the operation; the result in words. Flushes that succeeded are noted in `flushed`.
std::string operate(fdb5::FDB& f, Op op, std::vector<std::pair<int, int>>& flushed) {
    auto all   = tool({});
    auto elems = [&](Mode m, bool data) {
        std::vector<std::string> v;
        for (auto& e : list(f, {}, m, 3, data)) {
            if (e.bytes.compare(0, 10, "unreadable") == 0) {
                throw std::runtime_error(e.bytes);
            }
            v.push_back(e.key + "#" + std::to_string(e.length) + e.bytes);
        }
        std::sort(v.begin(), v.end());
        return join(v, " ");
    };
    auto put = [&](std::vector<int> fields, int version) {
        for (int i : fields) {
            auto p = payload(i, version);
            f.archive(key(U().all(i)), p.data(), p.size());
        }
        f.flush();
        for (int i : fields) {
            flushed.push_back({i, version});
        }
    };
    switch (op) {
        case LIST:
            return elems(Full, false);
        case LISTDATA:
            return elems(Dedup, true);
        case RETRIEVE: {
            std::unique_ptr<eckit::DataHandle> h(f.retrieve(mars(parseReq("class=od,expver=1,type=an,step=0/6,param=t/u"))));
            auto v = mc::split(identify(slurp(*h)), '+');
            std::sort(v.begin(), v.end());
            return join(v, "+");
        }
        case AXES: {
            auto a = f.axes(all, 3);
            std::string out;
            for (auto& kv : a.map()) {
                std::vector<std::string> v(kv.second.begin(), kv.second.end());
                std::sort(v.begin(), v.end());
                out += kv.first + "=" + join(v, "/") + " ";
            }
            return out;
        }
        case INSPECT: {
            auto it = f.inspect(mars(parseReq("class=od,expver=1,type=an,step=0/6,param=t/u")));
            fdb5::ListElement e;
            std::vector<std::string> v;
            while (it.next(e)) {
                v.push_back(e.combinedKey().valuesToString());
            }
            std::sort(v.begin(), v.end());
            return join(v, " ");
        }
        case STATS: {
            auto it = f.stats(all);
            fdb5::StatsElement e;
            std::vector<std::string> v;
            while (it.next(e)) {
                std::ostringstream o;
                e.indexStatistics.report(o);
                v.push_back(o.str());
            }
            std::sort(v.begin(), v.end());
            return join(v, "|");
        }
        case ARCHIVE:
            put({5}, 50);
            return "done";
        case REPLACE:
            put({0, 4}, 51);
            return "done";
        case TWOFLUSHES:
            put({5}, 52);
            put({1, 5}, 53);
            return "done";
        case DRY:
        case WIPE: {
            auto it = f.wipe(tool(reqOf(U().fields[0][0])), op == WIPE, false, false);
            fdb5::WipeElement e;
            std::map<std::string, int> n;
            while (it.next(e)) {
                n[std::to_string(e.type())] += e.uris().size();
            }
            std::string out;
            for (auto& kv : n) {
                out += kv.first + "x" + std::to_string(kv.second) + " ";
            }
            return out;
        }
        case ENTANGLED: {
            auto p = payload(5, 54);
            f.archive(key(U().all(5)), p.data(), p.size());
            auto r = elems(Full, false);
            f.flush();
            flushed.push_back({5, 54});
            return r;
        }
        default:
            return "";
    }
}

struct Layout {
    Cluster c;
};

struct Case {
    Cluster c;
    Op op;
    Kind kind;
    Point p;
    std::string text() const {
        return c.describe() + ": " + opNames[op] + "; " + (p.conn < 0 ? "no fault" : std::string(kinds[kind]) + " at " + p.str());
    }
};

Setup setup(const std::string& dir) {
    Setup s;
    s.dir           = dir;
    s.schema        = U().schema;
    s.separateStore = true;
    return s;
}

/// Archive the initial contents through the servers
mc::Child prepare(const Servers& sv) {
    return mc::runChild([&]() {
        std::vector<std::pair<int, int>> x;
        int v = 0;
        std::unique_ptr<fdb5::FDB> f(new fdb5::FDB(sv.client()));
        for (auto& o : mc::split(before, ' ')) {
            if (o[0] == 'A') {
                auto p = payload(o[1] - '0', ++v);
                f->archive(key(U().all(o[1] - '0')), p.data(), p.size());
            }
            else if (o == "F") {
                f->flush();
            }
        }
        f.reset();
        return std::string();
    });
}

/// Field -> version seen by a new client; anything wrong as an exception
std::map<int, std::string> seen(const Servers& sv) {
    std::map<int, std::string> m;
    fdb5::FDB f(sv.client());
    for (auto& e : list(f, {}, Dedup)) {
        int i = U().find(e.key);
        m[i]  = e.bytes;
        auto r = retrieve(f, U().all(i));
        if (r != e.bytes) {
            m[i] += "(listed) " + r + "(retrieved)";
        }
    }
    return m;
}

std::string hex(const std::string& s) {
    std::string t = s;
    std::replace(t.begin(), t.end(), '\n', ' ');
    std::replace(t.begin(), t.end(), '\t', ' ');
    std::replace(t.begin(), t.end(), '\0', ' ');
    return t;
}

struct Outcome {
    mc::Child child;
    std::string first, second, third;  ///< results of the operation, of reading again, of a new FDB object
    std::vector<std::pair<int, int>> flushed;
    bool struck = false;
    std::map<std::pair<int, int>, std::vector<size_t>> calls;
};

Outcome run(const Servers& sv, const Case& c, int timeout) {
    Outcome o;
    pid_t cat = sv.cataloguePid(), store = sv.storePid(0);
    o.child = mc::runChild(
        [&]() {
            std::vector<std::pair<int, int>> flushed;
            eckit::ResourceMgr::instance().set("fdbMaxConnectRetries", "1");
            cutter.at    = c.p;
            cutter.kind  = c.kind;
            cutter.cat   = cat;
            cutter.store = store;
            cutter.armed = c.p.conn >= 0;
            shim::sockets = &cutter;
            std::string out;
            auto attempt = [&](const std::function<std::string()>& fn) {
                try {
                    out += "ok " + hex(fn()) + "\n";
                }
                catch (std::exception& e) {
                    std::string w = hex(e.what());
                    out += (w.find_first_not_of(' ') == std::string::npos ? "unnamed " : "error ") + w + "\n";
                }
            };
            {
                std::unique_ptr<fdb5::FDB> f;
                attempt([&] {
                    f.reset(new fdb5::FDB(sv.client()));
                    return operate(*f, c.op, flushed);
                });
                bool struck = cutter.done;
                // the same FDB is asked again
                attempt([&] {
                    if (!f) {
                        f.reset(new fdb5::FDB(sv.client()));
                    }
                    std::vector<std::pair<int, int>> x;
                    return operate(*f, LIST, x);
                });
                if (c.op == ARCHIVE || c.op == REPLACE || c.op == TWOFLUSHES || c.op == ENTANGLED) {
                    // ... or to flush again
                    attempt([&] {
                        if (!f) {
                            throw std::runtime_error("no FDB");
                        }
                        f->flush();
                        return std::string("flushed");
                    });
                }
                else {
                    out += "-\n";
                }
                f.reset();
                out += struck ? "struck\n" : "missed\n";
            }
            bool before = cutter.done;
            // another one in the same process
            attempt([&] {
                fdb5::FDB g(sv.client());
                std::vector<std::pair<int, int>> x;
                return operate(g, LIST, x);
            });
            std::string fl;
            for (auto& p : flushed) {
                fl += std::to_string(p.first) + ":" + std::to_string(p.second) + " ";
            }
            out += fl + "\n";
            {
                std::lock_guard<std::mutex> l(cutter.m);
                cutter.armed = false;
            }
            out += before ? "before\n" : cutter.done ? "struck\n" : "missed\n";
            std::lock_guard<std::mutex> l(cutter.m);
            for (auto& kv : cutter.calls) {
                out += std::to_string(kv.first.first) + " " + std::to_string(kv.first.second);
                for (auto n : kv.second) {
                    out += " " + std::to_string(n);
                }
                out += "\n";
            }
            return out;
        },
        timeout);
    return o;
}

/// What the stored state may be after the operation: versions by field ("" none)
std::map<int, std::set<std::string>> allowed(Op op, const std::vector<std::pair<int, int>>& flushed, bool completed) {
    std::map<int, std::set<std::string>> m;
    int v = 0;
    for (auto& o : mc::split(before, ' ')) {
        if (o[0] == 'A') {
            m[o[1] - '0'] = {o.substr(1) + ":" + std::to_string(++v)};
        }
    }
    for (int i = 0; i < (int)U().size(); ++i) {
        if (!m.count(i)) {
            m[i] = {""};
        }
    }
    auto may = [&](std::vector<int> fields, int version) {
        for (int i : fields) {
            m[i].insert(std::to_string(i) + ":" + std::to_string(version));
        }
    };
    switch (op) {
        case ARCHIVE:
            may({5}, 50);
            break;
        case REPLACE:
            may({0, 4}, 51);
            break;
        case TWOFLUSHES:
            may({5}, 52);
            may({1, 5}, 53);
            break;
        case ENTANGLED:
            may({5}, 54);
            break;
        case WIPE:
            for (int i = 0; i < (int)U().size(); ++i) {
                if (U().db(i) == U().db(0)) {
                    if (completed) {
                        m[i].clear();
                    }
                    m[i].insert("");
                }
            }
            break;
        default:
            break;
    }
    for (auto& p : flushed) {
        // what a successful flush promised, or anything later
        std::string done = std::to_string(p.first) + ":" + std::to_string(p.second);
        std::set<std::string> keep;
        for (auto& x : m[p.first]) {
            auto colon = x.find(':');
            if (colon != std::string::npos && atoi(x.c_str() + colon + 1) >= p.second) {
                keep.insert(x);
            }
        }
        keep.insert(done);
        m[p.first] = keep;
    }
    return m;
}

std::string reference[NOPS], referenceList[NOPS];

void runCase(mc::Ctx& ctx, const Case& c) {
    Setup s = setup(ctx.dir);
    s.create();
    ctx.describe = c.text();
    ctx.sample(ctx.describe);
    std::unique_ptr<Servers> sv(new Servers(s, c.c, ctx.worker));
    auto p = prepare(*sv);
    if (!p.ok) {
        ctx.fail("preparation", p.status() + p.out + p.log + sv->logs());
        return;
    }
    auto o     = run(*sv, c, 25);
    auto where = std::string(opNames[c.op]) + ", " + kinds[c.kind];
    if (o.child.timeout) {
        ctx.fail("hang: " + where, c.text() + "\n" + o.child.log + sv->logs());
        return;
    }
    if (!o.child.ok) {
        ctx.fail("process ended: " + where, o.child.status() + " " + o.child.out + "\n" + o.child.log + sv->logs());
        return;
    }
    std::vector<std::string> lines;
    {
        std::istringstream in(o.child.out);
        std::string l;
        while (std::getline(in, l)) {
            lines.push_back(l);
        }
    }
    // lines: operation, list again, flush again, struck, other, flushed
    bool struck = lines[3] == "struck", ever = lines[6] != "missed", during = lines[6] == "struck";
    ctx.count(struck ? "struck" : "missed");
    std::string refs = readFile(mc::scratch() + "/ref-" + std::to_string(c.op));
    auto nl          = refs.find('\n');
    std::string want = refs.substr(0, nl), wantList = refs.substr(nl + 1);
    for (int i : {0, 1, 2, 4}) {
        if (lines[i].compare(0, 7, "unnamed") == 0) {
            ctx.fail("error without a word: " + where, c.text());
            return;
        }
    }
    bool ok = lines[0].compare(0, 3, "ok ") == 0;
    if (ok && c.op != WIPE && lines[0] != want) {
        ctx.fail("wrong result: " + where, "got " + lines[0] + "\nexpected " + want);
        return;
    }
    if (!struck && !ok) {
        ctx.fail("error without a fault: " + where, lines[0]);
        return;
    }
    std::vector<std::pair<int, int>> flushed;
    for (auto& t : mc::split(lines[5], ' ')) {
        int a, b;
        if (sscanf(t.c_str(), "%d:%d", &a, &b) == 2) {
            flushed.push_back({a, b});
        }
    }
    if (lines[2] == "ok flushed") {
        // a flush that succeeds after a failure promises what was archived before... unless the archive itself had failed
        ctx.count("flushes repeated with success");
    }
    // who asks again gets an error or everything
    if (c.op != WIPE) {
        auto al = mc::split(wantList, '\n');
        for (int i : {1, 4}) {
            if (lines[i].compare(0, 3, "ok ") == 0 && std::find(al.begin(), al.end(), lines[i]) == al.end() &&
                (c.op < ARCHIVE || c.op == DRY)) {
                ctx.fail("wrong result afterwards: " + where, "got " + lines[i] + "\nexpected " + wantList);
                return;
            }
        }
    }
    bool killed = c.kind == KILL_CAT || c.kind == KILL_STORE;
    if (!killed || !ever) {
        if (lines[4].compare(0, 3, "ok ") != 0 && !during) {
            ctx.fail("no new connection in the same process: " + where, c.text() + ": " + lines[4] + "\n" + o.child.log + sv->logs());
            return;
        }
        usleep(20000);
        if (!sv->catalogue().alive() || !sv->store(0).alive()) {
            ctx.fail("server ended: " + where, c.text() + "\n" + sv->logs());
            return;
        }
    }
    else {
        // the servers come back
        sv->restart();
    }
    // what another client sees
    auto w = mc::runChild(
        [&]() {
            std::string out;
            for (auto& kv : seen(*sv)) {
                out += std::to_string(kv.first) + " " + kv.second + "\n";
            }
            return out;
        },
        25);
    if (!w.ok) {
        ctx.fail("other clients are not served: " + where, c.text() + "\n" + w.status() + w.out + w.log + sv->logs());
        return;
    }
    std::map<int, std::string> got;
    std::istringstream in(w.out);
    std::string l;
    while (std::getline(in, l)) {
        got[atoi(l.c_str())] = l.substr(l.find(' ') + 1);
    }
    for (auto& kv : allowed(c.op, flushed, ok)) {
        if (!kv.second.count(got.count(kv.first) ? got[kv.first] : "")) {
            ctx.fail("stored data: " + where, c.text() + ": field " + std::to_string(kv.first) + " is [" + got[kv.first] + "], not one of [" +
                                                  joinSet(kv.second, "] [") + "]; the operation: " + lines[0]);
            return;
        }
    }
    // ... and it can archive
    auto z = mc::runChild(
        [&]() {
            std::unique_ptr<fdb5::FDB> f(new fdb5::FDB(sv->client()));
            for (int i : {0, 3}) {
                auto p = payload(i, 90);
                f->archive(key(U().all(i)), p.data(), p.size());
            }
            f->flush();
            f.reset();
            fdb5::FDB g(sv->client());
            return retrieve(g, U().all(0)) + " " + retrieve(g, U().all(3));
        },
        25);
    if (!z.ok || z.out != "0:90 3:90") {
        // (a database left locked by an interrupted wipe says so)
        bool locked = c.op == WIPE && (z.out.find("LOCKED") != std::string::npos || sv->logs().find("is LOCKED") != std::string::npos);
        if (!locked) {
            ctx.fail("other clients cannot archive: " + where, c.text() + "\n" + z.status() + z.out + z.log + sv->logs());
            return;
        }
        ctx.count("left locked by an interrupted wipe");
    }
    if (struck) {
        ctx.distinct(c.text());
    }
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C18", 420, 5400);
    setenv("FDB_WIPE_SECRET", "secret", 1);
    setenv("FDB_MAX_CONNECT", "1", 1);
    Cluster two, one, threads;
    one.single       = true;
    threads.threaded = true;
    std::vector<Cluster> clusters = {two, one, threads};
    bool T = mc::opts.thorough;

    // without a fault: results, and the points
    std::vector<Case> cases;
    for (int op = 0; op < NOPS; ++op) {
        for (size_t k = 0; k < clusters.size(); ++k) {
            Case c{clusters[k], (Op)op, CUT, Point()};
            Setup s = setup(mc::scratch() + "/ref" + std::to_string(op) + "-" + std::to_string(k));
            s.create();
            Servers sv(s, c.c, 0);
            auto p = prepare(sv);
            auto o = run(sv, c, 60);
            if (!p.ok || !o.child.ok) {
                mc::violation("without a fault", c.text() + ": " + p.status() + p.out + o.child.status() + o.child.out + o.child.log + sv.logs());
                continue;
            }
            std::istringstream in(o.child.out);
            std::vector<std::string> lines;
            std::string l;
            while (std::getline(in, l)) {
                lines.push_back(l);
            }
            std::string file = mc::scratch() + "/ref-" + std::to_string(op);
            if (k == 0) {
                writeFile(file, lines[0] + "\n" + lines[1] + "\n" + lines[4]);
            }
            else if (readFile(file) != lines[0] + "\n" + lines[1] + "\n" + lines[4]) {
                mc::violation("layouts differ", c.text() + ": " + lines[0] + " not " + readFile(file));
            }
            for (size_t i = 7; i < lines.size(); ++i) {
                std::istringstream ls(lines[i]);
                int conn, dir;
                ls >> conn >> dir;
                size_t len;
                for (int call = 0; ls >> len; ++call) {
                    for (int within = 0; within < (len > 1 ? 2 : 1); ++within) {
                        Point pt;
                        pt.conn   = conn;
                        pt.dir    = dir;
                        pt.call   = call;
                        pt.within = within;
                        for (int kind = 0; kind < 4; ++kind) {
                            if (kind == HALF && !dir && within) {
                                continue;
                            }
                            cases.push_back({clusters[k], (Op)op, (Kind)kind, pt});
                        }
                    }
                }
            }
        }
    }
    printf("C18: %zu fault points\n", cases.size());
    // quick: every boundary between two calls, by the kinds of fault that say most where they fall on it
    std::vector<size_t> order;
    for (size_t i = 0; i < cases.size(); ++i) {
        auto& c     = cases[i];
        bool plain  = !c.c.single && !c.c.threaded;
        bool chosen = c.kind == CUT ? !c.p.within : (plain && c.p.dir && !c.p.within);
        if (T || chosen) {
            order.push_back(i);
        }
    }
    printf("C18: %zu of them taken\n", order.size());
    mc::sweep("cuts", order.size(), [&](mc::Ctx& ctx) { runCase(ctx, cases[order[ctx.idx]]); }, 150);

    mc::Evidence e;
    e.level = "fault_enumeration";
    e.rule =
        "Twelve operations of a client (list, list and read every field, retrieve, axes, inspect, statistics, archive, replace, archive and "
        "flush twice, wipe as a trial and confirmed, list while archiving) are carried out through a catalogue and a store server, with two "
        "connections to forked servers, with one connection, and with threaded servers. A first execution of each counts the reads and writes of every "
        "socket the client connects; then each is repeated for every one of these calls with the connection cut, the direction to the server cut, "
        "the catalogue server or the store server killed - before the call, or in the middle of its bytes (quick: connections cut before "
        "every call in all layouts, the other kinds before every write with two connections). The operation has to end "
        "within 25 s with the result of the execution without a fault, or with an error that says something; the process does not end; asked again, the same "
        "FDB ends likewise, flushing again too; another FDB in the same process is served (if the servers live); the servers live, or are "
        "started again; another client then sees what successful flushes promised, fields as they were or as archived, and nothing damaged, and can archive.";
    e.assumptions = {"servers and client run on one machine, through the loopback interface: bytes are lost only by the faults made here",
                     "one fault in each execution; the threads of client and servers are scheduled by the system",
                     "a wipe that is interrupted may leave the database locked, and says so"};
    return mc::finish(e);
}
