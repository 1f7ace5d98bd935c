// C03: a failing disk operation is reported and never yields wrong data.
//
// Writer programs and reads are run once to record their file-system calls; then once for each of these calls and each
// fault: an error (several errors, once or from then on), a short transfer. The program goes on after an error, as a
// caller may. What each step reported is compared with what a new process can then read.
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

#include <sstream>

#include "faults.h"
#include "fx.h"
#include "mc.h"
#include "prog.h"

using namespace fx;
using faults::Plan;

struct Case {
    Setup setup;
    std::string before;  // run to completion first, by another process
    std::string program;
};
struct Point {
    int c;
    Plan plan;
    std::string op;
};

static std::string kindOf(const std::string& path, const std::string& root) {
    std::string s = path.size() > root.size() ? path.substr(root.size()) : path;
    if (s.find(".data") != std::string::npos) {
        return "data file";
    }
    if (s.find(".index") != std::string::npos) {
        return "index file";
    }
    if (s.find("/toc.") != std::string::npos) {
        return "sub-toc";
    }
    if (s.size() >= 4 && s.substr(s.size() - 4) == "/toc") {
        return "toc";
    }
    if (s.find("schema.") != std::string::npos) {
        return "temporary schema";
    }
    if (s.find("schema") != std::string::npos) {
        return "schema";
    }
    return "directory or other file";
}

static std::string faultName(const Plan& p) {
    if (p.kind == Plan::SHORT) {
        return "short";
    }
    return std::string(strerrorname_np(p.err)) + (p.sticky ? " (lasting)" : "");
}

//---------------------------------------------------------------------------------------------------------- writer side

enum { NOT_REACHED = 0, OK = 1, FAILED = 2 };

// values[0..n-1]: outcome of each step
static void writeProgram(const Setup& s, const std::string& text, int first) {
    auto* p = faults::shared();
    Runner r(s);
    long n = 0;
    for (auto& st : program(text, first)) {
        int o   = OK;
        p->step = n;
        try {
            r.step(st);
        }
        catch (std::exception& e) {
            o = FAILED;
        }
        p->values[n++] = o;
    }
    p->step = n;
    r.close();
    p->values[n] = OK;
}

static mc::Child runPlain(const Setup& s, const std::string& text, int first) {
    return mc::runChild([&]() {
        s.apply();
        Runner r(s);
        for (auto& st : program(text, first)) {
            r.step(st);
        }
        r.close();
        return std::string("ok");
    });
}

static mc::Child faulty(const Case& c, const Plan& plan) {
    faults::fresh();
    if (!c.before.empty()) {
        auto b = runPlain(c.setup, c.before, 1);
        if (!b.ok) {
            return b;
        }
    }
    return mc::runChild([&]() {
        c.setup.apply();
        faults::arm(c.setup.dir, plan, faults::DISK);
        writeProgram(c.setup, c.program, 11);
        std::string t = faults::encode(faults::trace());
        faults::disarm();
        return t;
    });
}

static std::vector<Case> cases() {
    std::vector<Case> out;
    const std::vector<std::pair<std::string, std::string>> progs = {
        {"", "A0 A1 F A0 F F"},
        {"A0 A2 F A3 F", "A0 F F A1 A3 F F A2 F C A0 F"},
        {"", "A0 A2 F F A3 F F C A1 F"},
        {"A0 F", "A0 A0 A1 F F"},
    };
    for (int sub = 0; sub < 2; ++sub) {
        for (int sep = 0; sep < 2; ++sep) {
            for (auto& p : progs) {
                Case c;
                c.setup.subtocs       = sub;
                c.setup.separateStore = sep;
                c.before              = p.first;
                c.program             = p.second;
                if (!mc::opts.thorough && sep) {
                    continue;
                }
                out.push_back(c);
                if (mc::opts.thorough) {
                    c.setup.maxDBs = 1;
                    out.push_back(c);
                }
            }
        }
    }
    return out;
}

static void judgeWriter(mc::Ctx& ctx, const Case& c, const Point& pt) {
    auto* p   = faults::shared();
    auto prog = program(c.program, 11);
    // for each field: a version below which nothing may be seen, and what may be seen
    int flushed[8] = {};
    std::set<int> may[8];
    for (auto& s : program(c.before, 1)) {
        if (s.kind == 'A') {
            flushed[s.f] = s.v;
            may[s.f]     = {s.v};
        }
    }
    int pending[8] = {};
    std::string outcome;
    bool reported = false;
    for (size_t i = 0; i < prog.size(); ++i) {
        auto& s = prog[i];
        int o   = p->values[i];
        outcome += o == OK ? '.' : o == FAILED ? 'x' : '?';
        reported |= o == FAILED;
        if (s.kind == 'A') {
            may[s.f].insert(s.v);
            if (o == OK) {
                pending[s.f] = s.v;
            }
        }
        else if (s.kind == 'F' && o == OK) {
            for (int f = 0; f < 4; ++f) {
                if (pending[f]) {
                    flushed[f] = std::max(flushed[f], pending[f]);
                    pending[f] = 0;
                }
            }
        }
        else if (s.kind == 'C') {
            // errors of a flush made by the destructor cannot be reported: nothing is promised
            memset(pending, 0, sizeof pending);
        }
    }
    auto sig = [&](const std::string& what) { return what + ": " + faultName(pt.plan) + " at " + pt.op; };
    ctx.describe += "\nsteps (. ok, x reported an error): " + outcome;
    auto check = [&](const Seen& s, const char* when, bool after) {
        for (auto& b : s.bad) {
            ctx.fail(sig(after ? "bad data after a second writer" : "bad data"), std::string(when) + ": " + b);
        }
        for (int f = 0; f < 4; ++f) {
            for (int r = 0; r < 2; ++r) {
                std::vector<int> v = s.list[f];
                if (r) {
                    v.clear();
                    if (s.retrieved[f]) {
                        v.push_back(s.retrieved[f]);
                    }
                }
                std::ostringstream w;
                w << when << (r ? ": retrieve" : ": list") << " of field " << f << " gives";
                for (int x : v) {
                    w << " " << x;
                }
                w << " (last successful flush " << flushed[f] << "), steps " << outcome;
                if (v.empty()) {
                    if (flushed[f]) {
                        ctx.fail(sig(after ? "field lost after a second writer" : "flushed field lost"), w.str());
                    }
                }
                else if (v.size() > 1) {
                    ctx.fail(sig("field reported twice"), w.str());
                }
                else if (v[0] < flushed[f] || !may[f].count(v[0])) {
                    ctx.fail(sig(v[0] < flushed[f] ? "old version" : "version never archived"), w.str());
                }
            }
        }
    };
    auto o = mc::runChild([&]() {
        c.setup.apply();
        return observe(c.setup);
    });
    if (!o.ok) {
        ctx.fail(sig("reader failed"), o.status() + o.log);
        return;
    }
    Seen seen = parseObserved(o.out);
    check(seen, "after the fault", false);
    ctx.distinct(std::to_string(pt.c) + pt.op + faultName(pt.plan) + seen.str() + outcome);
    ctx.count(reported ? "faults reported" : "faults recovered from");

    auto w = runPlain(c.setup, "A0 A1 A2 A3 F", 100);
    if (!w.ok) {
        ctx.fail(sig("second writer fails"), w.status() + w.log);
        return;
    }
    for (int f = 0; f < 4; ++f) {
        flushed[f] = 100 + f;
        may[f]     = {100 + f};
    }
    auto o2 = mc::runChild([&]() {
        c.setup.apply();
        return observe(c.setup);
    });
    if (!o2.ok) {
        ctx.fail(sig("reader failed after a second writer"), o2.status() + o2.log);
        return;
    }
    check(parseObserved(o2.out), "after a second writer", true);
}

static void addPoints(std::vector<Point>& points, int c, const std::vector<faults::Rec>& t, const std::string& root, bool writer) {
    for (size_t k = 0; k < t.size(); ++k) {
        std::string what = std::string(shim::opName(t[k].op)) + " of " + kindOf(t[k].path, root);
        auto add         = [&](Plan::Kind kind, int err, bool sticky, size_t len) {
            Plan p;
            p.kind   = kind;
            p.at     = k;
            p.err    = err;
            p.sticky = sticky;
            p.len    = len;
            points.push_back({c, p, what});
        };
        // (eckit::FileHandle waits for space, for ever)
        bool wr = (t[k].op == shim::WRITE && what.find("temporary schema") == std::string::npos) || t[k].op == shim::CREATE || t[k].op == shim::MKDIR;
        add(Plan::FAIL, wr ? ENOSPC : EIO, false, 0);
        if (mc::opts.thorough || writer) {
            add(Plan::FAIL, wr ? ENOSPC : EIO, true, 0);
        }
        if (t[k].op == shim::READ || t[k].op == shim::WRITE || t[k].op == shim::SYNC || mc::opts.thorough) {
            add(Plan::FAIL, EINTR, false, 0);
        }
        if (t[k].op == shim::OPEN || t[k].op == shim::CREATE) {
            add(Plan::FAIL, EMFILE, false, 0);
            if (mc::opts.thorough) {
                add(Plan::FAIL, EACCES, false, 0);
            }
        }
        if ((t[k].op == shim::READ || t[k].op == shim::WRITE) && t[k].len > 1) {
            std::set<size_t> lens = {t[k].len / 2};
            if (mc::opts.thorough) {
                lens.insert({1, 512, t[k].len - 1});
            }
            for (size_t l : lens) {
                if (l < t[k].len) {
                    add(Plan::SHORT, 0, false, l);
                }
            }
        }
    }
}

//---------------------------------------------------------------------------------------------------------- reader side

static const char* readings[] = {"list", "full list", "duplicates", "axes", "status", "retrieve 0", "retrieve 0+1+2", "retrieve 3", "inspect",
                                 "stats", "missing"};
const int NREADINGS = 11;

static std::string reading(fdb5::FDB& fdb, int what) {
    std::vector<std::string> r;
    switch (what) {
        case 0:
        case 1:
        case 2:
            for (auto& e : list(fdb, {}, what == 0 ? Dedup : what == 1 ? Full : OnlyDuplicates)) {
                if (e.bytes.rfind("unreadable", 0) == 0) {
                    throw std::runtime_error(e.bytes);  // an error was reported
                }
                r.push_back(e.key + "=" + e.bytes);
            }
            break;
        case 3: {
            std::ostringstream s;
            auto ax = fdb.axes(tool({}), 3);
            for (const auto& k : {"class", "expver", "type", "step", "param"}) {
                s << k << ":";
                if (ax.has(k)) {
                    for (auto& v : ax.values(k)) {
                        s << v << ",";
                    }
                }
            }
            r.push_back(s.str());
            break;
        }
        case 4: {
            auto it = fdb.status(tool({}));
            fdb5::StatusElement el;
            while (it.next(el)) {
                std::ostringstream s;
                s << el.key;
                r.push_back(s.str());
            }
            break;
        }
        case 5:
            r.push_back(retrieve(fdb, progFields()[0]));
            break;
        case 6:
            r.push_back(retrieve(fdb, Req{{"class", {"od"}}, {"expver", {"1"}}, {"type", {"an"}}, {"step", {"0"}}, {"param", {"x", "y"}}}));
            break;
        case 7:
            r.push_back(retrieve(fdb, progFields()[3]));
            break;
        case 8: {
            auto it = fdb.inspect(mars(reqOf(progFields()[2])));
            fdb5::ListElement el;
            while (it.next(el)) {
                std::ostringstream s;
                s << el.combinedKey() << el.location().length();
                r.push_back(s.str());
            }
            break;
        }
        case 9: {
            auto it = fdb.stats(tool({}));
            fdb5::StatsElement el;
            while (it.next(el)) {
                std::ostringstream s;
                el.indexStatistics.report(s);
                r.push_back(s.str());
            }
            break;
        }
        case 10: {  // a field which does not exist, in an existing database
            KV k = progFields()[1];
            k[4].second = "z";
            r.push_back(retrieve(fdb, k));
            break;
        }
    }
    std::sort(r.begin(), r.end());
    return join(r, ";");
}

// What is said of each reading: the result, or "!" and the error. The first one is made with the fault armed; then all
// are made again, by the same FDB and by a new one of the same process.
static mc::Child reader(const Setup& s, int what, const Plan& plan) {
    return mc::runChild([&]() {
        s.apply();
        std::ostringstream out;
        fdb5::FDB fdb(s.config());
        faults::arm(s.dir, plan, faults::DISK);
        auto go = [&](fdb5::FDB& f, int w) {
            try {
                out << reading(f, w) << "\x01";
            }
            catch (std::exception& e) {
                out << "!" << e.what() << "\x01";
            }
        };
        go(fdb, what);
        std::string t = faults::encode(faults::trace());
        faults::disarm();
        go(fdb, what);
        fdb5::FDB other(s.config());
        go(other, what);
        return out.str() + t;
    });
}

int main(int argc, char** argv) {
    mc::init(argc, argv, "C03");
    auto all = cases();

    std::vector<Point> points;
    for (size_t i = 0; i < all.size(); ++i) {
        Case c      = all[i];
        c.setup.dir = mc::scratch() + "/record" + std::to_string(i);
        c.setup.create();
        auto r = faulty(c, Plan{});
        if (!r.ok) {
            mc::violation("program fails", c.setup.describe() + ": " + c.program + ": " + r.status() + r.log);
            continue;
        }
        auto t = faults::decode(r.out);
        mc::addCounter("operations recorded", t.size());
        addPoints(points, i, t, c.setup.dir, true);
    }
    mc::sweep("writer-faults", points.size(), [&](mc::Ctx& ctx) {
        const Point& pt = points[ctx.idx];
        Case c          = all[pt.c];
        c.setup.dir     = ctx.dir;
        c.setup.create();
        ctx.describe = c.setup.describe() + "\nbefore: " + c.before + "\nprogram: " + c.program + "\n" + pt.plan.str() + " (" + pt.op + ")";
        auto r       = faulty(c, pt.plan);
        if (!r.ok) {
            auto prog   = program(c.program, 11);
            size_t step = faults::shared()->step;
            char k      = step < prog.size() ? prog[step].kind : 'C';
            ctx.fail(std::string("process ended in ") + (k == 'A' ? "archive" : k == 'F' ? "flush" : "close") + ": " + faultName(pt.plan) + " at " + pt.op, r.status() + r.log);
        }
        if (!faults::shared()->struck) {
            ctx.count("fault not reached");
            return;
        }
        judgeWriter(ctx, c, pt);
        if (ctx.idx % 311 == 3) {
            ctx.sample(ctx.describe);
        }
    });

    // Reading
    struct RCase {
        Setup setup;
        std::string expected[NREADINGS];
        std::set<std::string> without[NREADINGS];  // results if a whole database were missing
    };
    std::vector<RCase> rcases;
    struct RPoint {
        int c, what;
        Point pt;
    };
    std::vector<RPoint> rpoints;
    for (int v = 0; v < (mc::opts.thorough ? 8 : 4); ++v) {
        RCase rc;
        rc.setup.subtocs       = v & 1;
        rc.setup.separateStore = v == 2 || v == 3;
        if (v == 1 || v == 3) {
            rc.setup.resources["fdbCacheTocsOnRead"] = "true";
        }
        if (v == 4 || v == 5) {
            rc.setup.user["preloadTocBTree"] = "true";
        }
        if (v >= 6) {
            rc.setup.resources["fdbSeekableDataHandle"] = "true";
        }
        rc.setup.dir = mc::scratch() + "/read" + std::to_string(v);
        rc.setup.create();
        auto w = runPlain(rc.setup, "A0 A1 A2 A3 F A0 F A1 A2 F", 1);
        if (!w.ok) {
            mc::violation("program fails", rc.setup.describe() + ": " + w.status() + w.log);
            continue;
        }
        // a second writer, still alive when this one ends: leaves sub-tocs uncompacted
        auto w2 = mc::runChild([&]() {
            rc.setup.apply();
            Runner r(rc.setup);
            for (auto& st : program("A0 A2 F A1 A3 F", 50)) {
                r.step(st);
            }
            _exit(0);
            return std::string();
        });
        (void)w2;
        for (int what = 0; what < NREADINGS; ++what) {
            faults::fresh();
            auto r  = reader(rc.setup, what, Plan{});
            auto p  = mc::split(r.out, '\x01');
            if (!r.ok || p.size() < 3) {
                mc::violation("reading fails", std::string(readings[what]) + ": " + r.status() + r.log + r.out);
                continue;
            }
            rc.expected[what] = p[0];
            if (p[0] != p[1] || p[0] != p[2] || p[0].rfind("!", 0) == 0) {
                mc::violation("reading varies", std::string(readings[what]) + ": " + p[0] + " / " + p[1] + " / " + p[2]);
            }
            for (const char* db : {"od:1", "od:2"}) {
                std::string path = rc.setup.root() + "/" + db;
                if (rename(path.c_str(), (rc.setup.dir + "/aside").c_str()) == 0) {
                    auto wo = mc::split(reader(rc.setup, what, Plan{}).out, '\x01');
                    if (!wo.empty()) {
                        rc.without[what].insert(wo[0]);
                    }
                    if (rename((rc.setup.dir + "/aside").c_str(), path.c_str())) {}
                }
            }
            std::vector<Point> pts;
            if (p.size() > 3) {
                addPoints(pts, rcases.size(), faults::decode(p[3]), rc.setup.dir, false);
            }
            for (auto& q : pts) {
                rpoints.push_back({(int)rcases.size(), what, q});
            }
        }
        rcases.push_back(rc);
    }
    mc::sweep("reader-faults", rpoints.size(), [&](mc::Ctx& ctx) {
        const RPoint& rp = rpoints[ctx.idx];
        const RCase& rc  = rcases[rp.c];
        std::string what = readings[rp.what];
        ctx.describe     = rc.setup.describe() + "\n" + what + "\n" + rp.pt.plan.str() + " (" + rp.pt.op + ")";
        auto sig = [&](const std::string& w) { return w + ": " + what + ": " + faultName(rp.pt.plan) + " at " + rp.pt.op; };
        faults::fresh();
        auto r = reader(rc.setup, rp.what, rp.pt.plan);
        auto p = mc::split(r.out, '\x01');
        if (!r.ok || p.size() < 3) {
            ctx.fail(sig("process ended"), r.status() + r.log);
            return;
        }
        if (!faults::shared()->struck) {
            ctx.count("fault not reached");
            return;
        }
        const std::string& e = rc.expected[rp.what];
        if (p[0].rfind("!", 0) != 0 && p[0] != e) {
            bool left = rc.without[rp.what].count(p[0]);
            ctx.fail(left ? "database left out: " + what + ": " + rp.pt.op : sig("wrong result"), "got " + p[0] + "\nexpected " + e);
        }
        for (int k = 1; k < 3; ++k) {
            if (p[k] != e) {
                ctx.fail(sig(k == 1 ? "wrong result when tried again" : "wrong result of another FDB"), "first " + p[0] + "\nthen got " + p[k] + "\nexpected " + e);
            }
        }
        ctx.count(p[0][0] == '!' ? "read faults reported" : "read faults recovered from");
        ctx.distinct("R" + std::to_string(rp.c) + what + faultName(rp.pt.plan) + rp.pt.op + p[0]);
        if (ctx.idx % 211 == 3) {
            ctx.sample(ctx.describe + "\n" + p[0].substr(0, 200));
        }
    });

    mc::Evidence e;
    e.level = "fault_enumeration";
    e.rule  = "One execution for each file-system call (open, create, read, write, sync, rename, link, unlink, mkdir, directory "
             "listing) of each writer program and each reading, in each configuration, with each fault (ENOSPC/EIO once and "
             "lasting, EINTR, EMFILE, short transfers); compared with what each step reported. distinct_nontrivial counts distinct "
             "(case, call, fault, outcome of every step, contents seen).";
    e.assumptions = {"stat, access, seek, close and file locking do not fail"};
    return mc::finish(e);
}
