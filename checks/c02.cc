// C02: a crash at any instant loses no flushed field and exposes no damaged one.
//
// Writer programs are run once to record the mutating file-system calls they make; then once for each of these calls and
// each way of dying at it: before it, part-way through a write, and with the loss of what has not been synchronised to
// disk (of all files, or of one). Each time a new process reads everything, a second writer archives into what is left,
// and a new process reads everything again.
#include <sstream>

#include "faults.h"
#include "fx.h"
#include "mc.h"
#include "prog.h"

using namespace fx;
using faults::Plan;

struct Case {
    Setup setup;
    std::string before;  // run to completion first, by another process
    std::string program;
};

struct Point {
    int c;
    Plan plan;
    std::string op;  // for the report
};

static std::string sanitise(std::string s) {
    // the kind of a file, without its unique parts
    auto p = s.find("root0/");
    auto q = s.find("store0/");
    if (q != std::string::npos) {
        p = q + 1;
    }
    if (p != std::string::npos) {
        s = s.substr(p + 6);
    }
    if (s.find(".data") != std::string::npos) {
        return "data file";
    }
    if (s.find(".index") != std::string::npos) {
        return "index file";
    }
    if (s.find("/toc.") != std::string::npos) {
        return "sub-toc";
    }
    if (s.size() >= 4 && s.substr(s.size() - 4) == "/toc") {
        return "toc";
    }
    if (s.find("schema.") != std::string::npos) {
        return "temporary schema";
    }
    if (s.find("schema") != std::string::npos) {
        return "schema";
    }
    return "directory or other file";
}

static void writeProgram(const Setup& s, const std::string& text, int first) {
    auto* p = faults::shared();
    Runner r(s);
    long n = 0;
    for (auto& st : program(text, first)) {
        r.step(st);
        p->step = ++n;
    }
    r.close();
    p->step = n + 1;
}

static std::vector<Case> cases() {
    std::vector<Case> out;
    const std::vector<std::pair<std::string, std::string>> progs = {
        {"", "A0 A1 F A0 F"},
        {"", "A0 A2 F A3 A2 F C A1 F"},
        {"A0 A2 F A3 F", "A0 F A1 A3 A2 F"},
        {"A0 A1 A2 A3 F", "A0 A0 A1 F C A3"},
    };
    {
        // without a buffer: the data go out as they are archived
        Case c;
        c.setup.resources["fdbBufferSize"] = "1";
        c.before                           = progs[2].first;
        c.program                          = progs[2].second;
        out.push_back(c);
    }
    for (int sub = 0; sub < 2; ++sub) {
        for (int sep = 0; sep < 2; ++sep) {
            for (auto& p : progs) {
                Case c;
                c.setup.subtocs       = sub;
                c.setup.separateStore = sep;
                c.before              = p.first;
                c.program             = p.second;
                if (!mc::opts.thorough && sep && &p != &progs[1] && &p != &progs[2]) {
                    continue;
                }
                out.push_back(c);
                if (mc::opts.thorough) {
                    for (int v = 1; v <= 2; ++v) {
                        c.setup.version = v;
                        c.setup.maxDBs  = v == 1;
                        out.push_back(c);
                    }
                }
            }
        }
    }
    return out;
}

static void judge(mc::Ctx& ctx, const Case& c, const Point& pt, long step) {
    // The reference: last version flushed by `before` or by a flush (or close) which had returned
    int flushed[8] = {}, archived[8] = {};
    auto apply = [&](const std::vector<Step>& prog, long steps) {
        std::vector<Step> pend;
        long n = 0;
        for (auto& s : prog) {
            bool done = n++ < steps;
            if (s.kind == 'A') {
                if (n - 1 <= steps) {
                    archived[s.f] = s.v;  // begun, at least
                }
                if (done) {
                    pend.push_back(s);
                }
            }
            else if (done) {
                for (auto& q : pend) {
                    flushed[q.f] = q.v;
                }
                pend.clear();
            }
        }
        if (steps > (long)prog.size()) {
            for (auto& q : pend) {
                flushed[q.f] = q.v;
            }
        }
    };
    apply(program(c.before, 1), 1000);
    apply(program(c.program, 11), step);

    auto kind = [&](const std::string& what) {
        std::string lost = pt.plan.lose ? " (unsynchronised data lost)" : "";
        std::string torn = pt.plan.kind == Plan::TORN ? "torn write" : "crash";
        return what + ": " + torn + " at " + pt.op + lost;
    };
    auto check = [&](const Seen& s, const char* when, bool after) {
        for (auto& b : s.bad) {
            ctx.fail(kind(after ? "damage seen after a second writer" : "damage seen"), std::string(when) + ": " + b);
        }
        for (int f = 0; f < 4; ++f) {
            for (int r = 0; r < 2; ++r) {
                std::vector<int> v = s.list[f];
                if (r) {
                    v.clear();
                    if (s.retrieved[f]) {
                        v.push_back(s.retrieved[f]);
                    }
                }
                std::string what = std::string(when) + (r ? ": retrieve" : ": list") + " of field " + std::to_string(f) + " gives ";
                for (int x : v) {
                    what += std::to_string(x) + " ";
                }
                what += "(last flushed " + std::to_string(flushed[f]) + ", last archived " + std::to_string(archived[f]) + ")";
                if (v.empty()) {
                    if (flushed[f]) {
                        ctx.fail(kind(after ? "field lost after a second writer" : "flushed field lost"), what);
                    }
                }
                else if (v.size() > 1) {
                    ctx.fail(kind("field reported twice"), what);
                }
                else if (v[0] < flushed[f] || v[0] > archived[f]) {
                    ctx.fail(kind(v[0] < flushed[f] ? "old version" : "version never archived"), what);
                }
            }
        }
    };
    auto o = mc::runChild([&]() {
        c.setup.apply();
        return observe(c.setup);
    });
    if (!o.ok) {
        ctx.fail(kind("reader failed"), o.status() + o.log);
        return;
    }
    Seen seen = parseObserved(o.out);
    check(seen, "after the crash", false);
    ctx.distinct(std::to_string(pt.c) + pt.op + seen.str() + std::to_string(step));

    auto w = mc::runChild([&]() {
        c.setup.apply();
        Runner r(c.setup);
        for (auto& s : program("A0 A1 A2 A3 F", 100)) {
            r.step(s);
        }
        r.close();
        return std::string("ok");
    });
    if (!w.ok) {
        ctx.fail(kind("second writer fails"), w.status() + w.log);
        return;
    }
    for (int f = 0; f < 4; ++f) {
        flushed[f] = archived[f] = 100 + f;
    }
    auto o2 = mc::runChild([&]() {
        c.setup.apply();
        return observe(c.setup);
    });
    if (!o2.ok) {
        ctx.fail(kind("reader failed after a second writer"), o2.status() + o2.log);
        return;
    }
    check(parseObserved(o2.out), "after a second writer", true);
}

static mc::Child crash(const Case& c, const Plan& plan) {
    faults::fresh();
    if (!c.before.empty()) {
        auto b = mc::runChild([&]() {
            c.setup.apply();
            Runner r(c.setup);
            for (auto& s : program(c.before, 1)) {
                r.step(s);
            }
            r.close();
            return std::string("ok");
        });
        if (!b.ok) {
            return b;
        }
    }
    return mc::runChild([&]() {
        c.setup.apply();
        faults::arm(c.setup.dir, plan, faults::MUTATING);
        writeProgram(c.setup, c.program, 11);
        std::string t = faults::encode(faults::trace());
        // death at the very end
        if (plan.kind == Plan::CRASH) {
            faults::disarm();
        }
        return t;
    });
}

int main(int argc, char** argv) {
    mc::init(argc, argv, "C02");
    auto all = cases();

    // Record the operations of each case
    std::vector<Point> points;
    std::map<std::string, int> kinds;
    for (size_t i = 0; i < all.size(); ++i) {
        Case c      = all[i];
        c.setup.dir = mc::scratch() + "/record" + std::to_string(i);
        c.setup.create();
        auto r = crash(c, Plan{});
        if (!r.ok) {
            mc::violation("program fails", c.setup.describe() + ": " + c.program + ": " + r.status() + r.log);
            continue;
        }
        auto t = faults::decode(r.out);
        mc::addCounter("operations recorded", t.size());
        for (size_t k = 0; k <= t.size(); ++k) {
            std::string what = k < t.size() ? std::string(shim::opName(t[k].op)) + " of " + sanitise(t[k].path) : "the end";
            kinds[what]++;
            auto add = [&](Plan::Kind kind, size_t len) {
                std::vector<int> losses = {0, -1};
                if (mc::opts.thorough) {
                    losses = {0, -1, 1, 2, 3};
                }
                else if (kind == Plan::CRASH && k < t.size() && (t[k].op == shim::WRITE || t[k].op == shim::SYNC)) {
                    losses = {0, -1, 1, 2};
                }
                for (int lose : losses) {
                    Plan p;
                    p.kind = kind;
                    p.at   = k;
                    p.len  = len;
                    p.lose = lose;
                    points.push_back({(int)i, p, what});
                }
            };
            add(Plan::CRASH, 0);
            if (k < t.size() && t[k].op == shim::WRITE && t[k].len > 1) {
                std::set<size_t> lens = {t[k].len / 2};
                if (mc::opts.thorough) {
                    lens.insert({1, 4, 12, 64, 512, 1024, t[k].len - 1});
                }
                for (size_t l : lens) {
                    if (l < t[k].len) {
                        add(Plan::TORN, l);
                    }
                }
            }
        }
        std::string cmd = c.setup.dir;
    }

    mc::sweep("crash-points", points.size(), [&](mc::Ctx& ctx) {
        // spread the cases
        const Point& pt = points[ctx.idx];
        Case c          = all[pt.c];
        c.setup.dir     = ctx.dir;
        c.setup.create();
        ctx.describe = c.setup.describe() + "\nbefore: " + c.before + "\nprogram: " + c.program + "\n" + pt.plan.str() + " (" + pt.op + ")";
        auto r       = crash(c, pt.plan);
        long step    = faults::shared()->step;
        if (!faults::shared()->struck) {
            if (!r.ok) {
                ctx.fail("program fails", r.status() + r.log);
                return;
            }
            ctx.count("ended normally");
        }
        judge(ctx, c, pt, step);
        if (ctx.idx % 511 == 3) {
            ctx.sample(ctx.describe);
        }
    });
    std::ostringstream ops;
    ops << "{";
    for (auto& k : kinds) {
        ops << (ops.str().size() > 1 ? ", " : "") << mc::jsonString(k.first) << ": " << k.second;
    }
    ops << "}";
    mc::Evidence e;
    e.level = "fault_enumeration";
    e.rule  = "One execution for each mutating file-system call of each writer program and configuration, dying before it or "
             "(writes) part-way through it, with unsynchronised data kept, all lost, or lost for one file; then read back, a "
             "second writer, read back. distinct_nontrivial counts distinct (case, kind of call, contents seen, progress).";
    e.extra["calls_by_kind"] = ops.str();
    e.assumptions            = {"directory operations (create, rename, unlink) are durable in order",
                                "data of a file is durable up to its last fsync/fdatasync"};
    return mc::finish(e);
}
