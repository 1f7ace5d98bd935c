// C04: a reader beside a writer sees only complete, flushed states.
//
// A writing and a reading process, each suspended and resumed only before file-system operations: the writer's changes,
// the reader's looks at what the writer changes. Every schedule with up to two switches away from a process that could
// go on is run, and those with three in which the writer takes a few steps in the middle of the reader's work. What the
// reader saw is compared with what had been flushed when it started and what was being flushed while it ran.
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "mc.h"
#include "procs.h"
#include "world.h"

using namespace fx;

namespace {

struct Case {
    Setup setup;
    std::string before;  ///< program run first, alone
    std::string writer;  ///< A0: archive field 0, F: flush, C: close
    std::string reader;  ///< N: new FDB, L: list, and read what is listed; D: the same without duplicates, R: retrieve, X: axes
    std::string str() const { return setup.describe() + "\nbefore: " + before + "\nW: " + writer + "\nR: " + reader; }
};

const Universe& U() {
    return Universe::plain();
}

const int W = 0, R = 1;

bool mutating(int op) {
    switch (op) {
        case shim::CREATE: case shim::WRITE: case shim::TRUNC: case shim::RENAME: case shim::UNLINK: case shim::RMDIR: case shim::MKDIR:
        case shim::LINK:
            return true;
    }
    return false;
}

std::set<std::string> changed, directories;  ///< by the writer, below the scratch directory
size_t rootLen = 0;
bool reading   = false;

bool visible(const shim::Event& e) {
    if (!reading) {
        return mutating(e.op);
    }
    auto rel = [](const char* p) { return strlen(p) > rootLen ? std::string(p + rootLen + 1) : std::string(); };
    if (e.op == shim::SEEK || e.op == shim::CLOSE) {
        return false;
    }
    if (e.op == shim::OPENDIR) {
        return directories.count(rel(e.path)) > 0;
    }
    // (names with a time and a number in them differ from run to run)
    auto p = rel(e.path);
    return changed.count(p) || p.find("/toc.") != std::string::npos || p.find(".index") != std::string::npos || p.find(".data") != std::string::npos;
}

struct Written {
    int f, v;
    long begin, end;  ///< of its flush
};

std::string write(const Setup& s, const std::string& program) {
    s.apply();
    std::ostringstream o;
    std::map<int, std::vector<int>> pending;
    std::unique_ptr<fdb5::FDB> fdb;
    int v      = 21;
    auto flush = [&]() {
        long b = sched::now();
        fdb->flush();
        long e = sched::now();
        for (auto& x : pending) {
            for (int w : x.second) {
                // (of several versions archived before one flush only the last need be there)
                o << x.first << " " << w << " " << b << " " << e << "\n";
            }
        }
        pending.clear();
    };
    std::istringstream in(program);
    std::string w;
    while (in >> w) {
        if (!fdb) {
            fdb.reset(new fdb5::FDB(s.config()));
        }
        if (w[0] == 'F') {
            flush();
        }
        else if (w[0] == 'C') {
            flush();
            fdb.reset();
        }
        else {
            int f            = atoi(w.c_str() + 1);
            std::string data = payload(f, v);
            fdb->archive(key(U().all(f)), data.data(), data.size());
            pending[f].push_back(v++);
        }
    }
    if (fdb) {
        flush();
        fdb.reset();
    }
    return o.str();
}

/// Lines: what start end entries
std::string read(const Setup& s, const std::string& program) {
    s.apply();
    reading = true;
    std::ostringstream o;
    std::unique_ptr<fdb5::FDB> fdb;
    long start = 0;
    std::istringstream in(program);
    std::string w;
    while (in >> w) {
        if (w[0] == 'N') {
            start = sched::now();
            fdb.reset();
            fdb.reset(new fdb5::FDB(s.config()));
            continue;
        }
        std::string seen;
        try {
            if (w[0] == 'L' || w[0] == 'D') {
                std::vector<fdb5::ListElement> els;
                auto it = fdb->list(tool({}), w[0] == 'D');
                fdb5::ListElement el;
                while (it.next(el)) {
                    els.push_back(el);
                }
                for (auto& el : els) {
                    std::unique_ptr<eckit::DataHandle> h(el.location().dataHandle());
                    std::string b = identify(slurp(*h));
                    int f, v;
                    if (sscanf(b.c_str(), "%d:%d", &f, &v) != 2 || fv(f, v) != b || U().find(canon(el.combinedKey().valuesToString().empty() ? "" : fx::str([&] {
                            KV kv;
                            for (auto& x : el.combinedKey()) {
                                kv.push_back({x.first, x.second});
                            }
                            return kv;
                        }()))) != f) {
                        seen += " !" + b;
                    }
                    else {
                        seen += " " + b;
                    }
                }
            }
            else if (w[0] == 'R') {
                for (size_t f = 0; f < U().size(); ++f) {
                    auto x = retrieve(*fdb, U().all(f));
                    if (!x.empty()) {
                        seen += " " + (x.rfind(std::to_string(f) + ":", 0) == 0 && x.find('+') == std::string::npos ? x : "!" + x);
                    }
                }
            }
        }
        catch (std::exception& e) {
            seen += std::string(" !!") + e.what();
        }
        std::replace(seen.begin(), seen.end(), '\n', ' ');
        o << w[0] << " " << start << " " << sched::now() << seen << "\n";
    }
    return o.str();
}

void prepare(const Case& c, Setup& s, const std::string& dir) {
    s     = c.setup;
    s.dir = dir;
    s.create();
    if (!c.before.empty()) {
        auto r = mc::runChild([&]() {
            s.apply();
            build(s, U(), c.before);
            return std::string();
        });
        if (!r.ok) {
            throw std::runtime_error("cannot be prepared: " + r.status() + r.log);
        }
    }
}

sched::Run execute(const Case& c, const Setup& s, const std::vector<sched::Segment>& schedule) {
    rootLen = s.dir.size();
    return sched::run(s.dir, {[&]() { return write(s, c.writer); }, [&]() { return read(s, c.reader); }}, schedule, visible);
}

void scenario(mc::Ctx& ctx, const Case& c, const std::vector<sched::Segment>& schedule, const std::string& traceFile = "") {
    Setup s;
    prepare(c, s, ctx.dir);
    std::vector<Written> all;
    Model m;
    m.u       = &U();
    m.subtocs = s.subtocs;
    effect(m, c.before);
    for (auto& x : m.all()) {
        all.push_back({x.first, x.second, -2, -1});
    }
    auto r       = execute(c, s, schedule);
    ctx.describe = c.str() + "\nschedule (W=P0, R=P1): " + sched::str(schedule) + r.text();
    if (!traceFile.empty()) {
        std::ofstream t(traceFile);
        for (auto& o : r.trace) {
            t << o.p << "|" << o.op << "|" << o.path << "|" << o.path2 << "\n";
        }
    }
    if (r.deadlock) {
        ctx.fail("reader and writer block each other", "");
        return;
    }
    for (int p : {W, R}) {
        if (!r.procs[p].ok) {
            ctx.fail(p == W ? "the writer fails" : "the reader fails", r.procs[p].status() + " " + r.procs[p].log);
            return;
        }
    }
    for (auto& l : mc::split(r.procs[W].out, '\n')) {
        Written w;
        if (sscanf(l.c_str(), "%d %d %ld %ld", &w.f, &w.v, &w.begin, &w.end) == 4) {
            all.push_back(w);
        }
    }
    ctx.describe += "\nwritten (field:version, flush from-to):";
    for (auto& w : all) {
        ctx.describe += " " + fv(w.f, w.v) + "," + std::to_string(w.begin) + "-" + std::to_string(w.end);
    }
    ctx.describe += "\nread:\n" + r.procs[R].out;
    std::string sum;
    for (auto& l : mc::split(r.procs[R].out, '\n')) {
        if (l.empty()) {
            continue;
        }
        std::istringstream in(l);
        char what;
        long start, end;
        in >> what >> start >> end;
        std::map<int, std::vector<int>> seen;
        std::string x, op = what == 'R' ? "retrieval" : what == 'D' ? "listing without duplicates" : "listing";
        if (auto p = l.find("!!"); p != std::string::npos) {
            ctx.fail("error in " + op, l.substr(p + 2));
            return;
        }
        while (in >> x) {
            int f, v;
            if (x[0] == '!' || sscanf(x.c_str(), "%d:%d", &f, &v) != 2) {
                ctx.fail("wrong data in " + op, l);
                return;
            }
            bool ok = false;
            for (auto& w : all) {
                ok = ok || (w.f == f && w.v == v && w.begin <= end);
            }
            if (!ok) {
                ctx.fail("not flushed, but seen by " + op, x + " in " + l);
                return;
            }
            seen[f].push_back(v);
            sum += x + " ";
        }
        sum += ";";
        for (size_t f = 0; f < U().size(); ++f) {
            int least = 0;
            for (auto& w : all) {
                if (w.f == (int)f && w.end <= start) {
                    least = std::max(least, w.v);
                }
            }
            auto& v = seen[f];
            if (what != 'L' && v.size() > 1) {
                ctx.fail("a field twice in " + op, l);
            }
            if (!least) {
                continue;
            }
            if (v.empty()) {
                ctx.fail("flushed before, but not seen by " + op, fv(f, least) + " not in " + l);
            }
            else if (*std::max_element(v.begin(), v.end()) < least) {
                ctx.fail("an older version seen by " + op, fv(f, least) + " flushed before " + l);
            }
        }
    }
    ctx.count("operations", r.trace.size());
    ctx.distinct(c.str() + sum);
    std::string order;
    for (auto& t : r.trace) {
        order += (char)('0' + t.p);
    }
    ctx.distinct("order " + c.str() + order);
    if (ctx.idx % 1501 == 7) {
        ctx.sample(ctx.describe);
    }
}

std::vector<Case> cases() {
    std::vector<Case> out;
    bool th = mc::opts.thorough;
    struct P {
        std::string before, w;
        std::vector<std::string> r;
    };
    const std::vector<P> programs = {
        {"", "A0 F C", {"N L D R", "N R N D", "N L N L"}},                      // a new database
        {"A0 F C", "A0 A1 F A0 F C", {"N L D R", "N R R N D", "N D N D"}},      // more fields, replacements
        {"A0 A3 F C", "A2 A3 F C A0 F C", {"N L D R", "N R D", "N R N R"}},    // another index, another database
        {"A0 F C A0 F C", "A0 F C A1 A0 F C", {"N L D R", "N R N R"}},
    };
    struct L {
        bool subtocs, separate;
        int version;
        std::map<std::string, std::string> res, user;
    };
    const std::vector<L> layouts = {
        {false, false, 0, {}, {}},
        {true, false, 0, {}, {}},
        {false, true, 2, {{"fdbCacheTocsOnRead", "0"}}, {}},
        {false, false, 0, {}, {{"preloadTocBTree", "false"}}},
        {true, true, 0, {{"fdbCacheTocsOnRead", "0"}}, {{"preloadTocBTree", "false"}}},
    };
    for (size_t p = 0; p < programs.size(); ++p) {
        for (size_t l = 0; l < layouts.size(); ++l) {
            for (size_t r = 0; r < programs[p].r.size(); ++r) {
                if (!th && (r + l + p) % 3 && !(l < 2 && r == 0)) {
                    continue;
                }
                Case c;
                c.setup.schema        = U().schema;
                c.setup.subtocs       = layouts[l].subtocs;
                c.setup.separateStore = layouts[l].separate;
                c.setup.version       = layouts[l].version;
                c.setup.resources     = layouts[l].res;
                c.setup.user          = layouts[l].user;
                c.before              = programs[p].before;
                c.writer              = programs[p].w;
                c.reader              = programs[p].r[r];
                if (l == 3 && p == 1) {
                    c.setup.maxDBs = 1;
                }
                out.push_back(c);
            }
        }
    }
    return out;
}

std::string parent(const std::string& p) {
    auto sl = p.rfind('/');
    return sl == std::string::npos ? "" : p.substr(0, sl);
}
/// A change by the writer, a look by the reader
bool conflict(const sched::Op& w, const sched::Op& r) {
    for (auto& x : {w.path, w.path2}) {
        if (!x.empty() && (x == r.path || x == r.path2 || (r.op == shim::OPENDIR && parent(x) == r.path))) {
            return true;
        }
    }
    return false;
}

std::vector<sched::Op> load(const std::string& f) {
    std::vector<sched::Op> out;
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        auto v = mc::split(l, '|');
        v.resize(4);
        out.push_back({atoi(v[0].c_str()), atoi(v[1].c_str()), v[2], v[3]});
    }
    return out;
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C04", 120, 3600);
    bool th  = mc::opts.thorough;
    auto all = cases();
    struct Point {
        int c;
        std::vector<sched::Segment> s;
    };
    std::vector<std::pair<std::set<std::string>, std::set<std::string>>> touched(all.size());
    std::vector<Point> single;
    std::ostringstream lens;
    auto use = [&](int c) {
        changed     = touched[c].first;
        directories = touched[c].second;
    };
    for (size_t i = 0; i < all.size(); ++i) {
        const Case& c = all[i];
        Setup s;
        prepare(c, s, mc::scratch() + "/touched" + std::to_string(i));
        auto r = execute(c, s, {});
        for (auto& t : r.trace) {
            for (auto& x : {t.path, t.path2}) {
                if (t.p == W && !x.empty()) {
                    touched[i].first.insert(x);
                    touched[i].second.insert(parent(x));
                }
            }
        }
        lens << (i ? ", " : "") << "\"" << i << "\": " << r.ops[W];
        for (long x = 0; x <= r.ops[W]; ++x) {
            single.push_back({(int)i, {{W, x}, {R, -1}, {W, -1}}});
        }
    }
    std::string traces = mc::scratch() + "/traces";
    std::filesystem::create_directories(traces);
    auto traceOf = [&](size_t k) { return traces + "/" + std::to_string(k); };
    mc::addCounter("schedules_with_one_switch", single.size());
    mc::sweep("one-switch", single.size(), [&](mc::Ctx& ctx) {
        use(single[ctx.idx].c);
        scenario(ctx, all[single[ctx.idx].c], single[ctx.idx].s, traceOf(ctx.idx));
    });
    // the reader suspended too: after j of its operations the writer does k, or the rest. When none of these affects what
    // the reader does next, switching one operation later comes to the same
    std::vector<Point> points, more;
    long commute = 0;
    for (size_t n = 0; n < single.size(); ++n) {
        auto t = load(traceOf(n));
        std::vector<sched::Op> ws, rs;
        for (auto& o : t) {
            (o.p == W ? ws : rs).push_back(o);
        }
        long i = single[n].s[0].n;
        for (long j = 1; j < (long)rs.size(); ++j) {
            bool any = false;
            for (long k = 1; i + k <= (long)ws.size(); ++k) {
                bool hit = conflict(ws[i + k - 1], rs[j]);
                any      = any || hit;
                bool end = i + k == (long)ws.size();
                if (!hit && !end) {
                    continue;  // (the same as with one fewer)
                }
                if (!any) {
                    ++commute;
                }
                else if (end) {
                    points.push_back({single[n].c, {{W, i}, {R, j}, {W, -1}, {R, -1}}});
                }
                else if (k <= (th ? 1000 : 6)) {
                    more.push_back({single[n].c, {{W, i}, {R, j}, {W, k}, {R, -1}, {W, -1}}});
                }
            }
        }
    }
    auto spread = [&](std::vector<Point>& v, size_t n) {
        std::map<int, std::vector<Point>> byCase;
        for (auto& p : v) {
            byCase[p.c].push_back(p);
        }
        v.clear();
        for (auto& x : byCase) {
            size_t stride = (x.second.size() + n - 1) / n;
            for (size_t i = 0; i < x.second.size(); i += stride) {
                v.push_back(x.second[i]);
            }
        }
    };
    mc::addCounter("schedules_with_two_switches_possible", points.size());
    mc::addCounter("schedules_with_three_switches_possible", more.size());
    mc::addCounter("schedules_equivalent_to_others", commute);
    if (!th) {
        spread(points, 120);
        spread(more, 90);
    }
    mc::sweep("two-switches", points.size(), [&](mc::Ctx& ctx) {
        use(points[ctx.idx].c);
        scenario(ctx, all[points[ctx.idx].c], points[ctx.idx].s);
    });
    mc::sweep("three-switches", more.size(), [&](mc::Ctx& ctx) {
        use(more[ctx.idx].c);
        scenario(ctx, all[more[ctx.idx].c], more[ctx.idx].s);
    });
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "Programs of a writing and a reading process x layouts x all schedules with up to 2 preemptions (thorough: 3; quick: evenly "
              "spread), each before a file-system operation; what the reader saw against the intervals of the flushes.";
    e.extra["writer_operations_by_case"] = "{" + lens.str() + "}";
    e.assumptions = {"the reader changes nothing the writer looks at", "each file-system operation is atomic"};
    return mc::finish(e);
}
