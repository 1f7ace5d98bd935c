// C05: fields flushed by processes writing at the same time all survive.
//
// Two or three processes archive and flush, each suspended and resumed only before file-system operations on what they
// share (directories, schema, tocs). Every schedule with up to two switches away from a process that could go on (three
// with a single flush each, or thorough) is run; afterwards everything is read back.
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "mc.h"
#include "procs.h"
#include "world.h"

using namespace fx;

namespace {

struct Case {
    Setup setup;
    std::string before;                 ///< program run first, alone
    std::vector<std::string> programs;  ///< of each process
    int switches = 2;
    std::string str() const {
        std::string s = setup.describe() + "\nbefore: " + before;
        for (size_t p = 0; p < programs.size(); ++p) {
            s += "\nP" + std::to_string(p) + ": " + programs[p];
        }
        return s;
    }
};

const Universe& U() {
    return Universe::plain();
}

/// What some process changes under a name that others use too (below the scratch directory), and the directories whose
/// entries change. Operations on anything else commute with those of the other processes.
std::set<std::string> changed, directories;
size_t rootLen = 0;

bool shared(const shim::Event& e) {
    if (e.op == shim::LOCK) {
        return true;
    }
    if (e.op == shim::SEEK || e.op == shim::CLOSE) {
        return false;
    }
    auto rel = [](const char* p) { return strlen(p) > rootLen ? std::string(p + rootLen + 1) : std::string(); };
    return (e.op == shim::OPENDIR ? directories : changed).count(rel(e.path)) || (e.path2 && changed.count(rel(e.path2)));
}
bool everything(const shim::Event& e) {
    return e.op != shim::SEEK && e.op != shim::CLOSE;
}

struct Written {
    int f, v;
    long begin, end;          ///< of the flush
    long first = 0, last = 0;  ///< of the session
};

/// A program in one of the processes; lines "f v begin end", with the session's
std::string act(const Setup& s, const std::string& program, int v) {
    s.apply();
    std::vector<Written> done;
    size_t session = 0;
    std::map<int, int> pending;
    std::unique_ptr<fdb5::FDB> fdb;
    long first  = 0;
    auto flush  = [&]() {
        long b = sched::now();
        if (first < 0) {
            first = b;
        }
        fdb->flush();
        long e = sched::now();
        for (auto& x : pending) {
            done.push_back({x.first, x.second, b, e});
        }
        pending.clear();
    };
    auto close = [&]() {
        flush();
        fdb.reset();
        for (; session < done.size(); ++session) {
            done[session].first = first;
            done[session].last  = sched::now();
        }
    };
    std::istringstream in(program);
    std::string w;
    while (in >> w) {
        if (!fdb) {
            fdb.reset(new fdb5::FDB(s.config()));
            first = -1;
        }
        if (w[0] == 'F') {
            flush();
        }
        else if (w[0] == 'C') {
            close();
        }
        else {
            int f            = atoi(w.c_str() + 1);
            std::string data = payload(f, v);
            fdb->archive(key(U().all(f)), data.data(), data.size());
            pending[f] = v++;
        }
    }
    if (fdb) {
        close();
    }
    std::ostringstream o;
    for (auto& d : done) {
        o << d.f << " " << d.v << " " << d.begin << " " << d.end << " " << d.first << " " << d.last << "\n";
    }
    return o.str();
}

struct World {
    Setup s;
    std::vector<Written> prior;
};

void prepare(const Case& c, Setup& s, const std::string& dir, std::vector<Written>& prior) {
    s     = c.setup;
    s.dir = dir;
    s.create();
    if (!c.before.empty()) {
        auto r = mc::runChild([&]() {
            s.apply();
            build(s, U(), c.before);
            return std::string();
        });
        if (!r.ok) {
            throw std::runtime_error("cannot be prepared: " + r.status() + r.log);
        }
        Model m;
        m.u       = &U();
        m.subtocs = s.subtocs;
        effect(m, c.before);
        for (auto& x : m.all()) {
            prior.push_back({x.first, x.second, -2, -1, -2, -1});
        }
    }
}

int base(size_t p) {
    return 20 * (int)p + 21;
}

sched::Run execute(const Case& c, const Setup& s, const std::vector<sched::Segment>& schedule, sched::Visible visible = shared) {
    rootLen = s.dir.size();
    std::vector<std::function<std::string()>> procs;
    for (size_t p = 0; p < c.programs.size(); ++p) {
        procs.push_back([&c, &s, p]() { return act(s, c.programs[p], base(p)); });
    }
    return sched::run(s.dir, procs, schedule, visible);
}

/// Versions of each field that may be the visible one
bool maximal(const Written& w, const std::vector<Written>& all, bool sessions) {
    for (auto& x : all) {
        if (x.f != w.f || (x.v == w.v)) {
            continue;
        }
        bool same = x.v / 20 == w.v / 20 && w.begin >= 0;  // by the same process: in order
        if (same ? x.v > w.v : sessions ? x.first >= w.last : x.begin >= w.end) {
            return false;
        }
    }
    return true;
}

void scenario(mc::Ctx& ctx, const Case& c, const std::vector<sched::Segment>& schedule, const std::string& traceFile = "") {
    Setup s;
    std::vector<Written> all;
    prepare(c, s, ctx.dir, all);
    auto r       = execute(c, s, schedule);
    ctx.describe = c.str() + "\nschedule: " + sched::str(schedule) + r.text();
    if (!traceFile.empty()) {
        std::ofstream t(traceFile);
        for (auto& o : r.trace) {
            t << o.p << "|" << o.op << "|" << o.path << "|" << o.path2 << "\n";
        }
    }
    if (r.deadlock) {
        ctx.fail("writers block each other", "");
        return;
    }
    size_t prior = all.size();
    std::map<std::pair<int, int>, int> flushed;
    std::set<std::string> known;
    for (auto& x : all) {
        known.insert(fv(x.f, x.v));
    }
    for (size_t p = 0; p < r.procs.size(); ++p) {
        if (!r.procs[p].ok) {
            ctx.fail("a writer fails", "P" + std::to_string(p) + ": " + r.procs[p].status() + " " + r.procs[p].log);
            return;
        }
        for (auto& l : mc::split(r.procs[p].out, '\n')) {
            Written w;
            if (sscanf(l.c_str(), "%d %d %ld %ld %ld %ld", &w.f, &w.v, &w.begin, &w.end, &w.first, &w.last) == 6) {
                all.push_back(w);
            }
        }
        // versions rewritten before they were flushed may be there, or not
        int v = base(p);
        std::istringstream in(c.programs[p]);
        std::string t;
        while (in >> t) {
            if (t[0] == 'A') {
                known.insert(fv(atoi(t.c_str() + 1), v++));
            }
        }
    }
    (void)prior;
    auto o = mc::runChild([&]() {
        s.apply();
        fdb5::FDB fdb(s.config());
        std::string out;
        for (auto& e : listing(fdb, U(), {}, Full)) {
            out += "F" + e + "\n";
        }
        for (auto& e : listing(fdb, U(), {}, Dedup)) {
            out += "D" + e + "\n";
        }
        for (size_t f = 0; f < U().size(); ++f) {
            if (auto x = retrieve(fdb, U().all(f)); !x.empty()) {
                out += "R" + x + "\n";
            }
        }
        return out;
    });
    if (!o.ok) {
        ctx.fail("the database cannot be read", o.status() + o.log);
        return;
    }
    std::map<int, std::string> listed, got;
    std::set<std::string> full;
    for (auto& l : mc::split(o.out, '\n')) {
        if (l.empty()) {
            continue;
        }
        std::string e = l.substr(1);
        if (!known.count(e)) {
            ctx.fail("something else is stored", l);
            return;
        }
        if (l[0] == 'F') {
            full.insert(e);
        }
        else {
            auto& m = l[0] == 'D' ? listed : got;
            if (m.count(atoi(e.c_str()))) {
                ctx.fail("a field is reported twice", o.out);
            }
            m[atoi(e.c_str())] = e;
        }
    }
    std::set<int> fields;
    for (auto& w : all) {
        fields.insert(w.f);
    }
    std::string seen;
    for (int f : fields) {
        std::string d = listed.count(f) ? listed[f] : "", g = got.count(f) ? got[f] : "";
        if (d.empty() || g.empty()) {
            ctx.fail("a flushed field is lost", "field " + std::to_string(f) + (d.empty() ? " is not listed" : " is not retrieved"));
            continue;
        }
        if (d != g) {
            ctx.fail("listing and retrieval differ", d + " and " + g);
        }
        std::string may, maySession;
        bool ok = false, okSession = false;
        for (auto& w : all) {
            if (w.f == f && maximal(w, all, false)) {
                may += " " + fv(w.f, w.v);
                ok = ok || d == fv(w.f, w.v);
            }
            if (w.f == f && maximal(w, all, true)) {
                okSession = okSession || d == fv(w.f, w.v);
            }
        }
        if (!ok) {
            ctx.fail(s.subtocs && okSession ? "subtocs: versions from several processes rank by age of sub-toc, not of flush"
                                            : "an older version is seen",
                     d + " instead of one of" + may);
        }
        seen += d + " ";
    }
    for (auto& w : all) {
        // (with sub-tocs, closing keeps the latest of each session)
        bool superseded = false;
        for (auto& x : all) {
            superseded = superseded || (s.subtocs && x.f == w.f && x.v / 20 == w.v / 20 && x.v > w.v && x.first == w.first);
        }
        if (!superseded && !full.count(fv(w.f, w.v))) {
            ctx.fail("a flushed version is lost", fv(w.f, w.v) + " not among " + joinSet(full));
        }
    }
    ctx.count("operations", r.trace.size());
    ctx.distinct(c.str() + seen + joinSet(full));
    // distinct orders of the shared operations
    std::string order;
    for (auto& t : r.trace) {
        order += (char)('0' + t.p);
    }
    ctx.distinct("order " + std::to_string(std::hash<std::string>()(c.str())) + order);
    if (ctx.idx % 1501 == 7) {
        ctx.sample(ctx.describe);
    }
}

std::vector<Case> cases() {
    std::vector<Case> out;
    bool th = mc::opts.thorough;
    struct P {
        const char* before;
        std::vector<std::string> p;
    };
    const std::vector<P> programs = {
        {"", {"A0 F C", "A1 F C"}},                 // the same new database and index
        {"", {"A0 F C", "A2 F C"}},                 // another index
        {"", {"A0 F C", "A3 F C"}},                 // another database
        {"", {"A0 F C", "A0 F C"}},                 // the same field
        {"A0 F C", {"A0 F C", "A0 F A1 F C"}},
        {"A0 A2 F C", {"A0 F C A2 F C", "A1 A2 F C"}},
        {"A1 F C", {"A0 A3 F C", "A3 A0 F C"}},
        {"A0 F C", {"A0 F C", "A0 F C", "A1 F C"}},
        {"", {"A0 F C", "A0 F C", "A2 F C"}},
    };
    for (auto& p : programs) {
        for (int l = 0; l < 4; ++l) {
            Case c;
            c.setup.schema = U().schema;
            c.setup.subtocs       = l & 1;
            c.setup.separateStore = l & 2;
            if (!th && l == 3) {
                continue;
            }
            if (!th && p.p.size() > 2 && l > 1) {
                continue;
            }
            if (l == 2) {
                c.setup.version = 2;
            }
            c.before   = p.before;
            c.programs = p.p;
            out.push_back(c);
        }
    }
    return out;
}

bool mutates(const sched::Op& o) {
    switch (o.op) {
        case shim::CREATE: case shim::WRITE: case shim::TRUNC: case shim::RENAME: case shim::UNLINK: case shim::RMDIR: case shim::MKDIR:
        case shim::LINK: case shim::LOCK:
            return true;
    }
    return false;
}
std::string parent(const std::string& p) {
    auto sl = p.rfind('/');
    return sl == std::string::npos ? "" : p.substr(0, sl);
}
/// The two do not commute
bool conflict(const sched::Op& a, const sched::Op& b) {
    for (auto& x : {a.path, a.path2}) {
        for (auto& y : {b.path, b.path2}) {
            if (x.empty() || y.empty()) {
                continue;
            }
            if (x == y && (mutates(a) || mutates(b))) {
                return true;
            }
            if ((a.op == shim::OPENDIR && mutates(b) && parent(y) == x) || (b.op == shim::OPENDIR && mutates(a) && parent(x) == y)) {
                return true;
            }
        }
    }
    return false;
}
}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C05", 120, 3600);
    bool th  = mc::opts.thorough;
    auto all = cases();
    struct Point {
        int c;
        std::vector<sched::Segment> s;
    };
    std::vector<Point> single;
    std::ostringstream lens;
    std::vector<std::pair<std::set<std::string>, std::set<std::string>>> touched(all.size());
    for (size_t i = 0; i < all.size(); ++i) {
        const Case& c = all[i];
        int n         = (int)c.programs.size();
        {
            Setup s;
            std::vector<Written> prior;
            prepare(c, s, mc::scratch() + "/touched" + std::to_string(i), prior);
            auto r = execute(c, s, {}, everything);
            std::map<std::string, std::set<int>> users;
            std::set<std::string> ch, dirs;
            for (auto& t : r.trace) {
                users[t.path].insert(t.p);
                if (!t.path2.empty()) {
                    users[t.path2].insert(t.p);
                }
                switch (t.op) {
                    case shim::CREATE: case shim::WRITE: case shim::TRUNC: case shim::RENAME: case shim::UNLINK: case shim::RMDIR:
                    case shim::MKDIR: case shim::LINK:
                        for (auto& x : {t.path, t.path2}) {
                            if (!x.empty()) {
                                ch.insert(x);
                                auto sl = x.rfind('/');
                                dirs.insert(sl == std::string::npos ? "" : x.substr(0, sl));
                            }
                        }
                }
            }
            for (auto& x : ch) {
                if (users[x].size() > 1) {
                    touched[i].first.insert(x);
                }
            }
            touched[i].second = dirs;
            changed           = touched[i].first;
            directories       = dirs;
        }
        // lengths of each process alone, first or last
        long len[3] = {0, 0, 0};
        for (int first = 0; first < n; ++first) {
            Setup s;
            std::vector<Written> prior;
            prepare(c, s, mc::scratch() + "/record" + std::to_string(i) + "-" + std::to_string(first), prior);
            auto r = execute(c, s, {{first, -1}});
            for (int p = 0; p < n; ++p) {
                len[p] = std::max(len[p], r.ops[p]);
            }
        }
        lens << (i ? ", " : "") << "\"" << i << "\": [" << len[0] << ", " << len[1] << ", " << len[2] << "]";
        for (int a = 0; a < n; ++a) {
            for (int b = 0; b < n; ++b) {
                for (long x = 0; a != b && x <= len[a]; ++x) {
                    single.push_back({(int)i, {{a, x}, {b, -1}}});
                }
            }
        }
    }
    auto use = [&](int c) {
        changed     = touched[c].first;
        directories = touched[c].second;
    };
    // one switch: a, then b to its end, then the others
    std::string traces = mc::scratch() + "/traces";
    std::filesystem::create_directories(traces);
    auto traceOf = [&](size_t k) { return traces + "/" + std::to_string(k); };
    mc::addCounter("schedules_with_one_switch", single.size());
    mc::sweep("one-switch", single.size(), [&](mc::Ctx& ctx) {
        use(single[ctx.idx].c);
        scenario(ctx, all[single[ctx.idx].c], single[ctx.idx].s, traceOf(ctx.idx));
    });
    // two: a up to x, b up to y, then a (or the third). When what a would do at x commutes with what b does up to y,
    // switching after it comes to the same
    std::vector<Point> points;
    long commute = 0;
    for (size_t k = 0; k < single.size(); ++k) {
        int c = single[k].c, n = (int)all[c].programs.size(), a = single[k].s[0].p, b = single[k].s[1].p;
        long x = single[k].s[0].n;
        if (x == 0) {
            continue;
        }
        std::vector<sched::Op> bs, as;
        std::ifstream in(traceOf(k));
        std::string l;
        while (std::getline(in, l)) {
            auto f = mc::split(l, '|');
            f.resize(4);
            sched::Op o{atoi(f[0].c_str()), atoi(f[1].c_str()), f[2], f[3]};
            (o.p == a ? as : bs).push_back(o);
            if (n > 2 && o.p != a && o.p != b) {
                bs.pop_back();
            }
        }
        // what a does at x, when it goes on at once: known from the schedule in which it switches one later
        const sched::Op* next = nullptr;
        sched::Op op;
        if (k + 1 < single.size() && single[k + 1].c == c && single[k + 1].s[0].p == a && single[k + 1].s[0].n == x + 1 &&
            single[k + 1].s[1].p == b) {
            std::ifstream in2(traceOf(k + 1));
            long i = 0;
            while (std::getline(in2, l)) {
                auto f = mc::split(l, '|');
                f.resize(4);
                if (i++ == x) {
                    op   = {atoi(f[0].c_str()), atoi(f[1].c_str()), f[2], f[3]};
                    next = &op;
                    break;
                }
            }
        }
        if (!next || next->p != a) {
            continue;  // a is at its end
        }
        bool dependent = false;
        for (size_t y = 1; y < bs.size(); ++y) {
            dependent = dependent || conflict(*next, bs[y - 1]);
            if (!dependent) {
                ++commute;
                continue;
            }
            points.push_back({c, {{a, x}, {b, (long)y}, {a, -1}}});
            if (n > 2) {
                points.push_back({c, {{a, x}, {b, (long)y}, {3 - a - b, -1}}});
            }
        }
    }
    // quick: evenly spread
    if (!th) {
        std::map<int, std::vector<Point>> byCase;
        for (auto& p : points) {
            byCase[p.c].push_back(p);
        }
        points.clear();
        for (auto& x : byCase) {
            size_t stride = (x.second.size() + 159) / 160;
            for (size_t i = 0; i < x.second.size(); i += stride) {
                points.push_back(x.second[i]);
            }
        }
    }
    mc::addCounter("schedules_with_two_switches", points.size());
    mc::addCounter("schedules_equivalent_to_others", commute);
    mc::sweep("two-switches", points.size(), [&](mc::Ctx& ctx) {
        use(points[ctx.idx].c);
        scenario(ctx, all[points[ctx.idx].c], points[ctx.idx].s);
    });
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "Programs of 2 or 3 writing processes x layouts x all schedules with up to 2 preemptions, each before a file-system "
              "operation on what the processes share; afterwards listing and retrieval against the flush intervals.";
    e.extra["operations_by_case"] = "{" + lens.str() + "}";
    e.assumptions = {"operations on files only one process writes and none reads meanwhile commute with those of the others",
                     "each file-system operation is atomic"};
    return mc::finish(e);
}
