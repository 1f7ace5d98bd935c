// C26: an interrupted or failing wipe or purge leaves a consistent, repairable database.
//
// A confirmed wipe or purge of a stored state is run once to record its file-system calls; then once for each of them,
// dying before it (or part-way through a write, or with the loss of what was not synchronised), or with the call failing.
// Each time: what is seen at once, and after clearing the locks it left; then the same operation again, which must
// complete; then everything is archived again.
#include <algorithm>
#include <sstream>

#include "fdb5/api/helpers/PurgeIterator.h"

#include "faults.h"
#include "mc.h"
#include "world.h"

using namespace fx;
using CI = fdb5::ControlIdentifier;
using faults::Plan;

namespace {

struct Case {
    Setup setup;
    const Universe* u;
    std::string program;
    Req r;
    bool purge;
    int unsafe = 0;  ///< wipe: with unknown files (1: in the catalogue, 2: also in the store), and told to remove them
    std::string str() const { return setup.describe() + "\n" + program + "\n" + (purge ? "purge " : unsafe ? "unsafe wipe " : "wipe ") + fx::str(r); }
};

struct Point {
    int c;
    Plan plan;
    std::string op;
};

const fdb5::ControlIdentifiers cleared = CI::List | CI::Retrieve | CI::Archive;

void prepare(const Case& c, const Setup& s) {
    s.apply();
    build(s, *c.u, c.program);
    if (c.unsafe) {
        Model m;
        m.u = c.u;
        effect(m, c.program);
        for (auto& db : m.dbs()) {
            writeFile(s.root() + "/" + dirOf(db) + "/notes.txt", "x");
            if (c.unsafe > 1) {
                writeFile(s.storeRoot() + "/" + dirOf(db) + "/foreign.data", "x");
            }
        }
    }
}

/// The operation, in this process. "" if it succeeds, else what it reports
std::string operate(const Case& c, const Setup& s) {
    try {
        fdb5::FDB fdb(s.config());
        if (c.purge) {
            auto it = fdb.purge(tool(c.r), true, false);
            fdb5::PurgeElement e;
            while (it.next(e)) {
            }
        }
        else {
            auto it = fdb.wipe(tool(c.r), true, false, c.unsafe);
            fdb5::WipeElement e;
            while (it.next(e)) {
            }
        }
    }
    catch (std::exception& e) {
        return std::string("reported: ") + e.what();
    }
    return "";
}

std::string kindOf(const std::string& path, const Setup& s) {
    std::string p = path;
    if (p == s.root() || p == s.storeRoot()) {
        return "root";
    }
    for (auto& r : {s.root(), s.storeRoot()}) {
        if (p.rfind(r + "/", 0) == 0) {
            p = p.substr(r.size() + 1);
            auto sl = p.find('/');
            if (sl == std::string::npos) {
                return r == s.root() ? "database directory" : "store directory";
            }
            p = p.substr(sl + 1);
            auto ends = [&](const char* e) { return p.size() >= strlen(e) && p.substr(p.size() - strlen(e)) == e; };
            return ends(".data") ? "data file" : ends(".index") ? "index file" : ends(".lock") ? p : p == "toc" ? "toc" : p.rfind("toc.", 0) == 0 ? "sub-toc" : p;
        }
    }
    return "other file";
}

/// What is seen: full listing entries "f:v", the de-duplicated one, and retrievals; anything wrong in `bad`
struct View {
    std::set<std::string> full, dedup, got;
    std::vector<std::string> bad;
};
View look(const Setup& s, const Universe& u) {
    View v;
    auto c = mc::runChild([&]() {
        s.apply();
        std::string out;
        fdb5::FDB fdb(s.config());
        auto part = [&](const char* tag, Mode mode) {
            try {
                for (auto& e : listing(fdb, u, {}, mode)) {
                    out += tag + e + "\n";
                }
            }
            catch (std::exception& e) {
                out += std::string("X") + tag + " listing fails: " + e.what() + "\n";
            }
        };
        part("F", Full);
        part("D", Dedup);
        for (size_t f = 0; f < u.size(); ++f) {
            try {
                auto r = retrieve(fdb, u.all(f));
                if (!r.empty()) {
                    int g, n;
                    if (sscanf(r.c_str(), "%d:%d", &g, &n) == 2 && r == fv(g, n) && u.fallback.count(f) && u.fallback.at(f) == g) {
                        continue;  // (an optional keyword ignored)
                    }
                    out += (r.rfind(std::to_string(f) + ":", 0) == 0 && r.find('+') == std::string::npos ? "R" : "R!" + std::to_string(f) + " gives ") + r + "\n";
                }
            }
            catch (std::exception& e) {
                out += "XR" + std::to_string(f) + " " + e.what() + "\n";
            }
        }
        return out;
    });
    if (!c.ok) {
        v.bad.push_back("reader fails: " + c.status() + c.log);
        return v;
    }
    for (auto& l : mc::split(c.out, '\n')) {
        if (l.empty()) {
            continue;
        }
        if (l[0] == 'X' || l.find('!') == 1) {
            v.bad.push_back(l);
        }
        else {
            (l[0] == 'F' ? v.full : l[0] == 'D' ? v.dedup : v.got).insert(l.substr(1));
        }
    }
    return v;
}

std::set<std::string> texts(const std::vector<std::pair<int, int>>& v) {
    std::set<std::string> r;
    for (auto& e : v) {
        r.insert(fv(e.first, e.second));
    }
    return r;
}
int fieldOf(const std::string& e) {
    return atoi(e.c_str());
}

/// Compare a view with what there must be and may be. `may` tells the fields which may be there in part; hidden those
/// which need not be seen for the moment
void fail(mc::Ctx& ctx, const std::string& what, const std::string& tag, const std::string& detail) {
    if (tag[0] == '\t') {
        ctx.fail("the database is damaged" + tag.substr(1), what + ": " + detail);
    }
    else {
        ctx.fail(what + tag, detail);
    }
}

void judge(mc::Ctx& ctx, const std::string& when, const std::string& tag, const View& v, const Model& before, const Model& after,
           const std::function<bool(int)>& exact) {
    auto all   = texts(before.all());
    auto least = texts(after.all());
    for (auto& b : v.bad) {
        fail(ctx, "damage seen " + when, tag, b);
    }
    for (auto& e : v.full) {
        if (!all.count(e)) {
            fail(ctx, "unknown entry " + when, tag, e);
        }
    }
    for (auto& e : least) {
        if (exact(fieldOf(e)) && !v.full.count(e)) {
            fail(ctx, "entry lost " + when, tag, e + " not among " + joinSet(v.full));
        }
    }
    // the latest version: that of the model for what is out of scope, and the latest listed for the rest
    std::map<int, int> latest, retrieved;
    for (auto& e : v.full) {
        int f, n;
        sscanf(e.c_str(), "%d:%d", &f, &n);
        latest[f] = std::max(latest[f], n);
    }
    for (auto& x : after.visible()) {
        if (exact(x.first)) {
            latest[x.first] = x.second;
        }
    }
    std::set<std::string> want;
    for (auto& x : latest) {
        want.insert(fv(x.first, x.second));
    }
    if (v.dedup != want) {
        fail(ctx, "listing differs " + when, tag, joinSet(v.dedup) + " instead of " + joinSet(want));
    }
    std::set<std::string> got, ex;
    for (auto& e : v.got) {
        if (exact(fieldOf(e))) {
            got.insert(e);
        }
        else if (!all.count(e)) {
            fail(ctx, "unknown data retrieved " + when, tag, e);
        }
    }
    for (auto& e : want) {
        if (exact(fieldOf(e))) {
            ex.insert(e);
        }
    }
    if (got != ex) {
        fail(ctx, "retrieval differs " + when, tag, joinSet(got) + " instead of " + joinSet(ex));
    }
}

/// Files there should not be after the operation has been completed
std::string leftovers(const Case& c, const Setup& s, const std::map<std::string, std::string>& now, const std::set<std::string>& gone,
                      const std::set<std::string>& goneIdx, bool strict, bool lenient = true) {
    std::string bad;
    for (auto& kv : now) {
        std::string p = kv.first.rfind("store/", 0) == 0 ? kv.first.substr(6) : kv.first;
        auto sl       = p.find('/');
        std::string dir = p.substr(0, sl), base = sl == std::string::npos ? "" : p.substr(sl + 1);
        for (auto& g : gone) {
            // (what is left when it stops within its last steps does no harm: an empty directory, with its schema)
            if (dir == dirOf(g) && !(lenient && (base.empty() || base == "schema"))) {
                bad += " " + kv.first;
            }
        }
        if (strict && !base.empty()) {
            for (auto& g : goneIdx) {
                auto want = mc::split(dirOf(g.substr(g.find('|') + 1)), ':');
                auto name = mc::split(base.substr(0, base.find('.')), ':');
                std::sort(want.begin(), want.end());
                std::sort(name.begin(), name.end());
                bool data = base.size() > 5 && base.substr(base.size() - 5) == ".data";
                if (dirOf(g.substr(0, g.find('|'))) == dir && want == name && (data || !s.subtocs)) {
                    bad += " " + kv.first;
                }
            }
        }
    }
    return bad;
}

mc::Child attempt(const Case& c, const Setup& s, const Plan& plan, faults::Which which, std::map<std::string, std::string>* before = nullptr) {
    faults::fresh();
    auto b = mc::runChild([&]() {
        prepare(c, s);
        return std::string();
    });
    if (!b.ok) {
        return b;
    }
    if (before) {
        *before = files(s);
    }
    return mc::runChild([&]() {
        s.apply();
        faults::arm(s.dir, plan, which);
        auto r = operate(c, s);
        auto t = faults::encode(faults::trace());
        if (plan.kind == Plan::NONE) {
            return r.empty() ? t : "!" + r;
        }
        return r;
    }, 30);
}

void scenario(mc::Ctx& ctx, const Case& c, const Point& pt) {
    Setup s = c.setup;
    s.dir   = ctx.dir;
    s.create();
    ctx.describe    = c.str() + "\n" + pt.plan.str() + " (" + pt.op + ")";
    std::string tag = std::string(": ") + (c.purge ? "purge" : c.unsafe ? "unsafe wipe" : "wipe") + ", " +
                      (pt.plan.kind == Plan::CRASH ? "crash" : pt.plan.kind == Plan::TORN ? "torn write" : "failure") + " at " + pt.op +
                      (pt.plan.lose ? " (unsynchronised data lost)" : "");
    Model m;
    m.u       = c.u;
    m.subtocs = s.subtocs;
    effect(m, c.program);
    Model m1 = m;
    std::set<std::string> gone, goneIdx;
    if (c.purge) {
        if (!s.separateStore) {
            m1.purge(c.r);
        }
    }
    else {
        m1.wipe(c.r, gone, goneIdx);
    }
    if (pt.plan.kind == Plan::TORN && (pt.op == "write of toc" || pt.op == "write of sub-toc")) {
        // one thing whatever shows it (see C02)
        tag = "\t" + tag;
    }
    auto touched = [&](int f) { return m.dbMatches(c.u->db(f), c.r); };
    auto outside = [&](int f) { return c.purge || !goneIdx.count(c.u->index(f)); };

    bool kill = pt.plan.kind == Plan::CRASH || pt.plan.kind == Plan::TORN;
    std::map<std::string, std::string> before;
    auto o    = attempt(c, s, pt.plan, pt.plan.kind == Plan::FAIL ? faults::DISK : faults::MUTATING, &before);
    bool hit  = faults::shared()->struck;
    if (pt.plan.kind == Plan::FAIL && (pt.op == "open of toc" || pt.op == "read of toc") && !c.purge && o.ok && o.out.empty() &&
        changes(before, files(s)).empty()) {
        ctx.fail("database left out: wipe: " + pt.op, "nothing is wiped, and success is reported");
        return;
    }
    if (!hit) {
        // the end, or (if threads read in another order) not reached
        ctx.count("not reached");
    }
    if (!kill && !o.ok) {
        fail(ctx, "the process ends", tag, o.status() + o.log);
        return;
    }
    bool reported = kill || !o.out.empty();
    if (reported && !kill) {
        ctx.count("failures reported");
    }
    // at once: databases not concerned are as before; in the others nothing is damaged
    {
        // (a locked database may be hidden)
        View v       = look(s, *c.u);
        Model hidden = m1;
        judge(ctx, "at once", tag, v, m, m1, [&](int f) { return !touched(f) || (c.purge && outside(f)) || (!reported && outside(f)); });
    }
    if (ctx.failed()) {
        return;
    }
    // after clearing the locks
    if (reported) {
        auto r = control(s, {}, true, cleared);
        if (!r.ok) {
            fail(ctx, "control fails", tag, r.out);
            return;
        }
        judge(ctx, "after clearing locks", tag, look(s, *c.u), m, m1, outside);
    }
    else {
        // it says it is done
        for (auto& x : mc::split(statusOf(s), ' ')) {
            if (x.find('-') != std::string::npos) {
                fail(ctx, "locks left though success is reported", tag, x);
            }
        }
        auto w = texts(m1.all());
        auto v = look(s, *c.u);
        if (v.full != w && !c.purge) {
            fail(ctx, "incomplete though success is reported", tag, joinSet(v.full) + " instead of " + joinSet(w));
        }
        if (auto l = leftovers(c, s, files(s), gone, goneIdx, false, false); !l.empty()) {
            fail(ctx, "files left though success is reported", tag, l);
        }
    }
    if (ctx.failed()) {
        return;
    }
    // again
    auto again = mc::runChild([&]() {
        s.apply();
        return operate(c, s);
    });
    if (!again.ok || !again.out.empty()) {
        fail(ctx, "it fails when repeated", tag, again.status() + again.out + again.log);
        return;
    }
    auto f = files(s);
    if (auto l = leftovers(c, s, f, gone, goneIdx, false); !l.empty()) {
        if (pt.op == "unlink of archive.lock" && l.find(' ', 1) == std::string::npos && l.find("/archive.lock") != std::string::npos) {
            ctx.fail("archive.lock is left once the toc is gone", l);
            return;
        }
        fail(ctx, "files left after repeating", tag, l);
    }
    if (auto l = leftovers(c, s, f, gone, goneIdx, true); !l.empty()) {
        ctx.count("orphaned files left to a purge");
        if (!s.separateStore) {
            Case p  = c;
            p.purge = true;
            p.r     = {c.r[0], c.r[1]};
            auto o  = mc::runChild([&]() {
                s.apply();
                return operate(p, s);
            });
            if (!o.ok || !o.out.empty()) {
                fail(ctx, "a purge after it fails", tag, o.status() + o.out + o.log);
            }
            m1.purge(p.r);
            if (auto k = leftovers(c, s, files(s), gone, goneIdx, true); !k.empty()) {
                fail(ctx, "files left after a purge", tag, k);
            }
        }
    }
    View v = look(s, *c.u);
    judge(ctx, "after repeating", tag, v, m1, m1, [](int) { return true; });
    if (auto w = texts(m1.all()); v.full != w) {
        fail(ctx, "incomplete after repeating", tag, joinSet(v.full) + " instead of " + joinSet(w));
    }
    if (c.purge && !s.separateStore) {
        auto fs = files(s);
        size_t n = 0;
        for (auto& kv : fs) {
            n += kv.first.size() > 6 && kv.first.substr(kv.first.size() - 6) == ".index";
        }
        if (c.r.empty() && !s.subtocs && n != m1.indexFiles().size()) {
            fail(ctx, "index files left after repeating a purge", tag, std::to_string(n) + " instead of " + std::to_string(m1.indexFiles().size()));
        }
    }
    // and the databases can be used
    std::string prog;
    for (size_t i = 0; i < c.u->size(); ++i) {
        prog += "A" + std::to_string(i) + " ";
    }
    int first = m1.nextVersion;
    auto a    = mc::runChild([&]() {
        s.apply();
        build(s, *c.u, prog, first);
        return std::string();
    });
    if (!a.ok) {
        fail(ctx, "archiving again fails", tag, a.status() + a.out + a.log);
        return;
    }
    effect(m1, prog);
    judge(ctx, "after archiving again", tag, look(s, *c.u), m1, m1, [](int) { return true; });
    ctx.distinct(std::to_string(pt.c) + pt.op + std::to_string(reported) + joinSet(v.full) + std::to_string(pt.plan.at));
    if (ctx.idx % 301 == 5) {
        ctx.sample(ctx.describe);
    }
}

std::vector<Case> cases() {
    std::vector<Case> out;
    bool th = mc::opts.thorough;
    std::vector<Setup> setups(3);
    setups[1].subtocs       = true;
    setups[2].separateStore = true;
    const std::vector<std::string> programs = {"A0 A1 A2 F A0 A3 F C", "A0 A2 F C A0 A1 A2 F C", "A0 F A2 F A0 F A4 C"};
    struct Op {
        const char* r;
        bool purge;
        int unsafe;
    };
    const std::vector<Op> ops = {{"class=od,expver=1", false, 0}, {"class=od,expver=1,type=an", false, 0}, {"", true, 0},
                                 {"class=od,expver=1", false, 2}, {"class=odx", false, 0}, {"class=od,expver=1", true, 0}, {"class=od,expver=1,type=an", false, 1}};
    for (size_t p = 0; p < programs.size(); ++p) {
        for (size_t o = 0; o < ops.size(); ++o) {
            for (size_t l = 0; l < setups.size(); ++l) {
                if (!th && (ops[o].purge && l == 2)) {
                    continue;  // (known finding of C11: does nothing)
                }
                if (!th && (p + o + l) % 2 != 0) {
                    continue;
                }
                Case c;
                c.setup        = setups[l];
                c.u            = &Universe::plain();
                c.setup.schema = c.u->schema;
                c.program      = programs[p];
                c.r            = parseReq(ops[o].r);
                c.purge        = ops[o].purge;
                c.unsafe       = ops[o].unsafe;
                out.push_back(c);
            }
        }
    }
    return out;
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C26", 120, 3600);
    bool th  = mc::opts.thorough;
    auto all = cases();
    std::vector<Point> points;
    std::map<std::string, int> kinds;
    for (size_t i = 0; i < all.size(); ++i) {
        for (int fail = 0; fail < 2; ++fail) {
            Setup s = all[i].setup;
            s.dir   = mc::scratch() + "/record" + std::to_string(i) + (fail ? "f" : "c");
            s.create();
            auto r = attempt(all[i], s, Plan{}, fail ? faults::DISK : faults::MUTATING);
            if (!r.ok || r.out[0] == '!') {
                mc::violation("operation fails", all[i].str() + ": " + r.status() + r.out + r.log);
                continue;
            }
            auto t = faults::decode(r.out);
            mc::addCounter("operations recorded", t.size());
            for (size_t k = 0; k < t.size(); ++k) {
                std::string what = std::string(shim::opName(t[k].op)) + " of " + kindOf(t[k].path, s);
                auto add         = [&](Plan::Kind kind, size_t len, int lose, int err, bool sticky) {
                    Plan p;
                    p.kind   = kind;
                    p.at     = k;
                    p.len    = len;
                    p.lose   = lose;
                    p.err    = err;
                    p.sticky = sticky;
                    points.push_back({(int)i, p, what});
                    kinds[what]++;
                };
                if (fail) {
                    if (t[k].op == shim::LOCK) {
                        continue;
                    }
                    if (th || (k + i) % 2 == 0 || t[k].op == shim::UNLINK || t[k].op == shim::RMDIR || t[k].op == shim::WRITE) {
                        add(Plan::FAIL, 0, 0, EIO, th || k % 3 == 0);
                    }
                    if (th) {
                        add(Plan::FAIL, 0, 0, EACCES, false);
                    }
                }
                else {
                    add(Plan::CRASH, 0, 0, 0, false);
                    if (th || k % 4 == i % 4) {
                        add(Plan::CRASH, 0, -1, 0, false);
                    }
                    if (t[k].op == shim::WRITE && t[k].len > 1) {
                        for (size_t len : th ? std::vector<size_t>{1, 12, t[k].len / 2, t[k].len - 1} : std::vector<size_t>{t[k].len / 2}) {
                            add(Plan::TORN, len, 0, 0, false);
                        }
                    }
                }
            }
        }
    }
    mc::sweep("points", points.size(), [&](mc::Ctx& ctx) { scenario(ctx, all[points[ctx.idx].c], points[ctx.idx]); });
    std::ostringstream o;
    o << "{";
    for (auto& k : kinds) {
        o << (o.str().size() > 1 ? ", " : "") << mc::jsonString(k.first) << ": " << k.second;
    }
    o << "}";
    mc::Evidence e;
    e.level = "fault_enumeration";
    e.rule  = "One execution for each file-system call of each wipe or purge of each stored state and layout: dying before it, "
              "(writes) part-way through it, with unsynchronised data lost; or with the call failing (once, or from then on).";
    e.extra["calls_by_kind"] = o.str();
    e.assumptions            = {"directory operations are durable in order", "nothing else uses the database",
                                "files whose index entries are masked may be left to a purge"};
    return mc::finish(e);
}
