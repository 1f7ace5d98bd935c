// C13: moving a database preserves its contents.
//
// fdb-move itself (its main(), compiled in) is run in stored states x configurations: to completion, refused, dying at
// each file-system call that changes something, and with each call failing. What is then seen is compared with what was
// seen before; moving is repeated after what an interrupted move left has been removed; and the database is used again.
#define protected public  // (to end the check's eckit::Main before the tool makes its own)
#include "eckit/runtime/Main.h"
#undef protected

#include <sys/stat.h>

#include <algorithm>
#include <filesystem>
#include <sstream>

#include "faults.h"
#include "mc.h"
#include "world.h"

#define main fdb_move_main
#include "fdb5/tools/fdb-move.cc"
#undef main

using namespace fx;
namespace fs = std::filesystem;
using faults::Plan;
using CI = fdb5::ControlIdentifier;

namespace {

const char* namings[] = {"", "class,expver {expver}_{class}\n", "class=^od$,expver=^1$ special\n"};

struct Case {
    std::string program;
    bool subtocs   = false;
    bool destFirst = false;  ///< in the configuration, and by name
    bool keep      = false;
    bool upper     = false;  ///< the source's directory is spelled in upper case
    bool spaces    = false;  ///< the roots are in a file space that takes part of the databases
    int naming     = 0;
    int threads    = 1;
    // refusals
    std::string why;  ///< "": not to be refused
    std::string str() const {
        std::ostringstream s;
        s << program << (subtocs ? " subtocs" : "") << (destFirst ? " dest-first" : "") << (keep ? " keep" : "") << (upper ? " upper" : "")
          << (spaces ? " two spaces" : "") << " naming " << naming << " threads " << threads << (why.empty() ? "" : " refused: " + why);
        return s.str();
    }
};

struct Point {
    int c;
    Plan plan;
    std::string op;
};

const Universe& U() {
    return Universe::plain();
}
const std::string kDb = "class=od,expver=1";

struct World {
    const Case& c;
    Setup s;  ///< with both roots
    Setup b;  ///< with the source root only
    std::string data, src, dst, other;

    World(const Case& c, const std::string& dir) : c(c) {
        data = dir + "/data";
        src  = data + (c.destFirst ? "/y" : "/x");
        dst  = data + (c.destFirst ? "/x" : "/y");
        other = data + "/other";
        for (Setup* p : {&s, &b}) {
            p->dir     = dir;
            p->schema  = U().schema;
            p->subtocs = c.subtocs;
            p->resources["fdbDbNamesFile"] = dir + "/dbnames";
        }
        std::string head = "---\ntype: local\nengine: toc\nschema: " + dir + "/schema\nspaces:\n";
        b.configText     = head + "- handler: Default\n  roots:\n  - path: " + src + "\n";
        std::string d    = "  - { path: " + dst + (c.why == "wipe: false" ? ", wipe: false" : "") + " }\n";
        std::string r    = "  - { path: " + src + " }\n";
        std::string o    = "- handler: Default\n  roots:\n";
        s.configText     = head + (c.spaces ? "- handler: Default\n  regex: ^od.*\n  roots:\n" : o) + (c.destFirst ? d + r : r + d) +
                       (c.spaces ? o + "  - path: " + other + "\n" : "");
        if (c.why == "no such root") {
            s.configText = b.configText;
        }
    }
    void prepare() const {
        fs::create_directories(src);
        if (c.why != "missing") {
            fs::create_directories(dst);
        }
        fs::create_directories(other);
        writeFile(s.dir + "/schema", U().schema);
        writeFile(s.dir + "/dbnames", namings[c.naming]);
        writeFile(s.dir + "/config.yaml", s.configText);
        auto r = mc::runChild([&]() {
            b.apply();
            build(b, U(), c.program);
            return std::string();
        });
        if (!r.ok) {
            throw std::runtime_error("cannot be prepared: " + r.status() + r.log);
        }
        if (c.upper) {
            std::string up = name();
            std::transform(up.begin(), up.end(), up.begin(), ::toupper);
            fs::rename(src + "/" + name(), src + "/" + up);
        }
        if (c.why == "occupied") {
            fs::create_directories(dst + "/" + name());
        }
    }
    std::string name() const { return c.naming == 0 ? "od:1" : c.naming == 1 ? "1_od" : "special"; }
    std::string dir(const std::string& root) const {
        std::string up = name();
        std::transform(up.begin(), up.end(), up.begin(), ::toupper);
        return root + "/" + (c.upper ? up : name());
    }
};

/// fdb-move, in a process of its own; its exit status, and in `out` the calls it made
mc::Child move(const World& w, const Plan& plan, faults::Which which) {
    faults::fresh();
    return mc::runChild(
        [&]() {
            w.s.apply();
            std::vector<std::string> a = {"fdb-move", "--config=" + w.s.dir + "/config.yaml", "--raw", "--minimum-keys=class"};
            if (w.c.keep) {
                a.push_back("--keep");
            }
            if (w.c.threads > 1) {
                a.push_back("--threads=" + std::to_string(w.c.threads));
            }
            std::string dest = w.dst, req = kDb;
            const std::string& y = w.c.why;
            dest = y == "not configured" ? w.data : y == "same root" ? w.src : y == "file" ? w.dst + "/f" : dest;
            req  = y == "several databases" ? "class=od" : y == "no database" ? "class=od,expver=7" : y == "several values" ? "class=od,expver=1/12" : req;
            a.push_back("--dest=" + dest);
            a.push_back(req);
            if (y == "several requests") {
                a.push_back("class=odx,expver=1");
            }
            static std::vector<char*> v;
            for (auto& x : a) {
                v.push_back(strdup(x.c_str()));
            }
            v.push_back(nullptr);
            delete &eckit::Main::instance();
            faults::arm(w.data, plan, which);
            int rc = -1;
            try {
                rc = fdb_move_main((int)a.size(), v.data());
            }
            catch (std::exception& e) {
                rc = 1;
            }
            faults::disarm();
            return std::to_string(rc) + "\n" + faults::encode(faults::trace());
        },
        40);
}

/// Did it come to an end by itself, whether in success or failure?
bool ended(const mc::Child& r) {
    return r.ok || (!r.sig && !r.timeout);
}
int rcOf(const mc::Child& r) {
    return r.ok ? atoi(r.out.c_str()) : r.code;
}

struct View {
    std::multiset<std::string> full, dedup, got;
    std::set<std::string> dirs;  ///< directories data is read from
    std::set<std::string> full1() const { return {full.begin(), full.end()}; }
    std::vector<std::string> bad;
};
View look(const Setup& s) {
    View v;
    auto c = mc::runChild([&]() {
        s.apply();
        std::string out;
        fdb5::FDB fdb(s.config());
        for (Mode m : {Full, Dedup}) {
            try {
                for (auto& e : list(fdb, {}, m)) {
                    out += std::string(m == Full ? "F" : "D") + e.bytes + "\n" + "L" + fs::path(e.uri.substr(e.uri.find('/'))).parent_path().string() + "\n";
                    if (m == Dedup && std::to_string(U().find(e.key)) != e.bytes.substr(0, e.bytes.find(':'))) {
                        out += "Xother field's data: " + e.str() + "\n";
                    }
                }
            }
            catch (std::exception& e) {
                out += std::string("Xlisting fails: ") + e.what() + "\n";
            }
        }
        for (size_t f = 0; f < U().size(); ++f) {
            try {
                if (auto r = retrieve(fdb, U().all(f)); !r.empty()) {
                    out += "R" + r + "\n";
                }
            }
            catch (std::exception& e) {
                out += std::string("Xretrieval fails: ") + e.what() + "\n";
            }
        }
        return out;
    });
    if (!c.ok) {
        v.bad.push_back("reader fails: " + c.status() + c.log);
    }
    for (auto& l : mc::split(c.out, '\n')) {
        if (l.empty()) {
            continue;
        }
        std::string t = l.substr(1);
        switch (l[0]) {
            case 'F': v.full.insert(t); break;
            case 'D': v.dedup.insert(t); break;
            case 'R': v.got.insert(t); break;
            case 'L': v.dirs.insert(t); break;
            default: v.bad.push_back(t);
        }
    }
    return v;
}

/// Compare with the model; `copies`: entries of the moved database may (2) be there twice
void judge(mc::Ctx& ctx, const std::string& when, const std::string& tag, const View& v, const Model& m, int copies = 1) {
    for (auto& b : v.bad) {
        ctx.fail("damage " + when + tag, b);
    }
    std::multiset<std::string> all, dd;
    for (auto& e : m.all()) {
        all.insert(fv(e.first, e.second));
    }
    for (auto& e : m.visible()) {
        dd.insert(fv(e.first, e.second));
    }
    if (copies == 1 ? v.full != all : v.full1() != std::set<std::string>(all.begin(), all.end())) {
        ctx.fail("full listing differs " + when + tag, joinSet(v.full) + " instead of " + joinSet(all));
    }
    if (v.dedup != dd) {
        ctx.fail("listing differs " + when + tag, joinSet(v.dedup) + " instead of " + joinSet(dd));
    }
    if (v.got != dd) {
        ctx.fail("retrieval differs " + when + tag, joinSet(v.got) + " instead of " + joinSet(dd));
    }
}

bool lockFile(const std::string& p) {
    return p.size() > 5 && (p.substr(p.size() - 5) == ".lock" || fs::path(p).filename() == "duplicates.allow");
}

/// After a completed move: contents, places, and that the database can be used
void completed(mc::Ctx& ctx, const World& w, Model m, const std::string& when, const std::string& tag) {
    View v = look(w.s);
    judge(ctx, when, tag, v, m, w.c.keep ? 2 : 1);
    for (auto& p : tree(w.dst)) {
        if (lockFile(p.first)) {
            ctx.fail("the destination is locked " + when + tag, p.first);
        }
    }
    if (!fs::exists(w.dir(w.dst) + "/toc")) {
        ctx.fail("the destination is not there " + when + tag, "");
    }
    for (auto& e : fs::directory_iterator(w.dst)) {
        if (e.path() != w.dir(w.dst)) {
            ctx.fail("another directory is made " + when + tag, e.path());
        }
    }
    if (w.c.keep) {
        // the copy stands by itself
        fs::rename(w.dir(w.src), w.other + "/kept");
    }
    else if (fs::exists(w.dir(w.src))) {
        ctx.fail("the source is left " + when + tag, w.dir(w.src));
    }
    if (ctx.failed()) {
        return;
    }
    if (w.c.keep) {
        v = look(w.s);
        judge(ctx, "without the source, " + when, tag, v, m);
    }
    for (auto& d : v.dirs) {
        if (d == w.dir(w.src)) {
            ctx.fail("data are still read from the source " + when + tag, d);
        }
    }
    std::string prog = "A0 A2 A3 F A1 A5 F C";
    auto before      = contents(w.src);
    auto a           = mc::runChild([&]() {
        w.s.apply();
        build(w.s, U(), prog, m.nextVersion);
        return std::string();
    });
    if (!a.ok) {
        ctx.fail("archiving fails " + when + tag, a.status() + a.out + a.log);
        return;
    }
    effect(m, prog);
    judge(ctx, "after archiving " + when, tag, look(w.s), m);
    for (auto& kv : contents(w.src)) {
        if (kv.first.rfind(w.name() + "/", 0) == 0) {
            ctx.fail("archived into the source " + when + tag, kv.first);
        }
    }
    auto r = wipe(w.s, parseReq(kDb), true, false);
    if (!r.ok) {
        ctx.fail("wiping fails " + when + tag, r.out);
        return;
    }
    m.wipe(parseReq(kDb));
    judge(ctx, "after wiping " + when, tag, look(w.s), m);
    if (fs::exists(w.dir(w.dst))) {
        ctx.fail("files are left by a wipe " + when + tag, w.dir(w.dst));
    }
}

std::string kindOf(const std::string& path, const World& w) {
    fs::path p(path);
    std::string where = path.rfind(w.src, 0) == 0 ? "source " : path.rfind(w.dst, 0) == 0 ? "destination " : "";
    std::string n = p.filename(), e = p.extension();
    return where + (p.parent_path() == w.data ? "root" : p.parent_path().parent_path() == w.data ? "directory" : lockFile(n) ? n : e == ".data" ? "data file" : e == ".index" ? "index file" : n == "toc" ? "toc" : n.rfind("toc.", 0) == 0 ? "sub-toc" : n == "schema" ? n : "other file");
}

Model modelOf(const Case& c) {
    Model m;
    m.u       = &U();
    m.subtocs = c.subtocs;
    effect(m, c.program);
    return m;
}

void scenario(mc::Ctx& ctx, const Case& c, const Point* pt) {
    World w(c, ctx.dir);
    w.prepare();
    Model m      = modelOf(c);
    ctx.describe = c.str() + (pt ? "\n" + pt->plan.str() + " (" + pt->op + ")" : "");
    auto files0  = contents(w.data);
    // everything is under the name that is right for it
    if (!pt) {
        auto r = move(w, Plan{}, faults::ALL);
        if (!ended(r)) {
            ctx.fail("the process ends", r.status() + r.log);
            return;
        }
        if (c.why.empty()) {
            if (rcOf(r) != 0) {
                ctx.fail("the move fails", std::to_string(rcOf(r)) + " " + r.log);
                return;
            }
            completed(ctx, w, m, "after the move", "");
        }
        else {
            std::string tag = ": " + c.why;
            if (rcOf(r) == 0) {
                ctx.fail("the move is not refused" + tag, changes(files0, contents(w.data)));
                return;
            }
            for (auto& kv : contents(w.data)) {
                auto it = files0.find(kv.first);
                if (it == files0.end() ? !lockFile(kv.first) : it->second != kv.second) {
                    ctx.fail("a refused move changes files" + tag, kv.first);
                }
            }
            for (auto& kv : files0) {
                if (!fs::exists(w.data + "/" + kv.first)) {
                    ctx.fail("a refused move removes files" + tag, kv.first);
                }
            }
            judge(ctx, "after a refusal", tag, look(w.s), m);
            auto u = control(w.s, {}, true, CI::Archive | CI::Wipe | CI::UniqueRoot);
            if (!u.ok) {
                ctx.fail("unlocking fails" + tag, u.out);
            }
            auto d = changes(files0, contents(w.data));
            if (!d.empty()) {
                ctx.fail("changes remain once unlocked" + tag, d);
            }
        }
        ctx.distinct(c.str());
        ctx.sample(ctx.describe);
        return;
    }
    bool kill       = pt->plan.kind == Plan::CRASH || pt->plan.kind == Plan::TORN;
    std::string tag = std::string(": ") + (pt->plan.kind == Plan::CRASH ? "crash" : pt->plan.kind == Plan::TORN ? "torn write" : "failure") + " at " + pt->op +
                      (pt->plan.lose ? " (unsynchronised data lost)" : "");
    auto r   = move(w, pt->plan, kill ? faults::MUTATING : faults::DISK);
    bool hit = faults::shared()->struck;
    if (!hit) {
        ctx.count("not reached");
    }
    if (!kill && !ended(r)) {
        ctx.fail("the process ends" + tag, r.status() + r.log);
        return;
    }
    // whatever happened, everything is there
    judge(ctx, "at once", tag, look(w.s), m, 2);
    if (ctx.failed()) {
        return;
    }
    if (!kill && rcOf(r) == 0) {
        ctx.count("succeeded");
        completed(ctx, w, m, "after a move with a failure", tag);
    }
    else {
        ctx.count("interrupted");
        // remove what the move has left, and repeat it unless it got as far as removing the source
        if (fs::exists(w.dir(w.src) + "/toc")) {
            fs::remove_all(w.dir(w.dst));
            judge(ctx, "without the destination", tag, look(w.s), m);
            auto a = move(w, Plan{}, faults::ALL);
            if (!a.ok || rcOf(a) != 0) {
                ctx.fail("it fails when repeated" + tag, a.status() + a.log);
                return;
            }
        }
        else {
            if (c.keep) {
                ctx.fail("the source is gone though it was to be kept" + tag, "");
            }
            ctx.count("source removed in part");
            fs::remove_all(w.dir(w.src));
        }
        completed(ctx, w, m, "after repeating", tag);
    }
    ctx.distinct(std::to_string(pt->c) + pt->op + std::to_string(pt->plan.at) + std::to_string((int)pt->plan.kind));
    if (ctx.idx % 97 == 5) {
        ctx.sample(ctx.describe);
    }
}

const std::vector<std::string> programs = {"A0 A1 A2 A3 A5 F C", "A0 A4 F A1 F A0 A3 F C A2 F A0 F C", "A0 A2 A4 F C A0 A1 F C w1 A0 A5 F A2 F", "A3 A0 F A0 F A0 F C"};

std::vector<Case> plain() {
    std::vector<Case> out;
    bool th = mc::opts.thorough;
    int n   = 0;
    for (auto& p : programs) {
        for (int sub = 0; sub < 2; ++sub) {
            for (int first = 0; first < 2; ++first) {
                for (int keep = 0; keep < 2; ++keep) {
                    for (int up = 0; up < 2; ++up) {
                        for (int sp = 0; sp < 2; ++sp) {
                            for (int nm = 0; nm < 3; ++nm) {
                                if (++n, !th && n % 2 == 0 && n % 3 == 0) {
                                    continue;
                                }
                                Case c;
                                c.program   = p;
                                c.subtocs   = sub;
                                c.destFirst = first;
                                c.keep      = keep;
                                c.upper     = up;
                                c.spaces    = sp;
                                c.naming    = nm;
                                c.threads   = 1 + (n % 3);
                                out.push_back(c);
                            }
                        }
                    }
                }
            }
        }
    }
    return out;
}

std::vector<Case> refused() {
    std::vector<Case> out;
    for (const char* y : {"not configured", "no such root", "missing", "occupied", "wipe: false", "same root", "several databases", "no database", "several values", "several requests", "file"}) {
        for (int i = 0; i < 8; ++i) {
            Case c;
            c.program   = programs[1 + (i & 1)];
            c.subtocs   = i & 2;
            c.destFirst = i & 4;
            c.spaces    = (i & 1) && c.why != "no such root";
            c.naming    = (i + strlen(y)) % 3;
            c.why       = y;
            out.push_back(c);
        }
    }
    return out;
}

std::vector<Case> faulty() {
    std::vector<Case> out;
    for (int i = 0; i < (mc::opts.thorough ? 8 : 4); ++i) {
        Case c;
        c.program   = programs[(i + 1) % programs.size()];
        c.subtocs   = (i & 1) != (i >> 2);
        c.destFirst = i & 2;
        c.keep      = i == 3 || i == 6;
        c.naming    = i % 3;
        out.push_back(c);
    }
    return out;
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C13", 120, 3600);
    bool th  = mc::opts.thorough;
    auto all = plain();
    auto ref = refused();
    auto flt = faulty();
    mc::sweep("moves", all.size(), [&](mc::Ctx& ctx) { scenario(ctx, all[ctx.idx], nullptr); });
    mc::sweep("refusals", ref.size(), [&](mc::Ctx& ctx) { scenario(ctx, ref[ctx.idx], nullptr); });

    std::vector<Point> points;
    std::map<std::string, int> kinds;
    for (size_t i = 0; i < flt.size(); ++i) {
        for (int fail = 0; fail < 2; ++fail) {
            World w(flt[i], mc::scratch() + "/record" + std::to_string(i) + (fail ? "f" : "c"));
            fs::create_directories(w.s.dir);
            w.prepare();
            auto r = move(w, Plan{}, fail ? faults::DISK : faults::MUTATING);
            if (rcOf(r) != 0) {
                mc::violation("the move fails", flt[i].str() + ": " + r.status() + r.log);
                continue;
            }
            auto t = faults::decode(r.out.substr(r.out.find('\n') + 1));
            mc::addCounter("operations recorded", t.size());
            for (size_t k = 0; k < t.size(); ++k) {
                std::string what = std::string(shim::opName(t[k].op)) + " of " + kindOf(t[k].path, w);
                auto add         = [&](Plan::Kind kind, size_t len, int lose, int err, bool sticky) {
                    Plan p;
                    p.kind   = kind;
                    p.at     = k;
                    p.len    = len;
                    p.lose   = lose;
                    p.err    = err;
                    p.sticky = sticky;
                    points.push_back({(int)i, p, what});
                    kinds[what]++;
                };
                if (fail) {
                    if (t[k].op == shim::LOCK) {
                        continue;
                    }
                    if (th || (k + i) % 2 == 0 || t[k].op == shim::UNLINK || t[k].op == shim::RMDIR || t[k].op == shim::WRITE) {
                        add(Plan::FAIL, 0, 0, EIO, th || k % 3 == 0);
                    }
                }
                else {
                    add(Plan::CRASH, 0, 0, 0, false);
                    if (th || k % 2 == i % 2) {
                        add(Plan::CRASH, 0, -1, 0, false);
                    }
                    if (t[k].op == shim::WRITE && t[k].len > 1) {
                        for (size_t len : th ? std::vector<size_t>{1, 12, t[k].len / 2, t[k].len - 1} : std::vector<size_t>{t[k].len / 2}) {
                            add(Plan::TORN, len, 0, 0, false);
                        }
                    }
                }
            }
        }
    }
    mc::sweep("points", points.size(), [&](mc::Ctx& ctx) { scenario(ctx, flt[points[ctx.idx].c], &points[ctx.idx]); });
    std::ostringstream o;
    o << "{";
    for (auto& k : kinds) {
        o << (o.str().size() > 1 ? ", " : "") << mc::jsonString(k.first) << ": " << k.second;
    }
    o << "}";
    mc::Evidence e;
    e.level = "fault_enumeration";
    e.rule  = "Stored states x configurations of the roots x naming rules x options of fdb-move, to completion; moves that are to be "
              "refused; and one execution for each file-system call of a move: dying before it, (writes) part-way through it, with "
              "unsynchronised data lost; or with the call failing (once, or from then on).";
    e.extra["calls_by_kind"] = o.str();
    e.assumptions            = {"directory operations are durable in order", "nothing else uses the database while it is moved"};
    return mc::finish(e);
}
