// C14: catalogue maintenance changes visibility exactly as documented.
//
// fdb-hide, fdb-overlay, fdb-reconsolidate-toc and fdb-reindex themselves (their main(), compiled in) in all sequences, up
// to a depth, of archivals and maintenance of three databases and of a second FDB the first is re-indexed into. What is
// then listed and retrieved is compared with a reference model of visibility, and databases that an operation does not
// concern have to stay as they are, byte for byte.
#define protected public  // (to end the check's eckit::Main before a tool makes its own)
#include "eckit/runtime/Main.h"
#undef protected

#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <csignal>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "eccodes.h"
#include "eckit/io/MemoryHandle.h"
#include "fdb5/database/FieldLocation.h"

#include "fx.h"
#include "mc.h"

#define main fdb_hide_main
#include "fdb5/tools/fdb-hide.cc"
#undef main
#define main fdb_overlay_main
#include "fdb5/tools/fdb-overlay.cc"
#undef main
#define main fdb_reconsolidate_main
#include "fdb5/tools/fdb-reconsolidate-toc.cc"
#undef main
#define main fdb_reindex_main
#include "fdb5/tools/fdb-reindex.cc"
#undef main

using namespace fx;
namespace fs = std::filesystem;

namespace {

//--------------------------------------------------------------------------------------------------------------- universe

constexpr int N = 3;
const char* kClass[N]  = {"od", "od", "rd"};
const char* kExpver[N] = {"0001", "0002", "0001"};
const char* kSchema    = "[ class, expver [ type [ step ]]]\n";

/// What is archived: field number within a database
struct F {
    const char* type;
    const char* step;
};
const F kF[]      = {{"an", "0"}, {"an", "6"}, {"fc", "0"}};
constexpr int NF  = 3;

std::string grib(int db, int f, int version) {
    static std::map<std::array<int, 3>, std::string> cache;
    auto& s = cache[{db, f, version}];
    if (!s.empty()) {
        return s;
    }
    codes_handle* h = codes_grib_handle_new_from_samples(nullptr, "regular_ll_sfc_grib1");
    if (!h) {
        throw eckit::SeriousBug("no GRIB sample");
    }
    auto ck = [](int rc) {
        if (rc) {
            throw eckit::SeriousBug(std::string("eccodes: ") + codes_get_error_message(rc));
        }
    };
    auto set = [&](const char* k, const std::string& v) {
        size_t n = v.size();
        ck(codes_set_string(h, k, v.c_str(), &n));
    };
    ck(codes_set_long(h, "setLocalDefinition", 1));
    ck(codes_set_long(h, "localDefinitionNumber", 1));
    set("type", kF[f].type);
    set("stream", "oper");
    set("class", kClass[db]);
    set("expver", kExpver[db]);
    ck(codes_set_long(h, "step", atoi(kF[f].step)));
    ck(codes_set_long(h, "Ni", 2 + f));
    ck(codes_set_long(h, "Nj", 1 + version));
    std::vector<double> v((2 + f) * (1 + version));
    for (size_t i = 0; i < v.size(); ++i) {
        v[i] = version * 64 + f * 16 + int(i);
    }
    ck(codes_set_long(h, "bitsPerValue", 16));
    ck(codes_set_double_array(h, "values", v.data(), v.size()));
    const void* p = nullptr;
    size_t n      = 0;
    ck(codes_get_message(h, &p, &n));
    s.assign(static_cast<const char*>(p), n);
    codes_handle_delete(h);
    return s;
}

/// Which message is this: "db.f.v", the version being that in the database it was archived to
constexpr int maxVersion = 8;
std::string which(const std::string& bytes) {
    static std::map<std::string, std::string> known;
    if (known.empty()) {
        for (int d = 0; d < N; ++d) {
            for (int f = 0; f < NF; ++f) {
                for (int v = 1; v <= maxVersion; ++v) {
                    std::ostringstream o;
                    o << d << "." << f << "." << v;
                    known[grib(d, f, v)] = o.str();
                }
            }
        }
    }
    if (bytes.empty()) {
        return "-";
    }
    auto i = known.find(bytes);
    return i == known.end() ? "damaged(" + std::to_string(bytes.size()) + " bytes)" : i->second;
}

KV field(int db, int f) {
    return {{"class", kClass[db]}, {"expver", kExpver[db]}, {"type", kF[f].type}, {"step", kF[f].step}};
}
std::string dbReq(int db) {
    return std::string("class=") + kClass[db] + ",expver=" + kExpver[db];
}
std::string dbDir(int db) {
    return std::string(kClass[db]) + ":" + kExpver[db];
}

//------------------------------------------------------------------------------------------------------------- operations

struct Op {
    char kind;  ///< Archive, Hide, Mount, Unmount, Reconsolidate, X: re-index
    int db;     ///< concerned
    int arg;    ///< fields (mask), or database to be mounted
    const char* name;
};
const std::vector<Op> kOps = {
    {'A', 0, 3, "A0"},  {'A', 0, 1, "B0"},  {'A', 1, 5, "A1"},  {'A', 2, 1, "A2"},  {'H', 0, 0, "H0"},
    {'H', 1, 0, "H1"},  {'M', 0, 1, "M10"}, {'M', 0, 2, "M20"}, {'M', 1, 2, "M21"}, {'U', 0, 1, "U10"},
    {'U', 0, 2, "U20"}, {'R', 0, 0, "R0"},  {'R', 1, 0, "R1"},  {'X', 0, 0, "X0"},
    {'W', 0, 0, "W0"},  {'W', 1, 0, "W1"},  {'P', 0, 0, "P0"},
};

/// Reference model. Fields are named by what their message is: version numbers count archivals over the whole sequence.
struct Model {
    struct Rec {
        int mount;                 ///< database, or -1
        std::map<int, int> fields; ///< field -> version
        bool masked;
    };
    std::vector<Rec> recs[N];
    bool exists[N] = {};
    std::set<std::pair<int, int>> mounted;
    int version = 0;
    std::map<std::string, std::string> sink;                ///< field (of D0) -> message of the newest
    std::map<std::string, std::set<std::string>> sinkAll;

    /// field -> messages, newest first; the messages named by the database they come from
    std::map<int, std::vector<std::string>> visible(int db) const {
        std::map<int, std::vector<std::string>> v;
        for (auto r = recs[db].rbegin(); r != recs[db].rend(); ++r) {
            if (r->masked) {
                continue;
            }
            if (r->mount >= 0) {
                for (auto& [f, ms] : visible(r->mount)) {
                    v[f].insert(v[f].end(), ms.begin(), ms.end());
                }
            }
            else {
                for (auto& [f, ver] : r->fields) {
                    v[f].push_back(std::to_string(db) + "." + std::to_string(f) + "." + std::to_string(ver));
                }
            }
        }
        return v;
    }
    bool mountedNow(int db, int src) const {
        for (auto& r : recs[db]) {
            if (!r.masked && r.mount == src) {
                return true;
            }
        }
        return false;
    }
    bool loops(int db, int src) const {
        if (db == src) {
            return true;
        }
        for (auto& r : recs[src]) {
            if (r.mount >= 0 && loops(db, r.mount)) {
                return true;
            }
        }
        return false;
    }
    enum Verdict { Done, Refused, Either, Skip };
    /// Skip: the sequence is not one that is documented to work
    Verdict apply(const Op& o) {
        switch (o.kind) {
            case 'A': {
                Rec r{-1, {}, false};
                ++version;
                for (int f = 0; f < NF; ++f) {
                    if (o.arg & (1 << f)) {
                        r.fields[f] = version;
                    }
                }
                recs[o.db].push_back(r);
                exists[o.db] = true;
                return Done;
            }
            case 'H':
                if (!exists[o.db]) {
                    return Refused;
                }
                for (auto& r : recs[o.db]) {
                    r.masked = true;
                }
                return Done;
            case 'M':
                if (mounted.count({o.db, o.arg}) || loops(o.db, o.arg)) {
                    return Skip;  // "cannot be used repeatedly", "once removed, it cannot be reapplied"
                }
                if (!exists[o.arg]) {
                    return Refused;
                }
                mounted.insert({o.db, o.arg});
                recs[o.db].push_back({o.arg, {}, false});
                exists[o.db] = true;
                return Done;
            case 'U': {
                if (!exists[o.db] || !exists[o.arg] || !mountedNow(o.db, o.arg)) {
                    return Refused;
                }
                // A database that shows nothing is not recognised as mounted, at present
                bool nothing = visible(o.arg).empty();
                if (nothing) {
                    return Either;
                }
                unmount(o);
                return Done;
            }
            case 'R':
                if (!exists[o.db]) {
                    return Refused;
                }
                for (auto& r : recs[o.db]) {
                    if (!r.masked && r.mount >= 0) {
                        return Either;
                    }
                }
                return Done;
            case 'P':
                return exists[o.db] && sink.empty() ? Done : Skip;
            case 'W':
                if (!exists[o.db] || !sink.empty()) {
                    return Skip;  // (the FDB re-indexed into refers to the data)
                }
                for (auto& r : recs[o.db]) {
                    if (!r.masked && r.mount >= 0) {
                        return Either;
                    }
                }
                wipe(o);
                return Done;
            case 'X':
                for (auto& [f, ms] : visible(0)) {
                    sink[str(field(0, f))] = ms.front();
                    sinkAll[str(field(0, f))].insert(ms.front());
                }
                return Done;
        }
        return Skip;
    }
    void unmount(const Op& o) {
        for (auto& r : recs[o.db]) {
            if (r.mount == o.arg) {
                r.masked = true;
            }
        }
    }
    void wipe(const Op& o) {
        recs[o.db].clear();
        exists[o.db] = false;
        for (int s = 0; s < N; ++s) {
            mounted.erase({o.db, s});
        }
    }
    bool mounts(int db) const {
        return std::any_of(recs[db].begin(), recs[db].end(), [](auto& r) { return r.mount >= 0; });
    }
};

//-------------------------------------------------------------------------------------------------------------- execution

struct World {
    Setup s, x;
    World(const std::string& dir, bool subtocs) {
        s.dir     = dir;
        s.schema  = kSchema;
        s.subtocs = subtocs;
        x         = s;
        x.dir     = dir + "/sink";
    }
    void create() const {
        s.create();
        x.create();
        for (const Setup* p : {&s, &x}) {
            writeFile(p->dir + "/config.yaml", p->text());
        }
    }
};

using Main = int (*)(int, char**);
int runTool(Main m, const std::vector<std::string>& args) {
    auto c = mc::runChild(
        [&]() {
            std::vector<char*> v;
            for (auto& a : args) {
                v.push_back(strdup(a.c_str()));
            }
            v.push_back(nullptr);
            delete &eckit::Main::instance();
            return std::to_string(m((int)args.size(), v.data()));
        },
        40);
    if (getenv("C14_LOG")) {
        std::ofstream(getenv("C14_LOG"), std::ios::app) << c.status() << " " << c.out << " " << c.log << std::endl;
    }
    if (c.ok) {
        return atoi(c.out.c_str()) ? 1 : 0;
    }
    return c.timeout ? 127 : c.sig ? 128 + c.sig : 1;
}

/// Runs the tools, each in a process of its own, descending from one that has never used FDB
class Tools {
    int to_ = -1, from_ = -1;
    struct Order {
        Main m;
        size_t n;
        char text[4000];
    };

public:

    void start() {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) {
            throw std::runtime_error("no pipe");
        }
        if (fork() == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            static Order o;
            while (::read(a[0], &o, sizeof o) == (ssize_t)sizeof o) {
                std::vector<std::string> args;
                const char* p = o.text;
                for (size_t i = 0; i < o.n; ++i) {
                    args.push_back(p);
                    p += args.back().size() + 1;
                }
                int rc = runTool(o.m, args);
                if (::write(b[1], &rc, sizeof rc) != sizeof rc) {
                    break;
                }
            }
            ::syscall(SYS_exit_group, 0);
        }
        to_   = a[1];
        from_ = b[0];
    }
    int run(Main m, const std::vector<std::string>& args) {
        static Order o;
        o.m = m;
        o.n = args.size();
        char* p = o.text;
        for (auto& x : args) {
            p = stpcpy(p, x.c_str()) + 1;
        }
        int rc = 0;
        if (::write(to_, &o, sizeof o) != (ssize_t)sizeof o || ::read(from_, &rc, sizeof rc) != sizeof rc) {
            throw std::runtime_error("tools cannot be run");
        }
        return rc;
    }
} tools;

/// Messages carry the class and expver of the database they are asked of
std::string munged(int db, const std::string& m) {
    return std::to_string(db) + m.substr(m.find('.'));
}

struct Run {
    const World& w;
    bool persist;
    Model m;
    std::unique_ptr<fdb5::FDB> writer;
    std::string program;
    std::string sig, detail;

    bool fail(const std::string& s, const std::string& d) {
        if (sig.empty()) {
            sig    = s;
            detail = program + ": " + d;
        }
        return false;
    }
    int run(const Op& o) {
        const std::string cfg = "--config=" + w.s.dir + "/config.yaml";
        switch (o.kind) {
            case 'A': {
                if (!writer) {
                    writer = std::make_unique<fdb5::FDB>(w.s.config());
                }
                for (int f = 0; f < NF; ++f) {
                    if (o.arg & (1 << f)) {
                        const std::string& g = grib(o.db, f, m.version);
                        writer->archive(key(field(o.db, f)), g.data(), g.size());
                    }
                }
                writer->flush();
                if (!persist) {
                    writer.reset();
                }
                return 0;
            }
            case 'H':
                return tools.run(fdb_hide_main, {"fdb-hide", cfg, "--doit", dbReq(o.db)});
            case 'M':
                return tools.run(fdb_overlay_main, {"fdb-overlay", cfg, "--force", dbReq(o.arg), dbReq(o.db)});
            case 'U':
                return tools.run(fdb_overlay_main, {"fdb-overlay", cfg, "--remove", dbReq(o.arg), dbReq(o.db)});
            case 'R':
                return tools.run(fdb_reconsolidate_main, {"fdb-reconsolidate-toc", cfg, w.s.root() + "/" + dbDir(o.db)});
            case 'W':
            case 'P':
                try {
                    fdb5::FDB fdb(w.s.config());
                    Req r = {{"class", {kClass[o.db]}}, {"expver", {kExpver[o.db]}}};
                    if (o.kind == 'W') {
                        auto it = fdb.wipe(fx::tool(r), true, false, false);
                        fdb5::WipeElement e;
                        while (it.next(e)) {
                        }
                    }
                    else {
                        auto it = fdb.purge(fx::tool(r), true, false);
                        fdb5::PurgeElement e;
                        while (it.next(e)) {
                        }
                    }
                    return 0;
                }
                catch (std::exception& e) {
                    if (getenv("C14_LOG")) {
                        std::ofstream(getenv("C14_LOG"), std::ios::app) << e.what() << std::endl;
                    }
                    return 1;
                }
            case 'X':
                return tools.run(fdb_reindex_main, {"fdb-reindex", "--source-config=" + w.s.dir + "/config.yaml",
                                               "--sink-config=" + w.x.dir + "/config.yaml", dbReq(0)});
        }
        return -1;
    }
    std::map<std::string, std::string> others(const Op& o) {
        std::map<std::string, std::string> r;
        for (int d = 0; d < N; ++d) {
            if (o.kind == 'X' || d != o.db) {
                for (auto& [k, v] : contents(w.s.root() + "/" + dbDir(d))) {
                    r[dbDir(d) + "/" + k] = v;
                }
            }
        }
        if (o.kind != 'X') {
            for (auto& [k, v] : contents(w.x.root())) {
                r["sink/" + k] = v;
            }
        }
        return r;
    }

    bool step(const Op& o) {
        program += std::string(program.empty() ? "" : " ") + o.name;
        Model before = m;
        auto v       = m.apply(o);
        if (v == Model::Skip) {
            return false;
        }
        auto files = o.kind == 'A' ? std::map<std::string, std::string>{} : others(o);
        auto own   = o.kind == 'A' || v == Model::Done || o.kind == 'X' ? std::map<std::string, std::string>{} : contents(w.s.root());
        int rc     = run(o);
        if (rc >= 127) {
            return fail(std::string(rc == 127 ? "does not end: " : "crashes: ") + o.kind + (before.mounts(o.db) ? " (with overlays)" : ""),
                        rc == 127 ? "does not end" : "crashes (signal " + std::to_string(rc - 128) + ")");
        }
        if (v == Model::Either) {
            if (rc == 0 && o.kind == 'U') {
                m.unmount(o);
            }
            if (rc == 0 && o.kind == 'W') {
                m.wipe(o);
            }
            v = rc ? Model::Refused : Model::Done;
        }
        if (v == Model::Refused && rc == 0) {
            return fail(std::string("not refused: ") + o.kind, "is not refused");
        }
        if (v == Model::Done && rc) {
            return fail(std::string("fails: ") + o.kind + (before.mounts(o.db) ? " (with overlays)" : ""), "fails");
        }
        if (v == Model::Refused && contents(w.s.root()) != own) {
            return fail(std::string("refused, but changes files: ") + o.kind, "is refused, but files have changed");
        }
        if (o.kind != 'A' && others(o) != files) {
            auto now = others(o);
            std::string which;
            for (auto& [k, c] : now) {
                if (!files.count(k) || files[k] != c) {
                    which += " " + k;
                }
            }
            return fail(std::string("another database changes: ") + o.kind, "changes files of databases it does not concern:" + which);
        }
        return true;
    }

    std::string ctx() const {
        std::string s;
        for (auto& r : m.recs) {
            for (auto& x : r) {
                if (x.mount >= 0) {
                    s = " (overlays)";
                }
            }
        }
        return s;
    }

    bool look(const Setup& s, bool sink) {
        fdb5::FDB fdb(s.config());
        // What should be seen
        std::map<std::string, std::vector<std::string>> expect;  // field -> messages, as archived, newest first
        std::map<std::string, int> dbOf;
        std::set<std::string> loose;  // fields whose replaced versions may not be listed
        for (int d = 0; d < N; ++d) {
            for (int f = 0; f < NF; ++f) {
                dbOf[canon(str(field(d, f)))] = d;
            }
            if (!sink) {
                for (auto& [f, ms] : m.visible(d)) {
                    expect[canon(str(field(d, f)))] = ms;
                    // (with sub-tocs, what one session replaced is not in the consolidated index)
                    loose.insert(canon(str(field(d, f))));
                }
            }
        }
        if (sink) {
            for (auto& [k, msg] : m.sink) {
                expect[canon(k)] = {msg};
                loose.insert(canon(k));
            }
        }
        std::string where = sink ? " in the FDB re-indexed into" : "";
        // Listing
        for (Mode mode : {Dedup, Full}) {
            std::map<std::string, std::vector<std::string>> seen;
            auto it = fdb.list(fx::tool(Req{}), mode == Dedup, 3);
            fdb5::ListElement e;
            while (it.next(e)) {
                std::ostringstream k;
                std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle());
                KV kv;
                for (auto& p : e.combinedKey()) {
                    kv.emplace_back(p.first, p.second);
                }
                seen[canon(str(kv))].push_back(which(slurp(*h)));
            }
            for (auto& [k, ms] : seen) {
                if (!expect.count(k)) {
                    return fail("visible field" + where + ctx(), "field " + k + " should not be visible" + where);
                }
                std::set<std::string> allowed(expect[k].begin(), expect[k].end());
                for (auto& a : expect[k]) {
                    allowed.insert(munged(dbOf[k], a));
                }
                if (sink && mode == Full) {
                    for (auto& a : m.sinkAll[k]) {
                        allowed.insert(a);
                        allowed.insert(munged(0, a));
                    }
                }
                for (auto& x : ms) {
                    if (!allowed.count(x)) {
                        return fail("listed data" + where + ctx(), "field " + k + " is listed with data " + x + " instead of " + expect[k].front() + where);
                    }
                }
                if (mode == Dedup && (ms.size() != 1 || munged(dbOf[k], ms[0]) != munged(dbOf[k], expect[k].front()))) {
                    return fail("listed version" + where + ctx(), "field " + k + " is listed as " + join(ms, " ") + " instead of " + expect[k].front() + where);
                }
            }
            for (auto& [k, ms] : expect) {
                if (!seen.count(k)) {
                    return fail("field not listed" + where + ctx(), "field " + k + " should be visible" + where);
                }
                if (mode == Full && !loose.count(k)) {
                    continue;
                }
            }
        }
        // Retrieval
        for (int d = 0; d < N; ++d) {
            for (int f = 0; f < NF; ++f) {
                auto k    = canon(str(field(d, f)));
                auto want = expect.count(k) ? munged(d, expect[k].front()) : std::string("-");
                std::string got;
                try {
                    std::unique_ptr<eckit::DataHandle> h(fdb.retrieve(mars(reqOf(field(d, f)))));
                    got = which(slurp(*h));
                }
                catch (std::exception& e) {
                    got = std::string("error: ") + e.what();
                }
                if (got != want) {
                    return fail("retrieved" + where + ctx(), "field " + k + " is retrieved as " + got + " instead of " + want + where);
                }
            }
        }
        return true;
    }
};

void scenario(mc::Ctx& c, bool subtocs, bool persist, const std::vector<int>& prefix, const std::vector<int>& ops) {
    World w(c.dir, subtocs);
    std::string d = std::string(subtocs ? "subtocs " : "") + (persist ? "one writer " : "");
    std::vector<int> all(prefix);
    all.insert(all.end(), ops.begin(), ops.end());
    {
        // Is this worth executing?
        Model m;
        bool x = false;
        for (size_t i = 0; i < all.size(); ++i) {
            d += std::string(kOps[all[i]].name) + " ";
            auto v = m.apply(kOps[all[i]]);
            if (persist && strchr("WP", kOps[all[i]].kind)) {
                v = Model::Skip;  // (not while it is being written)
            }
            if (v == Model::Either && kOps[all[i]].kind == 'W' && i + 1 < all.size()) {
                v = Model::Skip;  // (wiping what has a database mounted goes wrong, which is known)
            }
            if (v == Model::Skip || (v == Model::Refused && i + 1 < all.size())) {
                c.count("sequences not executed");
                return;  // (a refused operation changes nothing: it is tried last)
            }
            x = true;
        }
        if (!x) {
            return;
        }
    }
    c.describe = d;
    w.create();
    auto r = mc::runChild(
        [&]() {
            tools.start();
            w.s.apply();
            Run run{w, persist, {}, nullptr, "", "", ""};
            for (int o : all) {
                if (!run.step(kOps[o])) {
                    break;
                }
            }
            if (run.sig.empty()) {
                // What is seen while the writer goes on, and once it has been closed
                if (persist && run.writer) {
                    run.program += " (open)";
                    run.look(w.s, false);
                    run.writer.reset();
                    run.program += " (closed)";
                }
                run.sig.empty() && run.look(w.s, false) && run.look(w.x, true);
            }
            return run.sig + "\n" + run.detail;
        },
        60);
    if (!r.ok) {
        c.fail("does not end: " + r.status(), d + ": " + r.status() + " " + r.out + " " + r.log);
        return;
    }
    auto nl = r.out.find('\n');
    if (nl) {
        std::string sig = r.out.substr(0, nl);
        // What is known to go wrong
        if (subtocs && persist && sig.find("re-indexed") == sig.npos) {
            // maintenance of a database that a writer which is still open has written to
            std::set<int> open;
            for (int o : all) {
                auto& op = kOps[o];
                if (op.kind == 'A') {
                    open.insert(op.db);
                }
                if (strchr("HMR", op.kind) && open.count(op.db)) {
                    sig = "sub-tocs, maintenance while a writer is open";
                }
            }
        }
        if (kOps[all.back()].kind == 'W' && (sig == "visible field" || sig == "refused, but changes files: W")) {
            Model m;
            for (size_t i = 0; i + 1 < all.size(); ++i) {
                m.apply(kOps[all[i]]);
            }
            sig = m.apply(kOps[all.back()]) == Model::Either ? "wiped with an overlay mounted" : sig;
        }
        c.fail(sig, d + ": " + r.out.substr(nl + 1));
        return;
    }
    c.distinct(d);
    c.count("sequences");
    c.count("operations", all.size());
    if (c.idx % 97 == 0) {
        c.sample(d);
    }
}

std::vector<int> digits(uint64_t i, int depth) {
    std::vector<int> r;
    for (int k = 0; k < depth; ++k) {
        r.push_back(int(i % kOps.size()));
        i /= kOps.size();
    }
    std::reverse(r.begin(), r.end());
    return r;
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C14", 300, 3000);
    const bool deep = mc::opts.thorough;
    auto all        = [&](const char* name, std::vector<int> prefix, int depth, bool subtocs, bool persist) {
        uint64_t n = 1;
        for (int i = 0; i < depth; ++i) {
            n *= kOps.size();
        }
        mc::sweep(name, n, [=](mc::Ctx& c) { scenario(c, subtocs, persist, prefix, digits(c.idx, depth)); });
    };
    // From an empty FDB, and from three databases with a field in common
    all("empty", {}, 3, false, false);
    all("stored", {0, 2, 3}, deep ? 4 : 3, false, false);
    all("stored-subtocs", {0, 2, 3}, deep ? 4 : 3, true, false);
    all("stored-writer", {0, 2, 3}, deep ? 4 : 3, false, true);
    all("stored-writer-subtocs", {0, 2, 3}, deep ? 4 : 3, true, true);
    if (deep) {
        all("empty-subtocs", {}, 4, true, false);
    }
    mc::Evidence e;
    e.rule = "after every sequence of operations, listings (with and without replaced versions) and retrieval of every field of every database are those of a reference model of visibility; operations to be refused are refused and change no file; no maintenance operation changes a file of a database it does not concern";
    e.assumptions = {"tools and FDB are used one after the other (writers may be open meanwhile)",
                     "overlays are not mounted twice, mounted again after having been removed or hidden, or mounted in circles, which is documented not to work"};
    return mc::finish(e);
}
