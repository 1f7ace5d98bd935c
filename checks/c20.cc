// C20: roots and file spaces place each database once and find it again.
//
// Configurations (file spaces x permissions of each root x directory-naming rules x handlers) x databases that exist
// beforehand, in each root: archiving, listing, retrieval and wiping by full and partial requests, compared with a
// model of which root each database is in and what each root permits.
#include <algorithm>
#include <filesystem>
#include <sstream>

#include "eckit/config/Resource.h"
#include "fdb5/api/helpers/WipeIterator.h"

#include "mc.h"
#include "world.h"

using namespace fx;
namespace fs = std::filesystem;

namespace {

struct Root {
    const char* name;
    const char* options;
    bool list, retrieve, archive, wipe, exists;
};
const std::vector<Root> kinds = {
    {"all", "", true, true, true, true, true},
    {"readonly", "writable: false", true, true, false, false, true},
    {"writeonly", "visit: false", false, false, true, true, true},
    {"missing", "", true, true, true, true, false},
    {"noretrieve", "retrieve: false", true, false, true, true, true},
    {"nowipe", "wipe: false", true, true, true, false, true},
    {"noarchive", "archive: false", true, true, false, true, true},
    {"nothing", "visit: false, writable: false", false, false, false, false, true},
    {"listonly", "writable: false, retrieve: false", true, false, false, false, true},
};

struct Space {
    const char* regex;
    std::vector<int> roots;
    std::vector<int> stores;  ///< apart, if any
    const char* handler = "Default";
};
struct Layout {
    const char* name;
    std::vector<Space> spaces;
};
const std::vector<Layout> layouts = {
    {"one", {{".*", {0, 1, 2}}}},
    {"two", {{"^od:.*", {0}}, {".*", {1, 2}}}},
    {"narrow", {{"^od:1$", {0}}, {"^od:.*", {1}}, {".*", {2}}}},
    {"partly", {{"^od:.*", {0, 1}}, {"^x.*:1", {2}}}},
    {"shared", {{"^[^:]*:12$", {0, 1}}, {"^od:.*|^rd:1$", {1, 2}}}},
    {"apart", {{"^od:.*", {0, 1}, {3, 4}}, {".*", {2}, {4, 3}}}},
    {"random", {{".*", {0, 1, 2}, {}, "Random"}}},
    {"robin", {{"^od.*", {0, 1}, {}, "RoundRobin"}, {".*", {2, 1}, {}, "LeastUsed"}}},
};
const int kRoots = 5;

bool spaceMatches(const std::string& regex, const std::string& s);

/// Directory-naming rules, and the name they give a database
struct Naming {
    const char* file;
    std::function<std::string(const std::string& c, const std::string& e)> name;
};
const std::vector<Naming> namings = {
    {"", [](auto& c, auto& e) { return c + ":" + e; }},
    {"class,expver {expver}_{class}\n", [](auto& c, auto& e) { return e + "_" + c; }},
    {"# comment\nclass=rd,expver {class}-{expver}\n", [](auto& c, auto& e) { return c == "rd" ? c + "-" + e : c + ":" + e; }},
    {"class=od,expver=12 special-{class}-{expver}\nclass=^o.*,expver=^1.* o{expver}\nstream,class s{class}\nclass,expver {class}.{expver}.x\n",
     [](auto& c, auto& e) { return c == "od" && e == "12" ? std::string("special-od-12") : c == "od" ? "o" + e : c + "." + e + ".x"; }},
    {"class,expver=12 twelve:{class}:{expver}\nclass=rd,expver=[0-9]+ UP{class}{expver}\n",
     [](auto& c, auto& e) { return e == "12" ? "twelve:" + c + ":12" : c == "rd" ? "UPrd" + e : c + ":" + e; }},
};

struct Db {
    std::string c, e;
    std::string key() const { return c + ":" + e; }
};
const std::vector<Db> dbs = {{"od", "1"}, {"od", "12"}, {"rd", "1"}};
KV fieldOf(int f) {
    return {{"class", dbs[f].c}, {"expver", dbs[f].e}, {"type", "an"}, {"step", "0"}, {"param", "t"}};
}

struct Case {
    int layout, naming;
    std::vector<int> kind;    ///< of each root
    std::vector<int> before;  ///< of each database: the root it is already in, or -1
    bool upper = false;       ///< its directory is spelled in upper case
};

struct World {
    const Case& c;
    std::string dir;
    std::string path(int r) const { return dir + "/r" + std::to_string(r); }
    std::string config(bool all, int only = -1) const {
        std::ostringstream s;
        s << "---\ntype: local\nengine: toc\nschema: " << dir << "/schema\nspaces:\n";
        if (only >= 0) {
            s << "- handler: Default\n  roots:\n  - path: " << path(only) << "\n";
            return s.str();
        }
        auto roots = [&](const char* name, const std::vector<int>& v) {
            s << "  " << name << ":\n";
            for (int r : v) {
                s << "  - { path: " << path(r);
                if (*kinds[c.kind[r]].options) {
                    s << ", " << kinds[c.kind[r]].options;
                }
                s << " }\n";
            }
        };
        for (auto& sp : layouts[c.layout].spaces) {
            s << "- handler: " << sp.handler << "\n  regex: \"" << sp.regex << "\"\n";
            roots(sp.stores.empty() ? "roots" : "catalogueRoots", sp.roots);
            if (!sp.stores.empty()) {
                roots("storeRoots", sp.stores);
            }
        }
        return s.str();
    }
    const Root& root(int r) const { return kinds[c.kind[r]]; }
    std::vector<const Space*> spaces(int f) const {
        std::vector<const Space*> v;
        for (auto& sp : layouts[c.layout].spaces) {
            if (spaceMatches(sp.regex, dbs[f].key())) {
                v.push_back(&sp);
            }
        }
        return v;
    }
    std::string name(int f) const { return namings[c.naming].name(dbs[f].c, dbs[f].e); }
};

/// The few regular expressions used above
bool spaceMatches(const std::string& regex, const std::string& s) {
    if (regex == ".*") return true;
    if (regex == "^od:.*" || regex == "^od.*") return s.rfind("od:", 0) == 0;
    if (regex == "^od:1$") return s == "od:1";
    if (regex == "^x.*:1") return false;
    if (regex == "^[^:]*:12$") return s == "od:12";
    if (regex == "^od:.*|^rd:1$") return true;
    throw std::logic_error(regex);
}

std::string run(const World& w, std::vector<std::pair<std::string, std::string>>& fails) {
    auto fail = [&](const std::string& sig, const std::string& detail) {
        std::string d = detail;
        std::replace(d.begin(), d.end(), '\n', ' ');
        fails.push_back({sig, d});
    };
    auto fdb = [&](int only = -1) {
        Setup s;
        s.dir        = w.dir;
        s.configText = w.config(true, only);
        return std::make_unique<fdb5::FDB>(s.config());
    };
    auto archive = [&](fdb5::FDB& f, int i, int v) {
        auto p = payload(i, v);
        f.archive(key(fieldOf(i)), p.data(), p.size());
        f.flush();
    };
    const int n = dbs.size();
    // in[f][r]: version of the field in root r
    std::vector<std::map<int, int>> in(n);
    auto onDisk = [&](int f) {
        std::vector<std::map<int, int>> x;
        std::set<int> roots;
        for (int r = 0; r < kRoots; ++r) {
            std::error_code ec;
            for (auto& e : fs::directory_iterator(w.path(r), ec)) {
                std::string d = e.path().filename(), want = w.name(f);
                std::transform(d.begin(), d.end(), d.begin(), ::tolower);
                std::transform(want.begin(), want.end(), want.begin(), ::tolower);
                if (d == want && fs::exists(e.path() / "toc")) {
                    roots.insert(r);
                }
            }
        }
        return roots;
    };
    auto dirs = [&]() {
        std::string s;
        for (int r = 0; r < kRoots; ++r) {
            std::error_code ec;
            std::set<std::string> names;
            for (auto& e : fs::directory_iterator(w.path(r), ec)) {
                names.insert(e.path().filename().string() + (fs::exists(e.path() / "toc") ? "" : "(no toc)"));
            }
            s += "r" + std::to_string(r) + "{" + joinSet(names) + "} ";
        }
        return s;
    };
    for (int f = 0; f < n; ++f) {
        if (w.c.before[f] >= 0) {
            archive(*fdb(w.c.before[f]), f, 1);
            in[f][w.c.before[f]] = 1;
            if (w.c.upper) {
                std::string up = w.name(f);
                std::transform(up.begin(), up.end(), up.begin(), ::toupper);
                if (up != w.name(f)) {
                    fs::rename(w.path(w.c.before[f]) + "/" + w.name(f), w.path(w.c.before[f]) + "/" + up);
                }
            }
        }
    }
    auto holders = [&](int f, const std::vector<int>& roots) {
        std::set<int> v;
        for (int r : roots) {
            if (w.root(r).list && w.root(r).exists && in[f].count(r)) {
                v.insert(r);
            }
        }
        return v;
    };
    // archive
    for (int f = 0; f < n; ++f) {
        std::string why;
        std::set<int> choice;  // roots it may go to
        auto sp = w.spaces(f);
        if (sp.empty()) {
            why = "no space";
        }
        else {
            auto have = holders(f, sp[0]->roots);
            if (have.size() > 1) {
                why = "in several roots";
            }
            else if (have.size() == 1) {
                if (w.root(*have.begin()).archive) {
                    choice = have;
                }
                else {
                    why = "the root of the existing database does not permit it";
                }
            }
            else {
                for (int r : sp[0]->roots) {
                    if (w.root(r).archive && w.root(r).exists && (choice.empty() || std::string(sp[0]->handler) != "Default")) {
                        choice.insert(r);
                    }
                }
                if (choice.empty()) {
                    why = "no root";
                }
            }
            if (why.empty() && !sp[0]->stores.empty()) {
                bool any = false;
                for (int r : sp[0]->stores) {
                    any |= w.root(r).archive && w.root(r).exists;
                }
                if (!any) {
                    // refused, once the catalogue has been created
                    why = "no store root";
                }
            }
        }
        auto before = onDisk(f);
        auto data   = [&](int r) {
            size_t k = 0;
            std::error_code ec;
            for (auto& e : fs::recursive_directory_iterator(w.path(r), ec)) {
                if (e.path().extension() == ".data") {
                    ++k;
                }
            }
            return k;
        };
        std::vector<size_t> d0, d1;
        for (int r = 0; r < kRoots; ++r) {
            d0.push_back(data(r));
        }
        std::string error;
        try {
            archive(*fdb(), f, 2);
        }
        catch (std::exception& e) {
            error = e.what();
        }
        for (int r = 0; r < kRoots; ++r) {
            d1.push_back(data(r));
        }
        auto after = onDisk(f);
        if (error.empty() != why.empty()) {
            fail(why.empty() ? "archival refused" : "archival accepted: " + why, dbs[f].key() + ": " + error + " " + dirs());
        }
        std::vector<int> fresh;
        for (int r : after) {
            if (!before.count(r)) {
                fresh.push_back(r);
            }
        }
        if (error.empty() && why.empty()) {
            int to = -1;
            if (before.empty() || fresh.size()) {
                to = fresh.size() == 1 ? fresh[0] : -1;
            }
            else {
                // went into one that exists
                to = choice.size() == 1 ? *choice.begin() : -2;
            }
            if (to == -2) {
                for (int r : choice) {
                    if (d1[r] != d0[r]) {
                        to = r;
                    }
                }
            }
            if (to < 0 || !choice.count(to)) {
                fail("a database is created in the wrong root", dbs[f].key() + " " + dirs());
                return "";
            }
            in[f][to] = 2;
            std::set<int> stores{to};
            if (!sp[0]->stores.empty()) {
                stores.clear();
                for (int r : sp[0]->stores) {
                    if (w.root(r).archive && w.root(r).exists && stores.empty()) {
                        stores.insert(r);
                    }
                }
            }
            for (int r = 0; r < kRoots; ++r) {
                if ((d1[r] != d0[r]) != (stores.count(r) > 0)) {
                    fail("data are stored in the wrong root", dbs[f].key() + " root " + std::to_string(r) + " " + dirs());
                }
            }
        }
        else {
            for (int r : fresh) {
                if (!choice.count(r)) {
                    fail("a refused archival creates a database", dbs[f].key() + " " + dirs());
                }
                else {
                    in[f][r] = 0;  // exists, empty
                }
            }
            for (int r = 0; r < kRoots; ++r) {
                if (d1[r] != d0[r]) {
                    fail("a refused archival stores data", dbs[f].key() + " " + dirs());
                }
            }
        }
    }
    // list
    std::vector<Req> reqs = {{},
                             parseReq("class=od"),
                             parseReq("class=rd"),
                             parseReq("expver=1"),
                             parseReq("expver=12"),
                             parseReq("class=od/rd"),
                             parseReq("expver=12/1"),
                             parseReq("class=od/xx,expver=1"),
                             parseReq("class=od/rd,expver=1/12"),
                             parseReq("type=an"),
                             parseReq("expver=1,step=0"),
                             parseReq("class=xx"),
                             parseReq("class=rd,expver=1"),
                             parseReq("class=od,expver=12,type=an,step=0,param=t")};
    for (auto& r : reqs) {
        bool partial = true;
        int have     = 0;
        for (auto& k : r) {
            have += k.first == "class" || k.first == "expver";
        }
        partial = have < 2;
        std::set<std::string> want;
        std::set<std::string> ambiguous;
        for (int f = 0; f < n; ++f) {
            if (!matches(fieldOf(f), r)) {
                continue;
            }
            std::vector<int> roots;
            for (auto& sp : layouts[w.c.layout].spaces) {
                // any value of a keyword left out may be in any space
                if (partial || spaceMatches(sp.regex, dbs[f].key())) {
                    roots.insert(roots.end(), sp.roots.begin(), sp.roots.end());
                }
            }
            // an alternative of the request may select a further space
            auto h = holders(f, roots);
            std::set<int> versions;
            for (int x : h) {
                if (in[f].at(x)) {
                    versions.insert(in[f].at(x));
                }
            }
            std::vector<int> all;
            for (auto& sp : layouts[w.c.layout].spaces) {
                all.insert(all.end(), sp.roots.begin(), sp.roots.end());
            }
            if (holders(f, all).size() > 1) {
                ambiguous.insert(std::to_string(f));  // in several roots
                continue;
            }
            // seen through a space that another alternative selects
            if (h.empty() && holders(f, all).size() == 1) {
                ambiguous.insert(std::to_string(f));
                continue;
            }
            if (versions.size() == 1) {
                want.insert(std::to_string(f) + ":" + std::to_string(*versions.begin()));
            }
        }
        std::set<std::string> got;
        try {
            auto f = fdb();
            for (auto& e : list(*f, r, Dedup)) {
                auto k = e.bytes.find(':');
                if (k != std::string::npos && ambiguous.count(e.bytes.substr(0, k))) {
                    continue;
                }
                if (!got.insert(e.bytes).second) {
                    fail("listed twice", str(r) + " " + e.key);
                }
            }
        }
        catch (std::exception& e) {
            fail("listing fails", str(r) + ": " + e.what() + " " + dirs());
            continue;
        }
        if (got != want) {
            std::string sig = "listing";
            fail("listing differs", str(r) + ": " + joinSet(got) + " expected " + joinSet(want) + " " + dirs());
        }
    }
    // retrieve
    for (int f = 0; f < n; ++f) {
        auto sp = w.spaces(f);
        std::string want, got;
        bool refused = false;
        if (!sp.empty()) {
            auto h = holders(f, sp[0]->roots);
            refused = h.size() > 1;
            if (h.size() == 1 && in[f][*h.begin()] && w.root(*h.begin()).retrieve) {
                want = std::to_string(f) + ":" + std::to_string(in[f][*h.begin()]);
            }
        }
        std::string error;
        try {
            auto x = fdb();
            got    = retrieve(*x, fieldOf(f));
        }
        catch (std::exception& e) {
            error = e.what();
        }
        if (got != want || (!want.empty() && !error.empty())) {
            fail("retrieval differs", dbs[f].key() + ": " + got + " " + error + " expected " + want + " " + dirs());
        }
    }
    // wipe
    for (int f = 0; f < n; ++f) {
        auto before = onDisk(f);
        auto sp     = w.spaces(f);
        std::set<int> roots;
        for (auto s : sp) {
            for (int r : holders(f, s->roots)) {
                roots.insert(r);
            }
        }
        std::set<int> goes;
        for (int r : roots) {
            if (w.root(r).wipe) {
                goes.insert(r);
            }
        }
        std::string error;
        try {
            auto x = fdb();
            auto it = x->wipe(tool({{"class", {dbs[f].c}}, {"expver", {dbs[f].e}}}), true, false, false);
            fdb5::WipeElement e;
            while (it.next(e)) {}
        }
        catch (std::exception& e) {
            error = e.what();
        }
        auto after = onDisk(f);
        for (int r : before) {
            bool first = !sp.empty() && std::count(sp[0]->roots.begin(), sp[0]->roots.end(), r);
            if (after.count(r) && goes.count(r) && roots.size() == 1 && first) {
                fail("not wiped", dbs[f].key() + " root " + std::to_string(r) + " " + error + " " + dirs());
            }
            if (!after.count(r) && !roots.count(r)) {
                fail("wiped where it is not listed", dbs[f].key() + " " + dirs());
            }
            if (!after.count(r) && roots.count(r) && !w.root(r).wipe) {
                fail("a database is wiped in a root that does not permit it", dbs[f].key() + " " + dirs());
            }
        }
    }
    return dirs();
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C20", 120, 3600);
    bool th = mc::opts.thorough;
    std::vector<Case> cases;
    int nk = kinds.size();
    // pairs of kinds in the roots 0 and 1; root 2: each in turn; the stores likewise
    for (size_t l = 0; l < layouts.size(); ++l) {
        for (size_t nm = 0; nm < namings.size(); ++nm) {
            for (int a = 0; a < nk; ++a) {
                for (int b = 0; b < nk; ++b) {
                    for (int d = 0; d < nk; ++d) {
                        if (!th && d && d != (a + 2 * b + (int)nm) % nk) {
                            continue;
                        }
                        // databases 0 and 2 exist beforehand, in each root or nowhere; database 1 follows
                        for (int p = -1; p < 3; ++p) {
                            for (int q = -1; q < 3; ++q) {
                                Case c;
                                c.layout = l;
                                c.naming = nm;
                                c.kind   = {a, b, d, (a + d) % nk, b};
                                c.before = {p, q < 0 ? -1 : (p + q + 1) % 3, q};
                                c.upper  = (a + b + p + q) % 5 == 4;
                                bool ok  = true;
                                // (other handlers choose anew each time where they cannot see the database)
                                for (int r = 0; l >= 6 && r < 3; ++r) {
                                    ok = ok && (kinds[c.kind[r]].list || !kinds[c.kind[r]].archive);
                                }
                                for (int r : c.before) {
                                    ok = ok && (r < 0 || kinds[c.kind[r]].exists);
                                }
                                if (!ok || (!th && (a * 3 + b * 5 + d + p * 7 + q * 2 + nm + l + 20) % 16)) {
                                    continue;
                                }
                                cases.push_back(c);
                            }
                        }
                    }
                }
            }
        }
    }
    mc::sweep("configurations", cases.size(), [&](mc::Ctx& ctx) {
        auto& c = cases[ctx.idx];
        World w{c, ctx.dir};
        std::string kd, bf;
        for (int k : c.kind) {
            kd += std::string(" ") + kinds[k].name;
        }
        for (int b : c.before) {
            bf += " " + std::to_string(b);
        }
        ctx.describe = std::string(layouts[c.layout].name) + " naming " + std::to_string(c.naming) + " roots" + kd + " before" + bf + (c.upper ? " upper" : "");
        writeFile(ctx.dir + "/schema", Setup::defaultSchema());
        writeFile(ctx.dir + "/dbnames", namings[c.naming].file);
        for (int r = 0; r < kRoots; ++r) {
            if (kinds[c.kind[r]].exists) {
                fs::create_directories(w.path(r));
            }
        }
        auto ch = mc::runChild([&]() {
            Setup s;
            s.resources["fdbDbNamesFile"] = ctx.dir + "/dbnames";
            s.apply();
            std::vector<std::pair<std::string, std::string>> fails;
            std::string d = run(w, fails), out = d + "\n";
            for (auto& f : fails) {
                out += f.first + "\t" + f.second + "\n";
            }
            return out;
        });
        if (!ch.ok) {
            ctx.fail("fails: " + ch.status(), ch.out + ch.log);
            return;
        }
        auto lines = mc::split(ch.out, '\n');
        for (size_t i = 1; i < lines.size(); ++i) {
            auto t = lines[i].find('\t');
            if (t != std::string::npos) {
                ctx.fail(lines[i].substr(0, t), ctx.describe + ": " + lines[i].substr(t + 1));
            }
        }
        ctx.distinct(ctx.describe);
        if (ctx.idx % 401 == 7) {
            ctx.sample(ctx.describe + " -> " + lines[0]);
        }
    });
    // values with characters that mean something in regular expressions, and names that differ little
    const std::vector<std::string> values = {"a", "b+", "c.d", "cxd", "e*", "ee", "f?", "g(h)", "[i]", "j$", "^k", "l|m", "m", "n-o_p", "q{1}", "s t", "{u}", "A1"};
    struct Odd {
        std::vector<int> v;
        int naming;
    };
    std::vector<Odd> odd;
    for (size_t a = 0; a < values.size(); ++a) {
        for (size_t b = a; b < values.size(); ++b) {
            for (int n = 0; n < 3; ++n) {
                if (th || a == b || (a + b) % 3 == (size_t)n) {
                    odd.push_back({a == b ? std::vector<int>{(int)a} : std::vector<int>{(int)a, (int)b}, n});
                }
            }
        }
    }
    mc::sweep("values", odd.size(), [&](mc::Ctx& ctx) {
        auto& o = odd[ctx.idx];
        Setup s;
        s.dir = ctx.dir;
        s.create();
        const char* names[] = {"", "class,expver {expver}_{class}\n", "class=od,expver x{expver}\n"};
        writeFile(ctx.dir + "/dbnames", names[o.naming]);
        s.resources["fdbDbNamesFile"] = ctx.dir + "/dbnames";
        std::string what;
        for (int v : o.v) {
            what += " " + values[v];
        }
        ctx.describe = "values" + what + " naming " + std::to_string(o.naming);
        auto ch = mc::runChild([&]() {
            s.apply();
            std::string out;
            std::vector<KV> f;
            for (int v : o.v) {
                f.push_back({{"class", "od"}, {"expver", values[v]}, {"type", "an"}, {"step", "0"}, {"param", "t"}});
            }
            {
                fdb5::FDB fdb(s.config());
                for (size_t i = 0; i < f.size(); ++i) {
                    auto p = payload(i, 1);
                    fdb.archive(key(f[i]), p.data(), p.size());
                }
                fdb.flush();
            }
            auto check = [&](const Req& r) {
                std::set<std::string> got, want;
                for (size_t i = 0; i < f.size(); ++i) {
                    if (matches(f[i], r)) {
                        want.insert(std::to_string(i) + ":1");
                    }
                }
                try {
                    fdb5::FDB fdb(s.config());
                    for (auto& e : list(fdb, r, Dedup)) {
                        got.insert(e.bytes);
                    }
                }
                catch (std::exception& e) {
                    got.insert(e.what());
                }
                if (got != want) {
                    out += "listing " + str(r) + ": " + joinSet(got) + " expected " + joinSet(want) + "; ";
                }
            };
            check({});
            check({{"class", {"od"}}});
            for (size_t i = 0; i < f.size(); ++i) {
                check({{"expver", {values[o.v[i]]}}});
                check({{"class", {"od"}}, {"expver", {values[o.v[i]]}}});
                check({{"class", {"od", "rd"}}, {"expver", {"zz", values[o.v[i]]}}});
                fdb5::FDB fdb(s.config());
                auto r = retrieve(fdb, f[i]);
                if (r != std::to_string(i) + ":1") {
                    out += "retrieval of " + values[o.v[i]] + " gives " + r + "; ";
                }
            }
            return out;
        });
        if (!ch.ok) {
            ctx.fail("values: fails: " + ch.status(), ctx.describe + ": " + ch.out + ch.log);
        }
        else if (!ch.out.empty()) {
            ctx.fail("values: answers differ", ctx.describe + ": " + ch.out);
        }
        ctx.distinct(ctx.describe);
    });
    mc::Evidence e;
    e.rule = "every combination of file-space layout, naming rules, permissions of the roots (pairs in the first two, one of the kinds in the third) "
             "and roots in which databases exist beforehand (quick: one in sixteen of them), each followed by archiving all, listing by 14 requests, retrieving and wiping";
    e.assumptions = {"regular expressions of spaces are a fixed set whose matches are given by hand", "the expver handler is not included"};
    return mc::finish(e);
}
