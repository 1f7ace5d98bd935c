// C07: listing answers a request with exactly the matching fields.
//
// Stored states (every subset of a small universe, archived in several ways, in several layouts) times every request over
// the universe's keywords, times modes and depths; compared with a reference model.
#include <sstream>

#include "eckit/exception/Exceptions.h"

#include "fdb5/api/helpers/ListIterator.h"

#include "mc.h"
#include "world.h"

using namespace fx;

static std::string loc(const Elem& e) {
    return e.uri + " " + std::to_string(e.offset) + " " + std::to_string(e.length);
}

static std::string diff(const std::multiset<std::string>& got, const std::multiset<std::string>& want) {
    std::string miss, extra;
    std::multiset<std::string> g = got;
    for (auto& w : want) {
        auto it = g.find(w);
        if (it == g.end()) {
            miss += " " + w;
        }
        else {
            g.erase(it);
        }
    }
    for (auto& x : g) {
        extra += " " + x;
    }
    return (miss.empty() ? "" : "missing:" + miss + " ") + (extra.empty() ? "" : "unexpected:" + extra);
}

/// Runs in a child; reports lines "signature\tdetail"
static std::string explore(const Setup& s, const Universe& u, const Model& m, const std::vector<Req>& reqs, uint64_t& n) {
    std::string out;
    auto fail = [&](const std::string& sig, const std::string& detail) {
        if (out.size() < 4000) {
            out += sig + "\t" + detail + "\n";
        }
    };
    fdb5::FDB fdb(s.config());
    // which version is at which location (by reading it)
    std::map<std::string, std::string> at;
    for (auto& e : list(fdb, {}, Full)) {
        int f = -1, v = -1;
        if (sscanf(e.bytes.c_str(), "%d:%d", &f, &v) != 2 || e.bytes != fv(f, v) || u.find(e.key) != f) {
            fail("wrong element", "full list: " + e.key + " leads to " + e.bytes);
        }
        else if (e.length != (long long)payload(f, v).size()) {
            fail("wrong length", e.key + ": " + std::to_string(e.length));
        }
        at[loc(e)] = e.bytes;
    }
    auto visible = m.visible();
    std::map<std::string, int> dups;
    unsigned turn = 0;
    for (auto& r : reqs) {
        Spelt spelt(u.spell, ++turn);
        for (int mode = 0; mode < 3; ++mode) {
            std::multiset<std::string> want, got;
            std::map<int, int> count;
            for (auto& e : m.all()) {
                if (matches(u.all(e.first), r)) {
                    bool last = visible[e.first] == e.second;
                    if (mode == Full || (mode == Dedup) == last) {
                        want.insert(fv(e.first, e.second));
                    }
                }
            }
            ++n;
            try {
                for (auto& e : list(fdb, r, (Mode)mode, 3, false)) {
                    int f   = u.find(e.key);
                    auto it = at.find(loc(e));
                    if (it == at.end() || f < 0 || it->second.substr(0, it->second.find(':')) != std::to_string(f)) {
                        got.insert("?" + e.key);
                    }
                    else {
                        got.insert(it->second);
                    }
                }
                if (got != want) {
                    fail(std::string(mode == Full ? "full" : mode == Dedup ? "latest" : "superseded") + " listing differs",
                         "request " + str(r) + ": " + diff(got, want));
                }
            }
            catch (std::exception& e) {
                fail("list fails", "request " + str(r) + ": " + e.what());
            }
        }
        for (int level = 1; level < 3; ++level) {
            std::multiset<std::string> want, got, most;
            std::set<std::string> w, wm;
            for (auto& p : m.indexes) {
                bool fieldToo = false;
                for (auto& e : p.entries) {
                    fieldToo |= matches(u.all(e.first), r);
                }
                // all that hold matching fields; none that could not
                // (at depth 2, keywords that no field of the index has are not considered)
                Req q;
                for (auto& k : r) {
                    bool known = false;
                    for (auto& e : p.entries) {
                        for (auto& kv : u.all(e.first)) {
                            known |= kv.first == k.first;
                        }
                    }
                    if (known) {
                        q.push_back(k);
                    }
                }
                if (level == 1 ? m.dbMatches(p.db, r) : m.indexMatches(p, q)) {
                    wm.insert(level == 1 ? p.db : p.index);
                }
                if (fieldToo) {
                    w.insert(level == 1 ? p.db : p.index);
                }
            }
            want.insert(w.begin(), w.end());
            most.insert(wm.begin(), wm.end());
            ++n;
            try {
                for (auto& e : list(fdb, r, Dedup, level, false)) {
                    got.insert(level == 1 ? e.k[0] : e.k[0] + "|" + e.k[1]);
                }
                bool missing = false, extra = false;
                for (auto& x : want) {
                    missing |= !got.count(x);
                }
                for (auto& x : got) {
                    extra |= !most.count(x) || got.count(x) > 1;
                }
                if (missing || extra) {
                    fail("listing at depth " + std::to_string(level) + (missing ? " lacks some" : " has others"),
                         "request " + str(r) + ": " + diff(got, most));
                }
            }
            catch (std::exception& e) {
                fail("list fails", "request " + str(r) + " at depth " + std::to_string(level) + ": " + e.what());
            }
        }
        // the compact listing counts and describes the same fields
        {
            ++n;
            size_t fields = 0, length = 0;
            std::set<std::string> want, got;
            for (auto& e : visible) {
                if (matches(u.all(e.first), r)) {
                    ++fields;
                    length += payload(e.first, e.second).size();
                    want.insert(str(u.all(e.first)));
                }
            }
            std::ostringstream o;
            auto it = fdb.list(tool(r), fdb5::ListMode::Deduplicate, 3);
            auto c  = it.dumpCompact(o);
            for (auto& line : mc::split(o.str(), '\n')) {
                // {class=od,expver=1},{type=an},retrieve,step=0/6,param=t
                std::string t;
                for (char ch : line) {
                    if (ch != '{' && ch != '}' && ch != ' ') {
                        t += ch;
                    }
                }
                std::vector<KV> prod{{}};
                for (auto& w : mc::split(t, ',')) {
                    auto p = w.find('=');
                    if (p == std::string::npos) {
                        continue;
                    }
                    std::vector<KV> np;
                    for (auto& val : mc::split(w.substr(p + 1), '/')) {
                        for (auto k : prod) {
                            k.push_back({w.substr(0, p), val});
                            np.push_back(k);
                        }
                    }
                    prod.swap(np);
                }
                for (auto& k : prod) {
                    if (!got.insert(str(k)).second) {
                        got.insert("twice " + str(k));
                    }
                }
            }
            if (c.first != fields || (size_t)(long long)c.second != length) {
                fail("compact listing miscounts", "request " + str(r) + ": " + std::to_string(c.first) + " fields, " +
                                                      std::to_string((long long)c.second) + " bytes instead of " +
                                                      std::to_string(fields) + ", " + std::to_string(length));
            }
            if (got != want) {
                fail("compact listing differs", "request " + str(r) + ": " + joinSet(mc::split(o.str(), '\n'), " & ") + " for " + joinSet(want, " and "));
            }
        }
    }
    return out;
}

static void run(mc::Ctx& ctx, const State& st, const std::vector<Req>& reqs) {
    Setup s = st.setup;
    s.dir   = ctx.dir;
    s.schema = st.u->schema;
    s.create();
    ctx.describe = s.describe() + "\n" + st.program;
    Model m;
    m.u       = st.u;
    m.subtocs = s.subtocs;
    effect(m, st.program);
    auto c = mc::runChild([&]() {
        s.apply();
        build(s, *st.u, st.program);
        return std::string();
    });
    if (!c.ok) {
        ctx.fail("archiving fails", c.status() + c.out);
        return;
    }
    c         = mc::runChild([&]() {
        s.apply();
        uint64_t n = 0;
        auto r     = explore(s, *st.u, m, reqs, n);
        return std::to_string(n) + "\n" + r;
    }, 600);
    if (!c.ok) {
        ctx.fail("listing ends the process", c.status() + c.out + c.log);
        return;
    }
    auto lines = mc::split(c.out, '\n');
    ctx.count("listings", atoll(lines[0].c_str()));
    for (size_t i = 1; i < lines.size(); ++i) {
        auto f = mc::split(lines[i], '\t');
        if (f.size() == 2) {
            ctx.fail(f[0], f[1]);
        }
    }
    ctx.distinct(std::to_string(st.u == &Universe::plain()) + answers(m, true) + (s.subtocs ? "s" : ""));
    if (ctx.idx % 211 == 5) {
        ctx.sample(ctx.describe + "; " + std::to_string(reqs.size()) + " requests");
    }
}

//------------------------------------------------------------------------------------------------------------- spellings

// A field archived under one spelling of its values is found under every other, and reported under the canonical one

struct Spell {
    const char* keyword;
    std::vector<const char*> same;   ///< spellings of one value, the canonical one first
    std::vector<const char*> other;  ///< of another value
};
static const std::vector<Spell>& spells() {
    static const std::vector<Spell> s = {
        {"class", {"od", "OD", "Od"}, {"rd", "RD"}},
        {"time", {"0000", "0", "00", "00:00", "00:00:00"}, {"1200", "12", "12:00"}},
        {"type", {"an", "AN"}, {"fc", "Fc"}},
        {"step", {"1", "01", "60m", "1h"}, {"6", "6h", "360m"}},
        {"levelist", {"500", "500.0", "5e2"}, {"0.5", "0.50", "5e-1"}},
    };
    return s;
}

static void spelling(mc::Ctx& ctx, int keyword, int archived, int layout) {
    Setup s;
    s.dir     = ctx.dir;
    s.subtocs = layout;
    s.schema  = "time: Time; step: Step; levelist: Double;\n[ class, time\n  [ type\n    [ step, levelist ]]]\n";
    s.create();
    auto& sp = spells();
    auto field = [&](bool other, size_t spell) {
        KV kv;
        for (size_t k = 0; k < sp.size(); ++k) {
            auto& v = other ? sp[k].other : sp[k].same;
            kv.push_back({sp[k].keyword, v[(int)k == keyword ? spell % v.size() : 0]});
        }
        return kv;
    };
    // three fields: differing in everything, and in this keyword only
    KV third                = field(false, 0);
    third[keyword].second = sp[keyword].other[0];
    std::vector<KV> canonical{field(false, 0), field(true, 0), third};
    ctx.describe = std::string("archive with ") + sp[keyword].keyword + "=" + field(false, archived)[keyword].second;
    auto c       = mc::runChild([&]() {
        std::string out;
        {
            fdb5::FDB fdb(s.config());
            std::vector<KV> a{field(false, archived), field(true, archived), third};
            for (int f = 0; f < 3; ++f) {
                auto d = payload(f, 1);
                try {
                    fdb.archive(key(a[f]), d.data(), d.size());
                }
                catch (eckit::UserError&) {  // a spelling may be refused
                    fdb.archive(key(canonical[f]), d.data(), d.size());
                }
            }
            fdb.flush();
        }
        fdb5::FDB fdb(s.config());
        for (int f = 0; f < 3; ++f) {
            auto& vals = f ? sp[keyword].other : sp[keyword].same;
            for (size_t i = 0; i <= vals.size(); ++i) {
                // full request; this keyword alone; several spellings at once
                for (int full = 0; full < 2; ++full) {
                    Req r;
                    if (full) {
                        r = reqOf(canonical[f]);
                    }
                    else {
                        r.push_back({sp[keyword].keyword, {}});
                    }
                    auto& q = full ? r[keyword] : r[0];
                    if (i < vals.size()) {
                        q.second = {vals[i]};
                    }
                    else {
                        q.second.assign(vals.begin(), vals.end());
                    }
                    std::multiset<std::string> got, want;
                    try {
                        for (auto& e : list(fdb, r, Full)) {
                            got.insert(e.key + " " + e.bytes);
                        }
                    }
                    catch (std::exception& e) {
                        got.insert(e.what());
                    }
                    for (int g = 0; g < 3; ++g) {
                        if (full ? f == g : canonical[f][keyword] == canonical[g][keyword]) {
                            want.insert(str(canonical[g]) + " " + fv(g, 1));
                        }
                    }
                    if (got != want) {
                        out += "list with " + str(r) + ": " + diff(got, want) + "\n";
                    }
                }
            }
        }
        return out;
    });
    ctx.count("listings", 2 * (sp[keyword].same.size() + 2 * sp[keyword].other.size() + 3));
    if (!c.ok || !c.out.empty()) {
        ctx.fail("a spelling is not found", c.status() + " " + c.out);
    }
    ctx.distinct(ctx.describe);
}

/// Three of the four combinations of two values of two keywords, in compact form
static void compact(mc::Ctx& ctx, const char* a, const char* b, int without, const std::string& name) {
    Setup s;
    s.dir    = ctx.dir;
    s.schema = std::string("[ class\n  [ type\n    [ ") + a + ", " + b + " ]]]\n";
    s.create();
    std::vector<KV> fields;
    for (int i = 0; i < 4; ++i) {
        if (i != without) {
            fields.push_back({{"class", "od"}, {"type", "an"}, {a, i / 2 ? "2" : "1"}, {b, i % 2 ? "8" : "7"}});
        }
    }
    ctx.describe = name + " without the combination " + std::to_string(without);
    auto c       = mc::runChild([&]() {
        fdb5::FDB fdb(s.config());
        for (size_t f = 0; f < fields.size(); ++f) {
            auto d = payload(f, 1);
            fdb.archive(key(fields[f]), d.data(), d.size());
        }
        fdb.flush();
        std::ostringstream o;
        auto it = fdb.list(tool({}), fdb5::ListMode::Deduplicate, 3);
        it.dumpCompact(o);
        std::set<std::string> got, want;
        for (auto& f : fields) {
            want.insert(str(f));
        }
        for (auto& line : mc::split(o.str(), '\n')) {
            Req r;
            for (auto& w : mc::split(line, ',')) {
                auto p = w.find('=');
                if (p != std::string::npos) {
                    std::string k = w.substr(0, p);
                    k.erase(std::remove_if(k.begin(), k.end(), [](char ch) { return ch == '{' || ch == '}' || ch == ' '; }), k.end());
                    std::string v = w.substr(p + 1);
                    v.erase(std::remove(v.begin(), v.end(), '}'), v.end());
                    r.push_back({k, mc::split(v, '/')});
                }
            }
            for (int i = 0; i < 4; ++i) {
                KV f{{"class", "od"}, {"type", "an"}, {a, i / 2 ? "2" : "1"}, {b, i % 2 ? "8" : "7"}};
                if (!r.empty() && matches(f, r) && !got.insert(str(f)).second) {
                    got.insert("twice " + str(f));
                }
            }
        }
        return got == want ? "" : joinSet(mc::split(o.str(), '\n'), " & ") + " for " + joinSet(want, " and ");
    });
    if (!c.ok || !c.out.empty()) {
        ctx.fail("compact listing of an incomplete " + name, c.status() + c.out);
    }
    ctx.distinct(ctx.describe);
}

int main(int argc, char** argv) {
    mc::init(argc, argv, "C07", 120, 3600);
    std::vector<State> states = fx::states(mc::opts.thorough);
    std::map<const Universe*, std::vector<Req>> reqs;
    for (auto* u : Universe::every()) {
        auto all = requests(domain(*u));
        for (size_t i = 0; i < all.size(); ++i) {
            // quick: those with up to 3 keywords, and every seventh of the others
            if (mc::opts.thorough ? all[i].size() <= 5 : all[i].size() <= 2 || i % 23 == 0) {
                reqs[u].push_back(all[i]);
            }
        }
    }
    mc::sweep("states", states.size(), [&](mc::Ctx& ctx) { run(ctx, states[ctx.idx], reqs[states[ctx.idx].u]); }, 700);
    std::vector<std::array<int, 3>> sps;
    for (size_t k = 0; k < spells().size(); ++k) {
        for (size_t a = 0; a < spells()[k].same.size(); ++a) {
            sps.push_back({(int)k, (int)a, 0});
            sps.push_back({(int)k, (int)a, 1});
        }
    }
    mc::sweep("spellings", sps.size(), [&](mc::Ctx& ctx) { spelling(ctx, sps[ctx.idx][0], sps[ctx.idx][1], sps[ctx.idx][2]); });
    static const char* pairs[][2] = {{"step", "param"}, {"number", "step"}, {"date", "time"}, {"step", "levelist"}};
    mc::sweep("compact", 16, [&](mc::Ctx& ctx) {
        auto& p = pairs[ctx.idx / 4];
        compact(ctx, p[0], p[1], ctx.idx % 4, std::string(p[0]) + " x " + p[1]);
    });
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "Stored states (subsets of 6 fields x ways of archiving them x layouts, two schemas) times requests (each "
              "keyword absent, one value, several, an unknown one) times modes and depths; distinct_nontrivial counts "
              "distinct stored contents.";
    e.extra["requests"] = std::to_string(reqs[&Universe::plain()].size() + reqs[&Universe::mixed()].size() + reqs[&Universe::typed()].size());
    e.assumptions = {"the store does not change during a listing (C04 covers that)"};
    return mc::finish(e);
}
