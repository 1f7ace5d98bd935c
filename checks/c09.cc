// C09: axes are the values present in the selected data.
//
// Stored states (before and after a wipe and re-archival) x requests x depths, compared with a reference model.
#include <algorithm>
#include <sstream>

#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/database/IndexAxis.h"

#include "mc.h"
#include "world.h"

using namespace fx;

using Axes = std::map<std::string, std::set<std::string>>;

static std::string text(const Axes& a) {
    std::string r;
    for (auto& k : a) {
        r += k.first + "=" + joinSet(k.second, "/") + " ";
    }
    return r;
}

static Axes toAxes(const fdb5::IndexAxis& x, std::string& bad) {
    Axes a;
    for (auto& kv : x.map()) {
        std::string prev;
        bool first = true;
        for (auto& v : kv.second) {
            if (!first && v <= prev) {
                bad += kv.first + " lists " + v + " after " + prev + "; ";
            }
            first = false;
            prev  = v;
            // (a keyword that a field lacks has the empty value)
            if (!v.empty()) {
                a[kv.first].insert(v);
            }
        }
        if (!x.has(kv.first) || x.values(kv.first).size() != kv.second.size()) {
            bad += kv.first + " is in the map, but not among the values; ";
        }
    }
    return a;
}

static void add(Axes& a, const KV& kv) {
    for (auto& p : kv) {
        a[p.first].insert(p.second);
    }
}
static bool within(const Axes& a, const Axes& b, std::string& what) {
    for (auto& k : a) {
        for (auto& v : k.second) {
            auto it = b.find(k.first);
            if (it == b.end() || !it->second.count(v)) {
                what += " " + k.first + "=" + v;
            }
        }
    }
    return what.empty();
}

static std::string explore(const Setup& s, const Universe& u, const Model& m, const std::vector<Req>& reqs, uint64_t& n,
                           const std::string& stage) {
    std::string out;
    auto fail = [&](const std::string& sig, const std::string& detail) {
        if (out.size() < 4000) {
            out += sig + "\t" + stage + detail + "\n";
        }
    };
    fdb5::FDB fdb(s.config());
    auto all = m.all();
    unsigned turn = 0;
    for (auto& r : reqs) {
        Spelt spelt(u.spell, ++turn);
        for (int level = 1; level <= 3; ++level) {
            ++n;
            // per database: at least and at most; and all databases together
            std::map<std::string, Axes> least, most;
            for (auto& p : m.indexes) {
                if (!m.dbMatches(p.db, r)) {
                    continue;
                }
                auto& a = most[p.db];
                add(a, parseKV(p.db));
                least[p.db];
                Req q;  // keywords that no field of the index has do not select
                for (auto& k : r) {
                    bool known = false;
                    for (auto& e : p.entries) {
                        for (auto& kv : u.all(e.first)) {
                            known |= kv.first == k.first;
                        }
                    }
                    if (known) {
                        q.push_back(k);
                    }
                }
                if (level > 1 && m.indexMatches(p, q)) {
                    add(a, parseKV(p.index.substr(p.index.find('|') + 1)));
                    if (level > 2) {
                        for (auto& e : p.entries) {
                            add(a, u.fields[e.first][2]);
                        }
                    }
                }
                for (auto& e : p.entries) {
                    if (matches(u.all(e.first), r)) {
                        for (int l = 0; l < level; ++l) {
                            add(least[p.db], u.fields[e.first][l]);
                        }
                    }
                }
            }
            try {
                std::string bad;
                auto it = fdb.axesIterator(tool(r), level);
                fdb5::AxesElement e;
                std::set<std::string> dbs;
                Axes sum;
                while (it.next(e)) {
                    KV kv;
                    for (auto& k : e.key()) {
                        kv.push_back(k);
                    }
                    std::string db = str(kv);
                    if (!dbs.insert(db).second) {
                        fail("database reported twice", str(r) + " at depth " + std::to_string(level) + ": " + db);
                    }
                    if (!most.count(db)) {
                        fail("axes of a database that does not match", str(r) + " at depth " + std::to_string(level) + ": " + db);
                        continue;
                    }
                    Axes a = toAxes(e.axes(), bad);
                    for (auto& k : a) {
                        sum[k.first].insert(k.second.begin(), k.second.end());
                    }
                    std::string miss, extra;
                    within(least[db], a, miss);
                    within(a, most[db], extra);
                    if (!miss.empty()) {
                        fail("axes lack a value at depth " + std::to_string(level), str(r) + ": " + db + " lacks" + miss + " in " + text(a));
                    }
                    if (!extra.empty()) {
                        fail("axes have another value at depth " + std::to_string(level),
                             str(r) + ": " + db + " has" + extra + " beyond " + text(most[db]));
                    }
                    // its form
                    std::ostringstream o;
                    o << e.axes();
                }
                for (auto& l : least) {
                    if (!l.second.empty() && !dbs.count(l.first)) {
                        fail("axes lack a database", str(r) + " at depth " + std::to_string(level) + ": " + l.first);
                    }
                }
                Axes merged = toAxes(fdb.axes(tool(r), level), bad);
                if (merged != sum) {
                    fail("merged axes are not the union", str(r) + " at depth " + std::to_string(level) + ": " + text(merged) +
                                                              " instead of " + text(sum));
                }
                if (!bad.empty()) {
                    fail("malformed axes", str(r) + ": " + bad);
                }
            }
            catch (std::exception& e) {
                fail("axes fail", str(r) + " at depth " + std::to_string(level) + ": " + e.what());
            }
        }
    }
    return out;
}

static void run(mc::Ctx& ctx, const State& st, const std::vector<Req>& reqs, const std::vector<Req>& wipes) {
    Setup s  = st.setup;
    s.dir    = ctx.dir;
    s.schema = st.u->schema;
    s.create();
    Req w        = wipes[ctx.idx % wipes.size()];
    ctx.describe = s.describe() + "\n" + st.program + "\nthen wipe " + str(w) + ", then archive all";
    Model m;
    m.u       = st.u;
    m.subtocs = s.subtocs;
    uint64_t n = 0;
    std::string outcome;
    for (int stage = 0; stage < 3; ++stage) {
        if (stage == 1) {
            m.wipe(w);
            if (auto x = wipe(s, w, true, false); !x.ok) {
                ctx.fail("wipe fails", x.out);
                return;
            }
        }
        else {
            std::string p = stage ? "A5 A4 A3 A2 A1 A0" : st.program;
            int first     = m.nextVersion;
            effect(m, p);
            auto c = mc::runChild([&]() {
                s.apply();
                build(s, *st.u, p, first);
                return std::string();
            });
            if (!c.ok) {
                ctx.fail("archiving fails", c.status() + c.out);
                return;
            }
        }
        auto c = mc::runChild([&]() {
            s.apply();
            uint64_t k = 0;
            auto r     = explore(s, *st.u, m, reqs, k, stage == 1 ? "after the wipe: " : stage ? "in the end: " : "");
            return std::to_string(k) + "\n" + r;
        }, 600);
        if (!c.ok) {
            ctx.fail("axes end the process", c.status() + c.out + c.log);
            return;
        }
        auto lines = mc::split(c.out, '\n');
        n += atoll(lines[0].c_str());
        for (size_t i = 1; i < lines.size(); ++i) {
            auto f = mc::split(lines[i], '\t');
            if (f.size() == 2) {
                ctx.fail(f[0], f[1]);
            }
        }
        outcome += answers(m, true);
    }
    ctx.count("axes", n);
    ctx.distinct(outcome + (s.subtocs ? "s" : ""));
    if (ctx.idx % 97 == 5) {
        ctx.sample(ctx.describe + "; " + std::to_string(reqs.size()) + " requests at 3 depths");
    }
}

int main(int argc, char** argv) {
    mc::init(argc, argv, "C09", 120, 3600);
    auto states = fx::states(mc::opts.thorough);
    std::map<const Universe*, std::vector<Req>> reqs;
    for (auto* u : Universe::every()) {
        auto all = requests(domain(*u));
        for (size_t i = 0; i < all.size(); ++i) {
            if (mc::opts.thorough ? all[i].size() <= 4 : all[i].size() <= 2 && (all[i].size() < 2 || i % 5 == 0) || i % 59 == 0) {
                reqs[u].push_back(all[i]);
            }
        }
    }
    std::vector<Req> wipes = {parseReq("class=od,type=an"), parseReq("class=odx"), parseReq("type=an"), parseReq("expver=1")};
    mc::sweep("states", states.size(), [&](mc::Ctx& ctx) { run(ctx, states[ctx.idx], reqs[states[ctx.idx].u], wipes); }, 1000);
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "Stored states (subsets of 6 fields x ways of archiving them x layouts, two schemas), each before a wipe, after "
              "it, and after archiving again, times requests times depths; distinct_nontrivial counts distinct histories.";
    e.extra["requests"] = std::to_string(reqs[&Universe::plain()].size() + reqs[&Universe::mixed()].size() + reqs[&Universe::typed()].size());
    e.assumptions       = {"the store does not change while its axes are read"};
    return mc::finish(e);
}
