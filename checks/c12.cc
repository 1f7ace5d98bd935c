// C12: locked operations are refused, and only those, until unlocked.
//
// (1) all sequences of enabling and disabling up to a depth: status and control files against a reference model;
// (2) all combinations of locks on two databases (a third has none) x layouts: every operation on every database.
#include <algorithm>
#include <sstream>

#include "eckit/exception/Exceptions.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/PurgeIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/database/IndexAxis.h"

#include "mc.h"
#include "world.h"

using namespace fx;
using CI = fdb5::ControlIdentifier;

namespace {

static const CI ids[]          = {CI::List, CI::Retrieve, CI::Archive, CI::Wipe, CI::UniqueRoot};
static const char* idFiles[]   = {"list.lock", "retrieve.lock", "archive.lock", "wipe.lock", "duplicates.allow"};

fdb5::ControlIdentifiers idsOf(int mask) {
    fdb5::ControlIdentifiers r;
    for (int i = 0; i < 5; ++i) {
        if (mask >> i & 1) {
            r |= ids[i];
        }
    }
    return r;
}
std::string maskText(int m) {
    std::string r;
    for (int i = 0; i < 5; ++i) {
        r += m >> i & 1 ? "lrawu"[i] : '-';
    }
    return r;
}

using Locks = std::map<std::string, int>;  // by database: what is disabled

std::string statusWant(const Locks& l) {
    std::vector<std::string> v;
    for (auto& x : l) {
        std::string t = dirOf(x.first);
        for (int i = 0; i < 5; ++i) {
            t += x.second >> i & 1 ? "-" : "+";
        }
        v.push_back(t);
    }
    std::sort(v.begin(), v.end());
    return join(v, " ");
}
std::string filesWrong(const Setup& s, const Locks& l) {
    std::string bad;
    auto t = tree(s.root());
    for (auto& x : l) {
        for (int i = 0; i < 5; ++i) {
            if (t.count(dirOf(x.first) + "/" + idFiles[i]) != (x.second >> i & 1u)) {
                bad += " " + dirOf(x.first) + "/" + idFiles[i];
            }
        }
    }
    return bad;
}

struct Action {
    bool enable;
    int mask;
    Req r;
    std::string str() const { return std::string(enable ? "enable " : "disable ") + maskText(mask) + " for " + fx::str(r); }
};

/// A control request acts on the databases whose key it matches, and on none if it goes beyond
void act(Locks& l, const Action& a) {
    for (auto& x : l) {
        KV kv    = parseKV(x.first);
        bool all = true;
        for (auto& p : a.r) {
            all &= matches(kv, {p});
        }
        if (all) {
            x.second = a.enable ? x.second & ~a.mask : x.second | a.mask;
        }
    }
}

void sequences(mc::Ctx& ctx, const Setup& proto, const std::vector<Action>& seq) {
    Setup s  = proto;
    auto& u  = Universe::plain();
    s.dir    = ctx.dir;
    s.schema = u.schema;
    s.create();
    ctx.describe = s.describe();
    for (auto& a : seq) {
        ctx.describe += "\n" + a.str();
    }
    auto c = mc::runChild([&]() {
        s.apply();
        build(s, u, "A0 A3 A4 F C");
        return std::string();
    });
    Model m;
    m.u = &u;
    m.subtocs = s.subtocs;
    effect(m, "A0 A3 A4 F C");
    Locks l;
    for (auto& db : m.dbs()) {
        l[db] = 0;
    }
    auto f0 = files(s);
    // all by one process, or each by its own
    bool one = ctx.idx % 2;
    std::string out;
    if (one) {
        out = mc::runChild([&]() {
                  s.apply();
                  fdb5::FDB fdb(s.config());
                  std::string r;
                  Locks k = l;
                  for (auto& a : seq) {
                      auto it = fdb.control(tool(a.r), a.enable ? fdb5::ControlAction::Enable : fdb5::ControlAction::Disable, idsOf(a.mask));
                      fdb5::ControlElement e;
                      while (it.next(e)) {
                          // reports the state after the change
                          std::string d = e.location.path().baseName().asString();
                          r += "E " + d + " ";
                          for (int i = 0; i < 5; ++i) {
                              r += e.controlIdentifiers.enabled(ids[i]) ? '+' : '-';
                          }
                          r += "\n";
                      }
                      r += ".\n";
                  }
                  return r;
              }).out;
        auto lines = mc::split(out, '\n');
        size_t n   = 0;
        for (auto& a : seq) {
            Locks before = l;
            act(l, a);
            std::set<std::string> want, got;
            for (auto& x : l) {
                Locks t{x};
                KV kv    = parseKV(x.first);
                bool all = true;
                for (auto& p : a.r) {
                    all &= matches(kv, {p});
                }
                if (all) {
                    auto w = statusWant(t);
                    want.insert("E " + w.substr(0, w.size() - 5) + " " + w.substr(w.size() - 5));
                }
            }
            while (n < lines.size() && lines[n] != ".") {
                got.insert(lines[n++]);
            }
            if (n >= lines.size()) {
                ctx.fail("control fails", out);
                return;
            }
            ++n;
            if (want != got) {
                ctx.fail("control reports another state", joinSet(got, "; ") + " instead of " + joinSet(want, "; "));
            }
        }
    }
    else {
        for (auto& a : seq) {
            act(l, a);
            auto r = control(s, a.r, a.enable, idsOf(a.mask));
            if (!r.ok) {
                ctx.fail("control fails", r.out);
                return;
            }
        }
    }
    if (auto st = statusOf(s); st != statusWant(l)) {
        ctx.fail("status differs", st + " instead of " + statusWant(l));
    }
    if (auto b = filesWrong(s, l); !b.empty()) {
        ctx.fail("control files differ", b);
    }
    auto f1 = files(s);
    for (auto& kv : f0) {
        if (!f1.count(kv.first) || f1[kv.first] != kv.second) {
            ctx.fail("control changes another file", kv.first);
        }
    }
    ctx.distinct(statusWant(l) + (one ? "1" : "n"));
}

//---------------------------------------------------------------------------------------------------------- operations

std::string axesText(fdb5::FDB& fdb, int level) {
    std::vector<std::string> v;
    auto it = fdb.axesIterator(tool({}), level);
    fdb5::AxesElement e;
    while (it.next(e)) {
        std::ostringstream o;
        o << e.key() << e.axes();
        v.push_back(o.str());
    }
    std::sort(v.begin(), v.end());
    return join(v, ";");
}
std::string statsText(fdb5::FDB& fdb) {
    std::vector<std::string> v;
    auto it = fdb.stats(tool({}));
    fdb5::StatsElement e;
    while (it.next(e)) {
        std::ostringstream o;
        e.indexStatistics.report(o);
        v.push_back(o.str());
    }
    std::sort(v.begin(), v.end());
    return join(v, ";");
}
std::string others(fdb5::FDB& fdb) {
    std::string r;
    for (int l = 1; l < 4; ++l) {
        r += axesText(fdb, l) + "\n";
    }
    return r + statsText(fdb);
}

void operations(mc::Ctx& ctx, const Setup& proto, const Universe& u, const std::string& program, int mask1, int mask2, bool sameProcess) {
    Setup s  = proto;
    s.dir    = ctx.dir;
    s.schema = u.schema;
    s.create();
    Model m;
    m.u       = &u;
    m.subtocs = s.subtocs;
    effect(m, program);
    auto dbs = m.dbs();
    Locks l;
    int n = 0;
    for (auto& db : dbs) {
        l[db] = n == 0 ? mask1 : n == 1 ? mask2 : 0;
        ++n;
    }
    ctx.describe = s.describe() + "\n" + program + "\nlocked: " + statusWant(l) + (sameProcess ? "; by the same process" : "");
    auto off     = [&](const std::string& db, int bit) { return l[db] >> bit & 1; };
    enum { LIST, RETRIEVE, ARCHIVE, WIPE };
    auto c = mc::runChild([&]() {
        s.apply();
        build(s, u, program);
        return std::string();
    });
    if (!c.ok) {
        ctx.fail("archiving fails", c.status());
        return;
    }
    // reading
    Model visible = m;
    c             = mc::runChild([&]() {
        s.apply();
        std::string bad;
        auto fail = [&](const std::string& sig, const std::string& detail) {
            std::string d = detail;
            std::replace(d.begin(), d.end(), '\n', '|');
            bad += sig + "\t" + d + "\n";
        };
        std::string base;
        std::unique_ptr<fdb5::FDB> fdb(new fdb5::FDB(s.config()));
        base = others(*fdb);
        if (sameProcess) {
            list(*fdb, {}, Dedup);
        }
        else {
            fdb.reset();
        }
        {
            std::unique_ptr<fdb5::FDB> other;
            fdb5::FDB* by = fdb.get();
            if (!sameProcess) {
                other.reset(new fdb5::FDB(s.config()));
                by = other.get();
            }
            for (auto& x : l) {
                if (!x.second) {
                    continue;
                }
                auto it = by->control(tool(reqOf(parseKV(x.first))), fdb5::ControlAction::Disable, idsOf(x.second));
                fdb5::ControlElement e;
                while (it.next(e)) {
                }
            }
        }
        if (!fdb) {
            fdb.reset(new fdb5::FDB(s.config()));
        }
        // listing: 3 depths, with and without duplicates
        for (int mode = 0; mode < 2; ++mode) {
            std::multiset<std::string> want, got;
            for (auto& e : mode ? m.all() : std::vector<std::pair<int, int>>()) {
                if (!off(u.db(e.first), LIST)) {
                    want.insert(fv(e.first, e.second));
                }
            }
            for (auto& e : mode ? std::map<int, int>() : m.visible()) {
                if (!off(u.db(e.first), LIST)) {
                    want.insert(fv(e.first, e.second));
                }
            }
            for (auto& e : listing(*fdb, u, {}, mode ? Full : Dedup)) {
                got.insert(e);
            }
            if (want != got) {
                fail("listing under locks differs", joinSet(got) + " instead of " + joinSet(want));
            }
        }
        for (int level = 1; level < 3; ++level) {
            std::set<std::string> want, got;
            for (auto& p : m.indexes) {
                if (!off(p.db, LIST)) {
                    want.insert(level == 1 ? p.db : p.index);
                }
            }
            for (auto& e : list(*fdb, {}, Dedup, level, false)) {
                got.insert(level == 1 ? e.k[0] : e.k[0] + "|" + e.k[1]);
            }
            if (want != got) {
                fail("listing at depth " + std::to_string(level) + " under locks differs", joinSet(got) + " instead of " + joinSet(want));
            }
        }
        // retrieval
        auto vis = m.visible();
        for (size_t f = 0; f < u.size(); ++f) {
            std::string want = vis.count(f) && !off(u.db(f), RETRIEVE) ? fv(f, vis[f]) : "";
            if (want.empty() && u.fallback.count(f) && vis.count(u.fallback.at(f)) && !off(u.db(f), RETRIEVE)) {
                want = fv(u.fallback.at(f), vis[u.fallback.at(f)]);
            }
            std::string got;
            try {
                got = retrieve(*fdb, u.all(f));
            }
            catch (std::exception& e) {
                got = want.empty() ? "" : std::string("exception ") + e.what();
            }
            if (want != got) {
                fail("retrieval under locks differs", "field " + std::to_string(f) + ": " + got + " instead of " + want);
            }
        }
        if (auto o = others(*fdb); o != base) {
            fail("axes or statistics differ under locks", o + " instead of " + base);
        }
        return bad;
    });
    auto report = [&](const mc::Child& c) {
        if (!c.ok) {
            ctx.fail("operations under locks fail", c.status() + c.out + c.log);
        }
        for (auto& x : mc::split(c.out, '\n')) {
            auto f = mc::split(x, '\t');
            if (f.size() == 2) {
                ctx.fail(f[0], f[1]);
            }
        }
    };
    report(c);
    auto f0 = files(s);
    // archival: refused where locked, with no effect; the others as ever, in the same FDB
    std::vector<int> done;
    Model next = m;
    c          = mc::runChild([&]() {
        s.apply();
        std::string out;
        fdb5::FDB fdb(s.config());
        int v = m.nextVersion;
        for (size_t f = 0; f < u.size(); ++f) {
            auto d = payload(f, v++);
            try {
                fdb.archive(key(u.all(f)), d.data(), d.size());
                out += "A" + std::to_string(f) + " ";
            }
            catch (eckit::UserError&) {
                out += "R" + std::to_string(f) + " ";
            }
        }
        fdb.flush();
        return out;
    });
    std::string want, prog;
    for (size_t f = 0; f < u.size(); ++f) {
        bool refused = off(u.db(f), ARCHIVE);
        want += (refused ? "R" : "A") + std::to_string(f) + " ";
        next.nextVersion = m.nextVersion + f;
        if (!refused) {
            // (versions count refused attempts too)
            Model t     = next;
            t.indexes   = {};
            effect(t, "A" + std::to_string(f));
            bool merged = false;
            for (auto& p : next.indexes) {
                if (p.session == -1 && p.index == t.indexes[0].index) {
                    p.entries[f] = next.nextVersion;
                    merged       = true;
                }
            }
            if (!merged) {
                t.indexes[0].session = -1;
                next.indexes.push_back(t.indexes[0]);
            }
        }
    }
    if (!c.ok || c.out != want) {
        ctx.fail("archival under locks differs", c.status() + c.out + " instead of " + want);
    }
    auto f1 = files(s);
    for (auto& db : dbs) {
        if (!off(db, ARCHIVE)) {
            continue;
        }
        std::map<std::string, std::string> a, b;
        for (auto* fs : {&f0, &f1}) {
            for (auto& kv : *fs) {
                std::string p = kv.first.rfind("store/", 0) == 0 ? kv.first.substr(6) : kv.first;
                if (p.rfind(dirOf(db) + "/", 0) == 0) {
                    (fs == &f0 ? a : b).insert(kv);
                }
            }
        }
        if (auto d = changes(a, b); !d.empty()) {
            ctx.fail("a refused archival changes the database", d);
        }
    }
    if (auto st = statusOf(s); st != statusWant(l)) {
        ctx.fail("status differs", st + " instead of " + statusWant(l));
    }
    // purge, then wipe, of each database
    for (auto& db : dbs) {
        auto p = mc::runChild([&]() {
            s.apply();
            fdb5::FDB fdb(s.config());
            auto it = fdb.purge(tool(reqOf(parseKV(db))), true, false);
            fdb5::PurgeElement e;
            while (it.next(e)) {
            }
            return std::string();
        });
        if (!p.ok) {
            ctx.fail("purge under locks fails", db + ": " + p.status() + p.out + p.log);
        }
        auto f2 = files(s);
        if (off(db, WIPE)) {
            if (auto d = changes(f1, f2); !d.empty()) {
                ctx.fail("purged although locked", d);
            }
        }
        else if (!s.separateStore) {
            next.purge(reqOf(parseKV(db)));
        }
        auto w = wipe(s, reqOf(parseKV(db)), true, false);
        auto f3 = files(s);
        if (off(db, WIPE)) {
            if (w.ok || !changes(f2, f3).empty()) {
                ctx.fail("wiped although locked", w.out + changes(f2, f3));
            }
        }
        else {
            if (!w.ok) {
                ctx.fail("wipe under other locks fails", w.out);
            }
            next.removeDB(db);
            l.erase(db);
        }
        f1 = f3;
    }
    if (auto st = statusOf(s); st != statusWant(l)) {
        ctx.fail("status after wipes differs", st + " instead of " + statusWant(l));
    }
    // unlocked again
    if (auto r = control(s, {}, true, idsOf(31)); !r.ok) {
        ctx.fail("control fails", r.out);
    }
    if (auto a = seen(s, u), w = answers(next, true); a != w) {
        ctx.fail("answers after unlocking", a + " instead of " + w);
    }
    for (auto& x : l) {
        x.second = 0;
    }
    if (auto st = statusOf(s); st != statusWant(l)) {
        ctx.fail("status after unlocking differs", st);
    }
    std::string again = "A0 A1 A2 A3 A4 A5";
    int first         = next.nextVersion + 1;
    next.nextVersion  = first;
    effect(next, again);
    c = mc::runChild([&]() {
        s.apply();
        build(s, u, again, first);
        return std::string();
    });
    if (!c.ok) {
        ctx.fail("archiving after unlocking fails", c.status() + c.out);
    }
    if (auto a = seen(s, u), w = answers(next, true); a != w) {
        ctx.fail("answers after archiving again", a + " instead of " + w);
    }
    ctx.distinct(ctx.describe);
    if (ctx.idx % 173 == 3) {
        ctx.sample(ctx.describe);
    }
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C12", 120, 3600);
    bool th = mc::opts.thorough;
    std::vector<Setup> setups(3);
    setups[1].subtocs       = true;
    setups[2].separateStore = true;
    // (1)
    std::vector<Action> acts;
    for (int en = 0; en < 2; ++en) {
        for (int mask : {1, 2, 4, 8, 16, 15, 3, 12}) {
            for (auto r : {"", "class=od", "class=od,expver=1", "class=odx/od", "expver=12", "class=zz", "class=od,type=an"}) {
                acts.push_back({en != 0, mask, parseReq(r)});
            }
        }
    }
    std::vector<std::vector<Action>> seqs;
    size_t na = acts.size();
    for (size_t a = 0; a < na; ++a) {
        seqs.push_back({acts[a]});
        for (size_t b = 0; b < na; ++b) {
            if (th || (a * 3 + b) % 5 == 0) {
                seqs.push_back({acts[a], acts[b]});
            }
            if ((th && (a + b) % 2 == 0) || (a + b * 5) % 23 == 0) {
                seqs.push_back({acts[a], acts[b], acts[(a * 7 + b * 13) % na]});
            }
        }
    }
    mc::sweep("sequences", seqs.size(), [&](mc::Ctx& ctx) { sequences(ctx, setups[ctx.idx % 3], seqs[ctx.idx]); });
    // (2)
    struct Case {
        const Setup* s;
        const Universe* u;
        std::string program;
        int a, b;
        bool same;
    };
    std::vector<Case> cases;
    for (int a = 0; a < 16; ++a) {
        for (int b = 0; b < 16; ++b) {
            for (int lay = 0; lay < 3; ++lay) {
                for (auto* u : Universe::every()) {
                    for (int prog = 0; prog < 2; ++prog) {
                        if (th || (a + b * 3 + lay * 5 + prog * 2 + (u == &Universe::mixed() ? 3 : u == &Universe::typed() ? 4 : 0)) % 7 == 0) {
                            cases.push_back({&setups[lay], u, prog ? "A0 A1 F A0 A3 C A2 A4 A5 F" : "A0 A1 A2 A3 A4 A5 F", a, b, (a + b) % 2 != 0});
                        }
                    }
                }
            }
        }
    }
    mc::sweep("operations", cases.size(), [&](mc::Ctx& ctx) {
        auto& c = cases[ctx.idx];
        operations(ctx, *c.s, *c.u, c.program, c.a, c.b, c.same);
    });
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "(1) sequences of up to three control requests (enable/disable x identifiers x requests) by one or several "
              "processes; (2) combinations of locks on two databases x layouts x universes: every operation on every database, "
              "then unlocked. distinct_nontrivial counts distinct states of the locks and combinations.";
    e.assumptions = {"an FDB which has opened a database before it is locked may go on using it for archiving or retrieval"};
    return mc::finish(e);
}
