// C11: purge removes only superseded data and changes no answer.
//
// (1) all histories of archive/flush/close/switching writers up to a depth, (2) stored states of three universes x
// requests, some after a wipe; a dry run, the purge, another purge, a purge in a process that goes on, archival
// afterwards: answers, files and tables of contents compared with a reference model.
#include <algorithm>
#include <sstream>

#include "fdb5/api/helpers/PurgeIterator.h"

#include "mc.h"
#include "world.h"

using namespace fx;
using CI = fdb5::ControlIdentifier;

namespace {

using Files = std::map<std::string, std::string>;

Result purge(const Setup& s, const Req& r, bool doit, bool porcelain) {
    auto c = mc::runChild([&]() {
        s.apply();
        fdb5::FDB fdb(s.config());
        auto it = fdb.purge(tool(r), doit, porcelain);
        fdb5::PurgeElement e;
        std::string out;
        while (it.next(e)) {
            out += e + "\n";
        }
        return out;
    });
    return {c.ok, c.ok ? c.out : (c.code == 3 ? "" : "!") + c.status() + c.out + c.log};
}

bool ends(const std::string& s, const std::string& t) {
    return s.size() >= t.size() && s.substr(s.size() - t.size()) == t;
}

struct Case {
    Setup setup;
    const Universe* u;
    std::string program;
    Req r;
    Req wipe;      ///< before
    bool wiped = false;
    int variant = 0;
};

/// Files of each database after the purge
void checkFiles(mc::Ctx& ctx, const Setup& s, const Model& before, const Model& after, const Files& f0, const Files& f1, const Req& r,
                bool exact) {
    std::map<std::string, std::pair<int, int>> index, data;  // expected, found, by database
    for (auto& db : before.dbs()) {
        index[db], data[db];
    }
    for (auto& x : after.indexFiles()) {
        index[x.substr(0, x.find('|'))].first++;
    }
    // data files of the fields that are still in an index
    data = index;
    std::map<std::string, std::string> dirs;
    for (auto& db : before.dbs()) {
        dirs[dirOf(db)] = db;
    }
    for (auto& kv : f0) {
        std::string p = kv.first.rfind("store/", 0) == 0 ? kv.first.substr(6) : kv.first;
        auto sl       = p.find('/');
        auto d        = dirs.find(p.substr(0, sl));
        bool there    = f1.count(kv.first);
        bool selected = d != dirs.end() && before.dbMatches(d->second, r);
        if (!selected) {
            if (!there || f1.at(kv.first) != kv.second) {
                ctx.fail("a file outside the request is changed", kv.first);
            }
            continue;
        }
        if (ends(p, ".index") || ends(p, ".data")) {
            if (there) {
                (ends(p, ".index") ? index : data)[d->second].second++;
                if (f1.at(kv.first) != kv.second) {
                    ctx.fail("a file is changed", kv.first);
                }
            }
            continue;
        }
        if (!there && !(s.subtocs && p.find("/toc.") != std::string::npos)) {
            ctx.fail("another file is removed", kv.first);
        }
        else if (there && (ends(p, "/toc") ? f1.at(kv.first).compare(0, kv.second.size(), kv.second) != 0 : f1.at(kv.first) != kv.second)) {
            ctx.fail("another file is changed", kv.first);
        }
    }
    for (auto& kv : f1) {
        if (!f0.count(kv.first)) {
            ctx.fail("a new file", kv.first);
        }
    }
    for (auto* m : {&index, &data}) {
        for (auto& x : *m) {
            if (!before.dbMatches(x.first, r)) {
                continue;
            }
            std::string what = m == &index ? "index files" : "data files";
            if (x.second.first > x.second.second) {
                ctx.fail(what + " in use are removed", x.first + ": " + std::to_string(x.second.second) + " of " + std::to_string(x.second.first));
            }
            if (exact && x.second.first < x.second.second) {
                ctx.fail(what + " without visible fields are left", x.first + ": " + std::to_string(x.second.second) + " instead of " + std::to_string(x.second.first));
            }
        }
    }
}

void run(mc::Ctx& ctx, const Case& c) {
    Setup s   = c.setup;
    s.dir     = ctx.dir;
    s.schema  = c.u->schema;
    auto& u   = *c.u;
    ctx.describe = s.describe() + "\n" + c.program + (c.wiped ? "\nwipe " + str(c.wipe) : "") + "\npurge " + str(c.r) + " variant " + std::to_string(c.variant);
    s.create();
    Model m;
    m.u       = c.u;
    m.subtocs = s.subtocs;
    effect(m, c.program);
    auto ch = mc::runChild([&]() {
        s.apply();
        build(s, u, c.program);
        return std::string();
    });
    if (!ch.ok) {
        ctx.fail("archiving fails", ch.status() + ch.out);
        return;
    }
    if (c.wiped) {
        m.wipe(c.wipe);
        if (auto w = wipe(s, c.wipe, true, false); !w.ok) {
            ctx.fail("wipe fails", w.out);
            return;
        }
    }
    auto f0 = files(s);
    if (auto a = seen(s, u), want = answers(m, true); a != want) {
        ctx.fail("answers before the purge", a + "\nexpected " + want);
        return;
    }
    if (c.variant == 2) {  // locked against wiping: not purged
        if (auto l = control(s, {}, false, CI::Wipe); !l.ok) {
            ctx.fail("control fails", l.out);
        }
        f0 = files(s);
        purge(s, c.r, true, false);
        if (auto d = changes(f0, files(s)); !d.empty()) {
            ctx.fail("purged although locked", d);
        }
        control(s, {}, true, CI::Wipe);
        f0 = files(s);
    }
    bool over = false;  // requests beyond the key of the database are refused
    for (auto& db : m.dbs()) {
        KV kv = parseKV(db);
        for (auto& k : c.r) {
            bool in = std::any_of(kv.begin(), kv.end(), [&](auto& p) { return p.first == k.first; });
            over |= !in && m.dbMatches(db, c.r);
        }
    }
    for (int porcelain = 0; porcelain < 2; ++porcelain) {
        auto dry = purge(s, c.r, false, porcelain);
        if (dry.ok == over) {
            ctx.fail(over ? "over-specified request accepted" : "dry run fails", dry.out);
        }
        if (auto d = changes(f0, files(s)); !d.empty()) {
            ctx.fail("dry run changes something", d);
            return;
        }
    }
    auto p  = purge(s, c.r, true, c.variant == 1);
    auto f1 = files(s);
    if (p.ok == over) {
        ctx.fail(over ? "over-specified request accepted" : "purge fails", p.out);
    }
    Model m1 = m;
    // (where data are kept apart from the catalogue, a purge leaves everything: see the sweep "apart")
    if (!over && !(s.separateStore && changes(f0, f1).empty())) {
        m1.purge(c.r);
    }
    else if (auto d = changes(f0, f1); !d.empty()) {
        ctx.fail("a refused purge changes something", d);
    }
    if (auto a = seen(s, u), want = answers(m1, true); a != want) {
        ctx.fail("answers after the purge", a + "\nexpected " + want);
    }
    if (!over) {
        checkFiles(ctx, s, m, m1, f0, f1, c.r, !s.separateStore);
        auto p2 = purge(s, c.r, true, c.variant == 1);
        if (!p2.ok) {
            ctx.fail("a second purge fails", p2.out);
        }
        if (auto d = changes(f1, files(s)); !d.empty()) {
            ctx.fail("a second purge changes something", d);
        }
    }
    // life goes on
    std::string more = "A0 A2 F A0 F C A1";
    int first        = m1.nextVersion;
    effect(m1, more);
    ch = mc::runChild([&]() {
        s.apply();
        build(s, u, more, first);
        return std::string();
    });
    if (!ch.ok) {
        ctx.fail("archiving after the purge fails", ch.status() + ch.out);
    }
    if (auto a = seen(s, u), want = answers(m1, true); a != want) {
        ctx.fail("answers after archiving again", a + "\nexpected " + want);
    }
    if (c.variant == 1) {
        auto f2 = files(s);
        auto m2 = m1;
        if (auto q = purge(s, {}, true, false); !q.ok) {
            ctx.fail("a later purge fails", q.out);
        }
        if (!(s.separateStore && changes(f2, files(s)).empty())) {
            m2.purge({});
        }
        if (auto a = seen(s, u), want = answers(m2, true); a != want) {
            ctx.fail("answers after a later purge", a + "\nexpected " + want);
        }
        checkFiles(ctx, s, m1, m2, f2, files(s), {}, !s.separateStore);
    }
    ctx.distinct(answers(m, true) + (s.subtocs ? "s" : "") + (c.wiped ? str(c.wipe) : "") + str(c.r));
    if (ctx.idx % 311 == 5) {
        ctx.sample(ctx.describe);
    }
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C11", 120, 3600);
    bool th = mc::opts.thorough;
    std::vector<Case> cases;
    // (1) histories over two fields of one index and one of another; two writers, without sub-tocs
    std::vector<std::string> programs;
    size_t depth = th ? 7 : 5;
    std::function<void(std::vector<std::string>)> gen = [&](std::vector<std::string> h) {
        std::string last = h.empty() ? "" : h.back();
        if (!h.empty() && last[0] == 'A') {
            programs.push_back(join(h, " "));
        }
        if (h.size() == depth) {
            return;
        }
        for (std::string op : {"A0", "A5", "A2", "F", "C"}) {
            if (op[0] != 'A' && (last.empty() || last == op || last == "C")) {
                continue;
            }
            // the first field archived is 0 (but for symmetry)
            if (h.empty() && op == "A5") {
                continue;
            }
            auto g = h;
            g.push_back(op);
            gen(g);
        }
    };
    gen({});
    size_t kept = 0;
    for (size_t i = 0; i < programs.size(); ++i) {
        // a purge concerns histories that write something twice
        auto& p = programs[i];
        bool twice = false;
        for (std::string a : {"A0", "A5", "A2"}) {
            auto x = p.find(a);
            twice |= x != std::string::npos && p.find(a, x + 1) != std::string::npos;
        }
        if (!twice && i % 7) {
            continue;
        }
        for (int layout = 0; layout < 3; ++layout) {
            if (!th && (int)(kept % 3) != layout) {
                continue;
            }
            Case c;
            c.setup.subtocs       = layout == 1;
            c.setup.separateStore = layout == 2;
            c.u                   = &Universe::plain();
            c.program             = p;
            c.variant             = kept % 4;
            cases.push_back(c);
        }
        ++kept;
    }
    // two writers at the same time
    for (std::string a : {"A0", "A0 A2", "A5"}) {
        for (std::string b : {"A0", "A2", "A0 A5 A2"}) {
            for (std::string mid : {"w1 C w2 C", "w2 C w1 C", "w1 A0 F w2 A2 F", "w2 A5 w1 A5 F w2 F", "w1 C A0 F w2 A0 A2 F"}) {
                for (int v = 0; v < 2; ++v) {
                    Case c;
                    c.u       = &Universe::plain();
                    c.program = "w1 " + a + " w2 " + b + " w" + (v ? "2" : "1") + " F w" + (v ? "1" : "2") + " F " + mid;
                    c.variant = v;
                    cases.push_back(c);
                    c.setup.separateStore = true;
                    cases.push_back(c);
                }
            }
        }
    }
    mc::sweep("histories", cases.size(), [&](mc::Ctx& ctx) { run(ctx, cases[ctx.idx]); });

    // (2) stored states, requests, wipes
    std::vector<Case> more;
    auto states = fx::states(th);
    for (size_t i = 0; i < states.size(); ++i) {
        auto& st = states[i];
        std::vector<Req> reqs;
        if (st.u == &Universe::typed()) {
            reqs = {{}, parseReq("class=od"), parseReq("class=od,time=0000"), parseReq("class=rd/od"), parseReq("class=od,type=an")};
        }
        else {
            reqs = {{}, parseReq("class=od"), parseReq("class=odx"), parseReq("class=od/odx,expver=1"), parseReq("expver=12"),
                    parseReq("class=od,type=an"), parseReq("class=zz")};
        }
        std::vector<Req> wipes = {parseReq("class=od,type=an"), parseReq("class=od/odx"), parseReq("class=od,type=fc/ana")};
        for (size_t k = 0; k < reqs.size(); ++k) {
            if (!th && (i + k) % 5) {
                continue;
            }
            Case c;
            c.setup   = st.setup;
            c.u       = st.u;
            c.program = st.program;
            c.r       = reqs[k];
            c.variant = (i + k) % 4;
            more.push_back(c);
            if (th || i % 2) {
                c.wiped = true;
                c.wipe  = wipes[(i + k) % 3];
                more.push_back(c);
            }
        }
    }
    mc::sweep("states", more.size(), [&](mc::Ctx& ctx) { run(ctx, more[ctx.idx]); });
    mc::sweep("apart", 1, [&](mc::Ctx& ctx) {
        Case c;
        Setup s         = c.setup;
        s.separateStore = true;
        s.dir           = ctx.dir;
        s.schema        = Universe::plain().schema;
        s.create();
        mc::runChild([&]() {
            s.apply();
            build(s, Universe::plain(), "A0 F C A0 F C");
            return std::string();
        });
        auto f0 = files(s);
        if (auto p = purge(s, {}, true, false); !p.ok || changes(f0, files(s)).empty()) {
            ctx.fail("nothing is purged where the store is apart from the catalogue", p.out);
        }
        ctx.distinct("apart");
    });
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "All histories of archiving three fields, flushing and closing up to a depth (those that write something twice), "
              "two concurrent writers, and stored states of three universes x requests, with and without a wipe before; each: "
              "two dry runs, a purge, a second purge, archival, another purge. distinct_nontrivial counts distinct contents.";
    e.extra["history depth"] = std::to_string(depth);
    e.assumptions            = {"nothing else uses the databases during a purge"};
    return mc::finish(e);
}
