// C10: wipe removes exactly what was asked, and nothing without being told to.
//
// Stored states x wipe requests x variants (dry run, confirmed, unknown files, locks), and sequences of wipes and
// archivals; the database, its files and its locks are compared with a reference model after each step.
#include <algorithm>
#include <filesystem>
#include <sstream>

#include "mc.h"
#include "world.h"

using namespace fx;
using CI = fdb5::ControlIdentifier;
namespace fs = std::filesystem;

using CI = fdb5::ControlIdentifier;

/// Files after a confirmed wipe, given those before
static std::string checkFiles(const Setup& s, const std::map<std::string, std::string>& before,
                              const std::map<std::string, std::string>& after, const std::set<std::string>& gone,
                              const std::set<std::string>& goneIdx, const std::string& report) {
    std::string bad;
    auto foreign = [](const std::string& p) { return p.find("notes.txt") != std::string::npos || p.find("foreign.data") != std::string::npos; };
    std::set<std::string> deleted;
    for (auto& line : mc::split(report, '\n')) {
        if (line[0] == 'D') {
            std::string p = line.substr(2);
            if (p.rfind(s.root() + "/", 0) == 0) {
                deleted.insert(p.substr(s.root().size() + 1));
            }
            else if (s.separateStore && p.rfind(s.storeRoot() + "/", 0) == 0) {
                deleted.insert("store/" + p.substr(s.storeRoot().size() + 1));
            }
            else {
                bad += " reported outside the roots: " + p;
            }
        }
    }
    for (auto& kv : before) {
        std::string p = kv.first;
        if (p.rfind("store/", 0) == 0) {
            p = p.substr(6);
        }
        auto sl          = p.find('/');
        std::string dir  = p.substr(0, sl);
        std::string base = sl == std::string::npos ? "" : p.substr(sl + 1);
        bool exists      = after.count(kv.first);
        bool wholeDB     = false;
        for (auto& g : gone) {
            wholeDB |= dirOf(g) == dir;
        }
        if (base.empty()) {  // the directory
            if (exists == wholeDB) {
                bad += exists ? " left: " + kv.first : " lost: " + kv.first;
            }
            continue;
        }
        bool index = false;
        for (auto& g : goneIdx) {
            // (keys are sorted here; names have the values in the order of the schema)
            auto want = mc::split(dirOf(g.substr(g.find('|') + 1)), ':');
            auto name = mc::split(base.substr(0, base.find('.')), ':');
            std::sort(want.begin(), want.end());
            std::sort(name.begin(), name.end());
            index |= dirOf(g.substr(0, g.find('|'))) == dir && want == name;
        }
        bool data = base.size() > 5 && base.substr(base.size() - 5) == ".data";
        if (wholeDB) {
            if (exists) {
                bad += " left: " + kv.first;
            }
        }
        else if (index) {
            // (index files of consolidated sub-tocs are left to a purge)
            if (exists && (data || !s.subtocs)) {
                bad += " left: " + kv.first;
            }
        }
        else if (!exists) {
            bad += " lost: " + kv.first;
        }
        else if (base != "toc" ? after.at(kv.first) != kv.second : after.at(kv.first).compare(0, kv.second.size(), kv.second) != 0) {
            bad += " changed: " + kv.first;
        }
        // what the report says is what happened
        if (!exists && !deleted.count(kv.first) && !foreign(kv.first)) {
            bad += " removed but not reported: " + kv.first;
        }
        if (exists && deleted.count(kv.first)) {
            bad += " reported but not removed: " + kv.first;
        }
    }
    for (auto& kv : after) {
        if (!before.count(kv.first)) {
            bad += " new: " + kv.first;
        }
    }
    return bad;
}

//--------------------------------------------------------------------------------------------------------- one wipe

enum Variant { CONFIRMED, UNKNOWN_CAT, UNKNOWN_STORE, UNSAFE, LOCKED_WIPE, LOCKED_SOME, NVARIANTS };
static const char* variantNames[] = {"confirmed", "unknown file", "unknown data file", "unknown files, unsafe", "wipe disabled", "list, retrieve or archive disabled"};

static void makeState(mc::Ctx& ctx, const Setup& s, const Universe& u, const std::string& program, int first = 1) {
    auto c = mc::runChild([&]() {
        s.apply();
        build(s, u, program, first);
        return std::string();
    });
    if (!c.ok) {
        ctx.fail("archiving fails", c.status() + c.out);
    }
}

static void one(mc::Ctx& ctx, const Setup& proto, const Universe& u, const std::string& program, const Req& r, int variant) {
    Setup s  = proto;
    s.dir    = ctx.dir;
    s.schema = u.schema;
    s.create();
    ctx.describe = s.describe() + "\n" + program + "\nwipe " + str(r) + " (" + variantNames[variant] + ")";
    Model m;
    m.u       = &u;
    m.subtocs = s.subtocs;
    effect(m, program);
    makeState(ctx, s, u, program);
    if (ctx.failed()) {
        return;
    }
    auto dbs = m.dbs();

    // preparations
    std::set<std::string> unclean;
    if (variant == UNKNOWN_CAT || variant == UNKNOWN_STORE || variant == UNSAFE) {
        for (auto& db : dbs) {
            if (variant != UNKNOWN_STORE) {
                writeFile(s.root() + "/" + dirOf(db) + "/notes.txt", "precious");
            }
            if (variant != UNKNOWN_CAT) {
                writeFile(s.storeRoot() + "/" + dirOf(db) + "/foreign.data", "precious");
            }
            unclean.insert(db);
            if (ctx.idx % 2) {
                break;  // only in one of them
            }
        }
    }
    fdb5::ControlIdentifiers off;
    if (variant == LOCKED_WIPE) {
        off |= CI::Wipe;
    }
    if (variant == LOCKED_SOME) {
        int k = ctx.idx % 7 + 1;
        if (k & 1) {
            off |= CI::List;
        }
        if (k & 2) {
            off |= CI::Retrieve;
        }
        if (k & 4) {
            off |= CI::Archive;
        }
    }
    Req lockOf;
    if (variant == LOCKED_WIPE || variant == LOCKED_SOME) {
        if (ctx.idx % 3 == 0) {
            lockOf = {{"class", {"od"}}};
        }
        auto c = control(s, lockOf, false, off);
        if (!c.ok) {
            ctx.fail("control fails", c.out);
            return;
        }
    }
    auto before    = files(s);
    auto status0   = statusOf(s);
    std::string a0 = seen(s, u);

    // dry run: changes nothing, says the same as the confirmed run
    auto dry = wipe(s, r, false, variant == UNSAFE);
    if (!dry.ok && variant != LOCKED_WIPE) {
        ctx.fail("dry run fails", dry.out);
    }
    auto afterDry = files(s);
    if (auto d = changes(before, afterDry); !d.empty()) {
        ctx.fail("dry run changes something", d);
        return;
    }

    // the wipe
    std::set<std::string> gone, goneIdx;
    Model m1 = m;
    m1.wipe(r, gone, goneIdx);
    if (variant == LOCKED_WIPE) {
        // a locked database is refused; the others are each as they were, or as asked
        bool any = false;
        std::set<std::string> locked;
        for (auto& db : dbs) {
            if (m.dbMatches(db, lockOf)) {
                locked.insert(db);
                any |= m.dbMatches(db, r);
            }
        }
        if (dry.ok == any) {
            ctx.fail(any ? "dry run in a locked database not refused" : "dry run fails", dry.out);
        }
        auto w     = wipe(s, r, true, false);
        auto after = files(s);
        if (w.out[0] == '!') {
            ctx.fail("wipe ends the process", w.out);
        }
        if (w.ok == any) {
            ctx.fail(any ? "locked database not refused" : "wipe fails", w.out);
        }
        Model m2 = m;
        for (auto& db : dbs) {
            std::map<std::string, std::string> b, a;
            for (auto* fs : {&before, &after}) {
                for (auto& kv : *fs) {
                    std::string p = kv.first.rfind("store/", 0) == 0 ? kv.first.substr(6) : kv.first;
                    if (p.rfind(dirOf(db) + "/", 0) == 0) {
                        (fs == &before ? b : a).insert(kv);
                    }
                }
            }
            bool touched = !changes(b, a).empty();
            if (touched && (locked.count(db) || !m.dbMatches(db, r))) {
                ctx.fail("locked database changed", db + ":" + changes(b, a));
            }
            if (touched || !any) {
                Req rd = r;
                for (auto& p : parseKV(db)) {
                    rd.erase(std::remove_if(rd.begin(), rd.end(), [&](auto& q) { return q.first == p.first; }), rd.end());
                    if (m.dbMatches(db, r)) {
                        rd.push_back({p.first, {p.second}});
                    }
                }
                if (!locked.count(db) && m.dbMatches(db, r)) {
                    std::set<std::string> x, y;
                    m2.wipe(rd, x, y);
                }
            }
        }
        auto st = statusOf(s);
        for (auto& x : mc::split(status0, ' ')) {
            std::string d = x.substr(0, x.size() - 5);
            bool there    = fs::exists(s.root() + "/" + d);
            if (there && (" " + st + " ").find(" " + x + " ") == std::string::npos) {
                ctx.fail("refused wipe changes the control state", status0 + " -> " + st);
            }
        }
        control(s, {}, true, off);
        if (std::string a1 = seen(s, u), want = answers(m2, true); a1 != want) {
            ctx.fail("answers after a refused wipe", "before: " + a0 + "\nafter: " + a1 + "\nexpected: " + want);
        }
        ctx.distinct("locked" + str(r) + joinSet(locked));
        return;
    }
    // the only reason to refuse: a database that would go altogether holds unknown files
    bool refuse = false;
    for (auto& g : gone) {
        refuse |= unclean.count(g) && variant != UNSAFE;
    }
    auto w      = wipe(s, r, true, variant == UNSAFE);
    auto after  = files(s);
    if (w.out[0] == '!') {
        ctx.fail("wipe ends the process", w.out);
    }
    if (w.ok == refuse) {
        ctx.fail(refuse ? "unclean database not refused" : "wipe fails", w.out);
    }
    if (refuse) {
        // each database is as it was, or (if clean) as asked
        for (auto& db : dbs) {
            std::map<std::string, std::string> b, a;
            for (auto* fs : {&before, &after}) {
                for (auto& kv : *fs) {
                    std::string p = kv.first.rfind("store/", 0) == 0 ? kv.first.substr(6) : kv.first;
                    if (p.rfind(dirOf(db) + "/", 0) == 0) {
                        (fs == &before ? b : a).insert(kv);
                    }
                }
            }
            if (unclean.count(db) || !gone.count(db)) {
                auto d = changes(b, a);
                bool touched = !d.empty();
                for (auto& i : goneIdx) {
                    if (!gone.count(db) && i.rfind(db + "|", 0) == 0) {
                        touched = false;  // partly wiped before the refusal of another
                    }
                }
                if (touched) {
                    ctx.fail("refused wipe changes the database", db + ":" + d);
                }
            }
        }
        auto st = statusOf(s);
        for (auto& x : mc::split(status0, ' ')) {
            bool whole = false;
            for (auto& g : gone) {
                whole |= !unclean.count(g) && x.rfind(dirOf(g), 0) == 0;
            }
            if (!whole && st.find(x) == std::string::npos) {
                ctx.fail("refused wipe changes the control state", status0 + " -> " + st);
            }
        }
        ctx.distinct("refused" + str(r));
        return;
    }
    if (!w.ok) {
        return;
    }
    if (auto d = checkFiles(s, before, after, gone, goneIdx, w.out); !d.empty()) {
        ctx.fail("files", d);
    }
    if (dry.ok) {
        // (unknown files are listed differently)
        auto a = mc::split(dry.out, '\n'), b = mc::split(w.out, '\n');
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        std::string x = join(a, "\n"), y = join(b, "\n");
        // control files come and go with the wipe itself
        auto strip = [](const std::string& t) {
            std::string o;
            for (auto& l : mc::split(t, '\n')) {
                if (l.find(".lock") == std::string::npos) {
                    o += l + "\n";
                }
            }
            return o;
        };
        if (strip(x) != strip(y)) {
            ctx.fail("dry run announces other files", "announced:\n" + x + "\nremoved:\n" + y);
        }
    }
    auto st = statusOf(s);
    std::vector<std::string> wantSt;
    for (auto& x : mc::split(status0, ' ')) {
        bool g = false;
        for (auto& db : gone) {
            g |= x.substr(0, x.size() - 5) == dirOf(db);
        }
        if (!g) {
            wantSt.push_back(x);
        }
    }
    if (st != join(wantSt, " ")) {
        ctx.fail("control state", "was " + status0 + ", is " + st);
    }
    if (variant == LOCKED_SOME) {
        control(s, {}, true, off);
    }
    std::string a1 = seen(s, u), want = answers(m1, true);
    if (a1 != want) {
        ctx.fail("answers after the wipe", "before: " + a0 + "\nafter: " + a1 + "\nexpected: " + want);
    }
    // again: nothing more
    auto w2 = wipe(s, r, true, variant == UNSAFE);
    if (!w2.ok) {
        ctx.fail("wiping again fails", w2.out);
    }
    if (std::string a2 = seen(s, u); a2 != want && a1 == want) {
        ctx.fail("answers after wiping again", a2 + "\nexpected: " + want);
    }
    // and the databases can be used
    if (variant == CONFIRMED || variant == UNSAFE) {
        std::string again;
        for (size_t f = 0; f < u.size(); ++f) {
            again += "A" + std::to_string(f) + " ";
        }
        makeState(ctx, s, u, again, m1.nextVersion);
        effect(m1, again);
        if (std::string a3 = seen(s, u); a3 != answers(m1, true)) {
            ctx.fail("answers after archiving again", a3 + "\nexpected: " + answers(m1, true));
        }
    }
    ctx.distinct(a1 + "|" + joinSet(gone));
    if (ctx.idx % 499 == 7) {
        ctx.sample(ctx.describe + " leaves " + a1);
    }
}

//------------------------------------------------------------------------------------------------------ sequences

static void sequence(mc::Ctx& ctx, const Setup& proto, const Universe& u, const std::vector<std::string>& ops) {
    Setup s  = proto;
    s.dir    = ctx.dir;
    s.schema = u.schema;
    s.create();
    ctx.describe = s.describe() + "\n" + join(ops, "; ");
    Model m;
    m.u       = &u;
    m.subtocs = s.subtocs;
    for (auto& o : ops) {
        if (o[0] == 'W') {
            Req r = parseReq(o.substr(2));
            std::set<std::string> gone, goneIdx;
            m.wipe(r, gone, goneIdx);
            auto before = files(s);
            auto w      = wipe(s, r, true, false);
            if (!w.ok) {
                ctx.fail("wipe fails", o + ": " + w.out);
                return;
            }
            auto after = files(s);
            for (auto& kv : after) {
                for (auto& g : gone) {
                    std::string p = kv.first.rfind("store/", 0) == 0 ? kv.first.substr(6) : kv.first;
                    if (p.rfind(dirOf(g) + "/", 0) == 0) {
                        ctx.fail("files left in a wiped database", o + ": " + kv.first);
                    }
                }
            }
        }
        else {
            makeState(ctx, s, u, o, m.nextVersion);
            effect(m, o);
        }
        std::string a = seen(s, u);
        if (a != answers(m, true)) {
            ctx.fail("answers in a sequence", "after " + o + ": " + a + "\nexpected: " + answers(m, true));
            return;
        }
    }
    ctx.distinct(answers(m, true));
}

int main(int argc, char** argv) {
    mc::init(argc, argv, "C10", 120, 3600);
    bool th = mc::opts.thorough;
    std::vector<Setup> setups(3);
    setups[1].subtocs       = true;
    setups[2].separateStore = true;
    if (th) {
        Setup s         = setups[1];
        s.separateStore = true;
        setups.push_back(s);
    }
    const std::vector<std::string> programs = {
        "A0 A1 A2 A3 A4 A5 F C",
        "A0 A2 F A0 A2 A1 F C A3 A4 F C",
        "A0 A1 F C A2 F A0 F C A2 A0 F C",
        "A2 A3 F C",
        "A0 F A5 F A0 F A3 F C",
        "A4 F C A4 F C A3 A2 F C",
    };
    struct Case {
        const Setup* s;
        const Universe* u;
        std::string program;
        Req r;
        int variant;
    };
    std::vector<Case> cases;
    for (auto* u : Universe::every()) {
        // database and index keywords in all combinations; further ones alone
        Domain d;
        std::vector<Req> reqs;
        for (auto& k : domain(*u)) {
            if (k.first == "class" || k.first == "expver" || k.first == "time" || k.first == "type" || k.first == "stream") {
                d.push_back(k);
            }
            else {
                for (auto& v : k.second) {
                    reqs.push_back({{"class", {"od"}}, {"type", {"an"}}, {k.first, v}});
                    reqs.push_back({{k.first, v}});
                }
            }
        }
        for (auto& r : requests(d)) {
            reqs.push_back(r);
        }
        for (size_t p = 0; p < programs.size(); ++p) {
            for (size_t i = 0; i < reqs.size(); ++i) {
                for (int v = 0; v < NVARIANTS; ++v) {
                    for (size_t s = 0; s < setups.size(); ++s) {
                        bool pick = th ? (v == CONFIRMED || (i + p + s) % 3 == 0)
                                       : (v == CONFIRMED ? (i + p) % 3 == s && (i + p / 2) % 4 < 2 : (i * 7 + p * 3 + s + v) % 41 == 0);
                        if (pick) {
                            cases.push_back({&setups[s], u, programs[p], reqs[i], v});
                        }
                    }
                }
            }
        }
    }
    mc::sweep("wipes", cases.size(), [&](mc::Ctx& ctx) {
        auto& c = cases[ctx.idx];
        one(ctx, *c.s, *c.u, c.program, c.r, c.variant);
    });

    // sequences of archivals and wipes
    const std::vector<std::string> ops = {"A0 A1 A2 A3", "A0 F A2 F A0 F C", "W class=od,expver=1,type=an", "W class=od,expver=1,type=ana",
                                          "W class=od", "W class=odx"};
    std::vector<std::vector<std::string>> seqs;
    std::function<void(std::vector<std::string>&, size_t)> gen = [&](std::vector<std::string>& h, size_t depth) {
        if (h.size() == depth) {
            seqs.push_back(h);
            return;
        }
        for (auto& o : ops) {
            if (h.empty() && o[0] == 'W') {
                continue;
            }
            h.push_back(o);
            gen(h, depth);
            h.pop_back();
        }
    };
    std::vector<std::string> h;
    gen(h, th ? 5 : 3);
    size_t ns = th ? 3 : 2;
    mc::sweep("sequences", seqs.size() * ns,
              [&](mc::Ctx& ctx) { sequence(ctx, setups[ctx.idx % ns], Universe::plain(), seqs[ctx.idx / ns]); });

    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "Stored states x layouts x wipe requests x variants (dry run and confirmed run in each), and all sequences of "
              "archivals and wipes up to a depth; after each, the answers, the files and the control state are compared with "
              "a reference model. distinct_nontrivial counts distinct outcomes.";
    e.assumptions = {"nothing else uses the database during the wipe", "interrupted wipes are C26's"};
    return mc::finish(e);
}
