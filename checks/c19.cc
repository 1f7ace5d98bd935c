// C19: a select FDB routes each operation to exactly the right members.
//
// Pairs (and some triples, some nested) of members with select and exclude rules x contents they already hold: fields
// archived, listed, inspected, retrieved, axes, statistics, locks, wipes through the select FDB, compared with a model
// of the rules and with what each member answers directly.
#include <algorithm>
#include <sstream>

#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/PurgeIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/StatusIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/database/IndexAxis.h"

#include "mc.h"
#include "world.h"

using namespace fx;

namespace {

/// An expression, with the values that it accepts
struct Expr {
    const char* text;
    std::vector<std::pair<std::string, std::vector<std::string>>> terms;
};
const std::vector<Expr> selects = {
    {"class=^.*$", {{"class", {"od", "odx", "zz"}}}},
    {"class=^od$", {{"class", {"od"}}}},
    {"class=^odx$", {{"class", {"odx"}}}},
    {"class=^(od|odx)$,expver=^1$", {{"class", {"od", "odx"}}, {"expver", {"1"}}}},
    {"expver=^12$", {{"expver", {"12"}}}},
    {"type=^ana$", {{"type", {"ana"}}}},
    {"class=^od$,param=^t$", {{"class", {"od"}}, {"param", {"t"}}}},
    {"class=^zz$", {{"class", {"zz"}}}},
    {"number=^.*$", {{"number", {}}}},
};
const std::vector<std::vector<Expr>> excludes = {
    {},
    {{"class=^od$", {{"class", {"od"}}}}},
    {{"expver=^12$", {{"expver", {"12"}}}}},
    {{"class=^od$,expver=^1$", {{"class", {"od"}}, {"expver", {"1"}}}}},
    {{"step=^6$", {{"step", {"6"}}}}, {"type=^ana$", {{"type", {"ana"}}}}},
    {{"number=^1$", {{"number", {"1"}}}}},
};

bool has(const std::vector<std::string>& v, const std::string& s) {
    return std::find(v.begin(), v.end(), s) != v.end();
}
const std::string* value(const KV& kv, const std::string& k) {
    for (auto& p : kv) {
        if (p.first == k) {
            return &p.second;
        }
    }
    return nullptr;
}
bool matches(const KV& f, const Expr& e) {
    return std::all_of(e.terms.begin(), e.terms.end(), [&](auto& t) {
        auto v = value(f, t.first);
        return v && has(t.second, *v);
    });
}

struct Member {
    int select = 0, exclude = 0;
    std::vector<int> before;      ///< fields it already holds (of those it accepts)
    std::vector<Member> members;  ///< itself a select FDB
    std::string root;

    bool own(const KV& f) const {
        return matches(f, selects[select]) &&
               std::none_of(excludes[exclude].begin(), excludes[exclude].end(), [&](auto& e) { return matches(f, e); });
    }
    bool accepts(const KV& f) const {
        return own(f) && (members.empty() || std::any_of(members.begin(), members.end(), [&](auto& m) { return m.accepts(f); }));
    }
    std::string text() const {
        std::string t = std::string("{") + selects[select].text;
        for (auto& e : excludes[exclude]) {
            t += std::string(" not ") + e.text;
        }
        for (auto& m : members) {
            t += " " + m.text();
        }
        for (int f : before) {
            t += " " + std::to_string(f);
        }
        return t + "}";
    }
    void yaml(std::ostringstream& s, const std::string& in, const std::string& schema) const {
        s << in << "- type: " << (members.empty() ? "local" : "select") << "\n";
        s << in << "  select: \"" << selects[select].text << "\"\n";
        if (!excludes[exclude].empty()) {
            s << in << "  excludes:\n";
            for (auto& e : excludes[exclude]) {
                s << in << "  - \"" << e.text << "\"\n";
            }
        }
        if (members.empty()) {
            s << in << "  engine: toc\n";
            if (!schema.empty()) {
                s << in << "  schema: " << schema << "\n";
            }
            s << in << "  spaces:\n" << in << "  - handler: Default\n" << in << "    roots:\n" << in << "    - path: " << root << "\n";
        }
        else {
            s << in << "  fdbs:\n";
            for (auto& m : members) {
                m.yaml(s, in + "  ", schema);
            }
        }
    }
    void leaves(std::vector<Member*>& v) {
        if (members.empty()) {
            v.push_back(this);
        }
        for (auto& m : members) {
            m.leaves(v);
        }
    }
};

/// The leaf that a field goes to: the first member that matches, and in a nested one, the first of its members
const Member* route(const std::vector<Member>& ms, const KV& f, bool& dead) {
    for (auto& m : ms) {
        if (m.own(f)) {
            if (m.members.empty()) {
                return &m;
            }
            auto r = route(m.members, f, dead);
            dead   = r == nullptr;
            return r;
        }
    }
    return nullptr;
}
/// A request reaches a member unless all alternatives of some keyword are rejected, or all alternatives are excluded
bool reaches(const Member& m, const Req& r, bool missing) {
    auto get = [&](const std::string& k) -> const std::vector<std::string>* {
        for (auto& x : r) {
            if (x.first == k) {
                return &x.second;
            }
        }
        return nullptr;
    };
    for (auto& t : selects[m.select].terms) {
        auto v = get(t.first);
        if (!v ? !missing : std::none_of(v->begin(), v->end(), [&](auto& x) { return has(t.second, x); })) {
            return false;
        }
    }
    for (auto& e : excludes[m.exclude]) {
        if (std::all_of(e.terms.begin(), e.terms.end(), [&](auto& t) {
                auto v = get(t.first);
                return v && std::all_of(v->begin(), v->end(), [&](auto& x) { return has(t.second, x); });
            })) {
            return false;
        }
    }
    return true;
}

std::string config(const std::vector<Member>& ms, const std::string& schema, bool inherited) {
    std::ostringstream s;
    s << "---\ntype: select\n";
    if (inherited) {
        s << "schema: " << schema << "\n";
    }
    s << "fdbs:\n";
    for (auto& m : ms) {
        m.yaml(s, "", inherited ? "" : schema);
    }
    return s.str();
}

std::string axesText(const fdb5::IndexAxis& a) {
    std::ostringstream o;
    o << a;
    return o.str();
}

using Axes = std::map<std::string, std::set<std::string>>;
void addAxes(Axes& out, const fdb5::IndexAxis& a) {
    for (auto k : {"class", "expver", "type", "step", "param"}) {
        if (a.has(k)) {
            for (auto& v : a.values(k)) {
                out[k].insert(v);
            }
        }
    }
}
std::string text(const Axes& a) {
    std::string s;
    for (auto& x : a) {
        s += x.first + "=" + joinSet(x.second, "/") + " ";
    }
    return s;
}

std::string run(const std::string& dir, std::vector<Member> ms, bool inherited, int variant,
                std::vector<std::pair<std::string, std::string>>& fails) {
    auto& u   = Universe::plain();
    auto fail = [&](const std::string& sig, std::string d) {
        std::replace(d.begin(), d.end(), '\n', ' ');
        fails.push_back({sig, d});
    };
    std::vector<Member*> leaves;
    for (auto& m : ms) {
        m.leaves(leaves);
    }
    Setup base;
    base.dir = dir;
    auto open = [&](int leaf) {
        Setup s      = base;
        s.configText = leaf < 0 ? config(ms, dir + "/schema", inherited)
                                : "---\ntype: local\nengine: toc\nschema: " + dir + "/schema\nspaces:\n- roots:\n  - path: " + leaves[leaf]->root + "\n";
        return std::make_unique<fdb5::FDB>(s.config());
    };
    std::string out;
    const int nl = leaves.size(), nf = u.size();
    std::vector<std::map<int, int>> in(nl);
    for (int l = 0; l < nl; ++l) {
        auto f = open(l);
        for (int x : leaves[l]->before) {
            auto p = payload(x, l + 1);
            f->archive(key(u.all(x)), p.data(), p.size());
            in[l][x] = l + 1;
        }
        f->flush();
    }
    auto direct = [&](int l, const Req& r, Mode mode = Dedup) {
        std::vector<std::string> v;
        auto f = open(l);
        for (auto& e : list(*f, r, mode)) {
            v.push_back(e.bytes);
        }
        std::sort(v.begin(), v.end());
        return v;
    };
    auto contents = [&](const std::map<int, int>& m) {
        std::vector<std::string> v;
        for (auto& x : m) {
            v.push_back(fv(x.first, x.second));
        }
        std::sort(v.begin(), v.end());
        return v;
    };
    // archive through the select FDB
    {
        auto fdb = open(-1);
        std::vector<std::map<int, int>> now = in;
        for (int f = 0; f < nf; ++f) {
            if (variant == 1 && f % 2) {
                continue;
            }
            bool dead = false;
            auto to   = route(ms, u.all(f), dead);
            std::string error;
            try {
                auto p = payload(f, 8);
                fdb->archive(key(u.all(f)), p.data(), p.size());
            }
            catch (std::exception& e) {
                error = e.what();
            }
            if (error.empty() != (to != nullptr)) {
                fail(to ? "archival refused" : "archival accepted by no member", str(u.all(f)) + " " + error);
            }
            for (int l = 0; l < nl; ++l) {
                if (leaves[l] == to) {
                    now[l][f] = 8;
                }
            }
        }
        fdb->flush();
        in = now;
        for (int l = 0; l < nl; ++l) {
            if (auto d = direct(l, {}); d != contents(in[l])) {
                fail("a member holds other fields than routed to it", std::to_string(l) + ": " + join(d, " ") + " expected " + join(contents(in[l]), " "));
            }
            out += std::to_string(l) + "[" + join(direct(l, {}), " ") + "] ";
        }
    }
    // what the members that accept a field hold of it, the first one that does
    auto winner = [&](int f) {
        for (int l = 0; l < nl; ++l) {
            if (in[l].count(f)) {
                return in[l][f];
            }
        }
        return 0;
    };
    auto all = parseReq("class=od/odx,expver=1/12,type=an/ana,step=0/6,param=t/u");
    std::vector<Req> reqs = {{}, all, parseReq("class=od"), parseReq("class=odx"), parseReq("class=od/odx"), parseReq("expver=1"), parseReq("expver=12/1"),
                             parseReq("type=ana"), parseReq("type=an/ana,class=od"), parseReq("step=6"), parseReq("step=0/6,param=u"),
                             parseReq("class=od/zz,expver=12"), parseReq("class=zz"), parseReq("class=odx/od,expver=1,type=an,param=t"),
                             parseReq("param=t/u,type=ana,class=odx/od"), parseReq("step=0,class=od,expver=1/12")};
    for (auto& r : reqs) {
        std::vector<std::string> want, wantFull, got, gotFull;
        for (int f = 0; f < nf; ++f) {
            if (fx::matches(u.all(f), r) && winner(f)) {
                want.push_back(fv(f, winner(f)));
            }
        }
        try {
            auto fdb = open(-1);
            for (auto& e : list(*fdb, r, Dedup)) {
                got.push_back(e.bytes);
            }
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            if (got != want) {
                fail("listing differs", str(r) + ": " + join(got, " ") + " expected " + join(want, " "));
            }
            for (auto& e : list(*fdb, r, Full)) {
                gotFull.push_back(e.bytes);
            }
            for (int l = 0; l < nl; ++l) {
                for (auto& s : direct(l, r, Full)) {
                    wantFull.push_back(s);
                }
            }
            std::sort(gotFull.begin(), gotFull.end());
            std::sort(wantFull.begin(), wantFull.end());
            if (gotFull != wantFull) {
                fail("full listing differs", str(r) + ": " + join(gotFull, " ") + " expected " + join(wantFull, " "));
            }
            // axes
            for (int level : {1, 2, 3}) {
                Axes a, b;
                addAxes(a, fdb->axes(tool(r), level));
                for (int l = 0; l < nl; ++l) {
                    auto d = open(l);
                    addAxes(b, d->axes(tool(r), level));
                }
                // a member that is not reached may hold databases or indexes that match at that level, but no field
                if (a != b) {
                    Axes least;
                    for (int f = 0; f < nf; ++f) {
                        if (fx::matches(u.all(f), r) && winner(f)) {
                            for (auto& p : u.all(f)) {
                                if (b.count(p.first)) {
                                    least[p.first].insert(p.second);
                                }
                            }
                        }
                    }
                    for (auto& x : least) {
                        for (auto& v : x.second) {
                            if (!a[x.first].count(v)) {
                                fail("axes lack a value", str(r) + ": " + text(a) + " of " + text(b));
                            }
                        }
                    }
                    for (auto& x : a) {
                        for (auto& v : x.second) {
                            if (!b[x.first].count(v)) {
                                fail("axes have another value", str(r) + ": " + text(a) + " of " + text(b));
                            }
                        }
                    }
                }
            }
        }
        catch (std::exception& e) {
            fail("reading fails", str(r) + ": " + e.what());
        }
    }
    // status and statistics: requests of databases
    for (auto& r : {Req{}, parseReq("class=od"), parseReq("expver=1"), parseReq("class=od/odx,expver=12"), parseReq("class=zz")}) {
        auto status = [&](fdb5::FDB& f) {
            std::vector<std::string> v;
            auto it = f.status(tool(r));
            fdb5::StatusElement e;
            while (it.next(e)) {
                std::string p = e.location.path();
                v.push_back(p.substr(dir.size()));
            }
            return v;
        };
        auto stats = [&](fdb5::FDB& f) {
            auto it = f.stats(tool(r));
            fdb5::StatsElement e;
            size_t n = 0, bytes = 0;
            while (it.next(e)) {
                n += e.indexStatistics.fieldsCount();
                bytes += e.indexStatistics.fieldsSize();
            }
            return std::to_string(n) + " fields " + std::to_string(bytes) + " bytes";
        };
        try {
            auto fdb = open(-1);
            auto a   = status(*fdb);
            std::vector<std::string> b;
            for (int l = 0; l < nl; ++l) {
                auto d = open(l);
                auto s = status(*d);
                // members that no alternative of the request reaches hold none of its fields
                if (!s.empty() && !direct(l, r).empty()) {
                    b.insert(b.end(), s.begin(), s.end());
                }
            }
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            if (a != b) {
                fail("status differs", str(r) + ": " + join(a, " ") + " expected " + join(b, " "));
            }
            auto x = stats(*fdb);
            size_t n = 0, bytes = 0;
            for (int l = 0; l < nl; ++l) {
                auto d = open(l);
                size_t n1, b1;
                sscanf(stats(*d).c_str(), "%zu fields %zu bytes", &n1, &b1);
                n += n1;
                bytes += b1;
            }
            auto y = std::to_string(n) + " fields " + std::to_string(bytes) + " bytes";
            if (x != y) {
                fail("statistics differ", str(r) + ": " + x + " expected " + y);
            }
        }
        catch (std::exception& e) {
            fail("reading fails", str(r) + ": " + e.what());
        }
    }
    // retrieve each field and several at a time
    for (int f = 0; f < nf; ++f) {
        auto want = winner(f) ? fv(f, winner(f)) : "";
        std::string got;
        try {
            auto fdb = open(-1);
            got      = retrieve(*fdb, u.all(f));
        }
        catch (std::exception& e) {
            got = e.what();
        }
        if (got != want) {
            fail("retrieval differs", str(u.all(f)) + ": " + got + " expected " + want);
        }
    }
    for (auto& r : {all, parseReq("class=od/odx,expver=1,type=an,step=0,param=t"), parseReq("class=od,expver=1/12,type=an,step=0/6,param=t/u")}) {
        std::vector<std::string> got, want;
        for (int f = 0; f < nf; ++f) {
            if (fx::matches(u.all(f), r) && winner(f)) {
                want.push_back(fv(f, winner(f)));
            }
        }
        try {
            auto fdb = open(-1);
            auto it  = fdb->inspect(mars(r));
            fdb5::ListElement e;
            while (it.next(e)) {
                std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle());
                got.push_back(identify(slurp(*h)));
            }
        }
        catch (std::exception& e) {
            got.push_back(e.what());
        }
        std::sort(got.begin(), got.end());
        got.erase(std::unique(got.begin(), got.end()), got.end());
        std::sort(want.begin(), want.end());
        if (got != want) {
            fail("inspection differs", str(r) + ": " + join(got, " ") + " expected " + join(want, " "));
        }
    }
    // lock, then wipe
    std::vector<Req> db = {parseReq("class=od"), parseReq("expver=12"), parseReq("class=od/odx,expver=1"), {}};
    auto& r = db[variant % db.size()];
    try {
        {
            auto fdb = open(-1);
            auto it  = fdb->control(tool(r), fdb5::ControlAction::Disable, fdb5::ControlIdentifier::Archive);
            fdb5::ControlElement e;
            while (it.next(e)) {}
        }
        for (int l = 0; l < nl; ++l) {
            std::string got, want;
            auto d  = open(l);
            auto it = d->status(tool({}));
            fdb5::StatusElement e;
            while (it.next(e)) {
                std::string k = canon(str(parseKV(e.key.valuesToString())));
                KV kv{{"class", e.key.get("class")}, {"expver", e.key.get("expver")}};
                bool locked = !e.controlIdentifiers.enabled(fdb5::ControlIdentifier::Archive);
                if (locked != (fx::matches(kv, r) && !direct(l, reqOf(kv)).empty() && reaches(*leaves[l], r, true))) {
                    // (a member that the request reaches by none of its alternatives has no such database)
                    got += " " + str(kv) + (locked ? " locked" : " not locked");
                }
            }
            if (!got.empty()) {
                fail("control differs", std::to_string(l) + ": " + str(r) + ":" + got);
            }
        }
        {
            auto fdb = open(-1);
            auto it  = fdb->control(tool({}), fdb5::ControlAction::Enable, fdb5::ControlIdentifier::Archive);
            fdb5::ControlElement e;
            while (it.next(e)) {}
        }
        for (bool doit : {false, true}) {
            auto fdb = open(-1);
            auto it  = fdb->wipe(tool(r), doit, false, false);
            fdb5::WipeElement e;
            while (it.next(e)) {}
            for (int l = 0; l < nl; ++l) {
                std::map<int, int> left;
                for (auto& x : in[l]) {
                    if (!doit || !fx::matches(u.all(x.first), r)) {
                        left.insert(x);
                    }
                }
                if (auto d = direct(l, {}); d != contents(left)) {
                    fail(doit ? "wipe differs" : "a dry wipe removes something",
                         std::to_string(l) + ": " + str(r) + ": " + join(d, " ") + " left, expected " + join(contents(left), " "));
                }
            }
        }
    }
    catch (std::exception& e) {
        fail("control or wipe fails", str(r) + ": " + e.what());
    }
    return out;
}

struct Case {
    std::vector<Member> ms;
    bool inherited = false;
    int variant    = 0;
};

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C19", 120, 3600);
    bool th = mc::opts.thorough;
    auto& u = Universe::plain();
    std::vector<Case> cases;
    auto fill = [&](std::vector<Member>& ms, int pattern) {
        std::vector<Member*> v;
        for (auto& m : ms) {
            m.leaves(v);
        }
        std::function<void(std::vector<Member>&, std::vector<const Member*>)> go = [&](std::vector<Member>& x, std::vector<const Member*> up) {
            for (auto& m : x) {
                auto up1 = up;
                up1.push_back(&m);
                if (!m.members.empty()) {
                    go(m.members, up1);
                    continue;
                }
                int l = std::find(v.begin(), v.end(), &m) - v.begin();
                for (int f = 0; f < (int)u.size(); ++f) {
                    bool ok = std::all_of(up1.begin(), up1.end(), [&](auto p) { return p->own(u.all(f)); });
                    if (ok && (pattern == 1 || (pattern == 2 && (f + l) % 2) || (pattern == 3 && l))) {
                        m.before.push_back(f);
                    }
                }
            }
        };
        go(ms, {});
    };
    auto member = [](int s, int e) {
        Member m;
        m.select  = s;
        m.exclude = e;
        return m;
    };
    int ns = selects.size(), ne = excludes.size();
    size_t n = 0;
    for (int a = 0; a < ns * ne; ++a) {
        for (int b = 0; b < ns * ne; ++b) {
            for (int p = 0; p < 4; ++p) {
                ++n;
                if (!th && (n / 3 + n / 7) % 11) {
                    continue;
                }
                Case c;
                c.ms = {member(a / ne, a % ne), member(b / ne, b % ne)};
                if (n % 4 == 1) {  // a third
                    c.ms.push_back(member((a + b) % ns, (a * 5 + b) % ne));
                }
                else if (n % 9 == 2) {  // nested
                    Member x  = member(b / ne, (a + b) % ne);
                    x.members = {c.ms[1], member((a / ne + 1) % ns, a % ne)};
                    c.ms[1]   = x;
                }
                c.inherited = n % 2;
                c.variant   = n % 4;
                fill(c.ms, p);
                cases.push_back(c);
            }
        }
    }
    mc::sweep("rules", cases.size(), [&](mc::Ctx& ctx) {
        auto c = cases[ctx.idx];
        std::vector<Member*> leaves;
        for (auto& m : c.ms) {
            ctx.describe += m.text() + " ";
            m.leaves(leaves);
        }
        ctx.describe += std::string(c.inherited ? "inherited schema" : "") + " variant " + std::to_string(c.variant);
        Setup s;
        s.dir   = ctx.dir;
        s.roots = leaves.size();
        s.create();
        for (size_t l = 0; l < leaves.size(); ++l) {
            leaves[l]->root = s.root(l);
        }
        auto ch = mc::runChild([&]() {
            s.apply();
            std::vector<std::pair<std::string, std::string>> fails;
            std::string out = run(ctx.dir, c.ms, c.inherited, c.variant, fails) + "\n";
            for (auto& f : fails) {
                out += f.first + "\t" + f.second + "\n";
            }
            return out;
        });
        if (!ch.ok) {
            ctx.fail("fails: " + ch.status(), ctx.describe + ": " + ch.out + ch.log);
            return;
        }
        auto lines = mc::split(ch.out, '\n');
        for (size_t i = 1; i < lines.size(); ++i) {
            auto t = lines[i].find('\t');
            if (t != std::string::npos) {
                ctx.fail(lines[i].substr(0, t), ctx.describe + ": " + lines[i].substr(t + 1));
            }
        }
        ctx.distinct(lines[0]);
        if (ctx.idx % 301 == 3) {
            ctx.sample(ctx.describe + " -> " + lines[0]);
        }
    });
    mc::Evidence e;
    e.rule = "pairs of members over 9 select rules and 6 sets of exclude rules (some with a third member, some nested) x 4 patterns of earlier contents "
             "(quick: one in eleven); archiving of all fields, then 16 listings in two modes, axes at three depths, status, statistics, retrievals, inspections, a lock and a wipe, through the select FDB";
    e.assumptions = {"members hold only fields that their rules accept", "regular expressions are matched by metkit; those used are anchored"};
    return mc::finish(e);
}
