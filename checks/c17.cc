// C17: a remote FDB gives the same answers as the local one behind it.
//
// Each program of operations is carried out twice, step by step: through servers (real processes, TCP loopback) and
// directly on an FDB with the same layout. All answers must be the same after every step, and so must be what is
// stored in the end.
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <sstream>

#include "eckit/io/DataHandle.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fx.h"
#include "mc.h"
#include "servers.h"
#include "world.h"

using namespace fx;
namespace fs = std::filesystem;

namespace {

struct Case {
    Cluster c;
    const Universe* u;
    std::vector<std::string> ops;
    int readLimit = 0;  ///< bytes of retrievals outstanding at a time
    std::string text() const {
        std::string name = u == &Universe::plain() ? "" : u == &Universe::mixed() ? "mixed rules, " : "typed keywords, ";
        return name + c.describe() + (readLimit ? ", read limit " + std::to_string(readLimit) : "") + ": " + join(ops, " ");
    }
};

std::string lastError;

std::string guard(const std::function<std::string()>& f) {
    try {
        return f();
    }
    catch (std::exception& e) {
        lastError = e.what();
        std::replace(lastError.begin(), lastError.end(), '\0', ' ');
        std::replace(lastError.begin(), lastError.end(), '\n', ' ');
        return std::string("error");
    }
}

std::string listText(fdb5::FDB& f, const Req& r, Mode m, int level) {
    auto l = list(f, r, m, level, level == 3);
    std::vector<std::string> v;
    for (auto& e : l) {
        v.push_back(e.k[0] + "|" + e.k[1] + "|" + e.k[2] + "#" + std::to_string(e.length) + "=" + e.bytes);
    }
    std::sort(v.begin(), v.end());
    return join(v, " ");
}

std::string inspectText(fdb5::FDB& f, const Req& r) {
    std::vector<std::string> v;
    auto it = f.inspect(mars(r));
    fdb5::ListElement e;
    std::vector<fdb5::ListElement> els;
    while (it.next(e)) {
        els.push_back(e);
    }
    for (auto& e : els) {
        std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle());
        v.push_back(e.combinedKey().valuesToString() + "#" + std::to_string((long long)e.location().length()) + "=" + identify(slurp(*h)));
    }
    std::sort(v.begin(), v.end());
    return join(v, " ");
}

std::string axesText(fdb5::FDB& f, const Req& r, int level) {
    auto a = f.axes(tool(r), level);
    std::string out;
    for (auto& kv : a.map()) {
        std::vector<std::string> v(kv.second.begin(), kv.second.end());
        std::sort(v.begin(), v.end());
        out += kv.first + "=" + join(v, "/") + " ";
    }
    return out;
}

/// (what is counted in fields; the files of the two databases are compared in the end)
std::string statsText(fdb5::FDB& f, const Req& r) {
    auto it = f.stats(tool(r));
    fdb5::StatsElement e;
    std::vector<std::string> v;
    while (it.next(e)) {
        std::ostringstream o;
        e.indexStatistics.report(o);
        std::string line, all;
        std::istringstream in(o.str());
        while (std::getline(in, line)) {
            all += line + ";";
        }
        v.push_back(all);
    }
    std::sort(v.begin(), v.end());
    return join(v, " | ");
}

std::string readText(fdb5::FDB& f, const Req& r, size_t chunk) {
    std::unique_ptr<eckit::DataHandle> h(f.retrieve(mars(r)));
    std::string b = slurp(*h, chunk);
    // the order of the fields is not part of the answer, see C08
    std::vector<std::string> v = mc::split(identify(b), '+');
    std::sort(v.begin(), v.end());
    return join(v, "+");
}

std::string wipeText(fdb5::FDB& f, const Req& r, bool doit, bool unsafe) {
    auto it = f.wipe(tool(r), doit, false, unsafe);
    fdb5::WipeElement e;
    std::map<std::string, int> n;
    while (it.next(e)) {
        for (auto& u : e.uris()) {
            std::string b = u.path().baseName().asString();
            auto dot      = b.rfind('.');
            auto colon    = b.find('.');
            std::string name = dot == std::string::npos ? b : b.substr(0, colon) + "*" + b.substr(dot);
            n[std::to_string(e.type()) + ":" + name]++;
        }
    }
    std::string out;
    for (auto& kv : n) {
        out += kv.first + "x" + std::to_string(kv.second) + " ";
    }
    return out;
}

std::vector<Req> questions(const Universe& u, const std::vector<int>& fields) {
    std::vector<Req> q = {{}};
    std::set<std::string> seen;
    for (int f : fields) {
        Req db = reqOf(u.fields[f][0]);
        if (seen.insert(str(db)).second) {
            q.push_back(db);
        }
        Req ix = db;
        for (auto& kv : u.fields[f][1]) {
            ix.push_back({kv.first, {kv.second}});
        }
        if (seen.insert(str(ix)).second) {
            q.push_back(ix);
        }
    }
    q.push_back(parseReq("class=od,expver=1,type=zz"));
    return q;
}

/// All fields of the first index
Req many(const Universe& u) {
    Req r = reqOf(u.all(0));
    for (size_t f = 1; f < u.size(); ++f) {
        if (u.fields[f][0] == u.fields[0][0] && u.fields[f][1] == u.fields[0][1]) {
            for (auto& kv : u.fields[f][2]) {
                for (auto& p : r) {
                    if (p.first == kv.first && std::find(p.second.begin(), p.second.end(), kv.second) == p.second.end()) {
                        p.second.push_back(kv.second);
                    }
                }
            }
        }
    }
    return r;
}

struct Side {
    Setup s;
    std::function<fdb5::Config()> config;
    std::unique_ptr<fdb5::FDB> fdb[2];
    int cur = 0;
    fdb5::FDB& f() {
        if (!fdb[cur]) {
            fdb[cur].reset(new fdb5::FDB(config()));
        }
        return *fdb[cur];
    }
    void reopen() {
        fdb[0].reset();
        fdb[1].reset();
    }
};

std::string battery(Side& a, const Universe& u, const std::vector<Req>& qs, const std::vector<int>& fields, bool all) {
    std::string out;
    auto& f = a.f();
    auto say = [&](const std::string& what, const std::function<std::string()>& fn) { out += what + ": " + guard(fn) + "\n"; };
    for (auto& r : qs) {
        say("list " + str(r), [&] { return listText(f, r, Dedup, 3); });
        if (all) {
            say("list full " + str(r), [&] { return listText(f, r, Full, 3); });
            for (int l = 1; l <= 2; ++l) {
                say("list depth " + std::to_string(l) + " " + str(r), [&] { return listText(f, r, Dedup, l); });
            }
            for (int l = 1; l <= 3; ++l) {
                say("axes " + std::to_string(l) + " " + str(r), [&] { return axesText(f, r, l); });
            }
            say("stats " + str(r), [&] { return statsText(f, r); });
        }
    }
    for (int i : fields) {
        auto r = reqOf(u.all(i));
        say("retrieve " + str(r), [&] { return readText(f, r, 4096); });
        if (all) {
            say("inspect " + str(r), [&] { return inspectText(f, r); });
        }
    }
    if (all) {
        // several fields at once
        Req r = many(u);
        say("retrieve many", [&] { return readText(f, r, 7); });
        say("inspect many", [&] { return inspectText(f, r); });
    }
    return out;
}

/// Number of files by extension and place, and the sum of their sizes
std::string files(const std::string& cat, const std::vector<std::string>& stores) {
    std::map<std::string, std::pair<int, long long>> m;
    auto scan = [&](const std::string& top, const std::string& name) {
        if (!fs::exists(top)) {
            return;
        }
        for (auto& e : fs::recursive_directory_iterator(top)) {
            std::string rel = fs::relative(e.path(), top).string();
            auto sl         = rel.find('/');
            std::string db  = rel.substr(0, sl), base = sl == std::string::npos ? "" : rel.substr(sl + 1);
            auto dot = base.rfind('.');
            std::string ext = base.empty() ? "/" : dot == std::string::npos ? base : base.substr(base.find('.') == std::string::npos ? 0 : 0, base.find('.')) + "*" + base.substr(dot);
            auto& x = m[name + " " + db + " " + ext];
            x.first++;
            // (the tables of contents hold the locations, which differ)
            x.second += e.is_regular_file() && ext.find(".data") != std::string::npos ? (long long)e.file_size() : 0;
        }
    };
    scan(cat, "catalogue");
    for (auto& s : stores) {
        scan(s, "store");
    }
    std::string out;
    for (auto& kv : m) {
        out += kv.first + " x" + std::to_string(kv.second.first) + " " + std::to_string(kv.second.second) + "\n";
    }
    return out;
}

std::string firstDifference(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string p, q;
    for (;;) {
        bool m = (bool)std::getline(x, p), n = (bool)std::getline(y, q);
        if (!m && !n) {
            return "";
        }
        if (!m || !n || p != q) {
            return "remote [" + (m ? p : "") + "] local [" + (n ? q : "") + "]";
        }
    }
}

void runCase(mc::Ctx& ctx, const Case& c) {
    Setup r, l;
    r.dir    = ctx.dir + "/r";
    l.dir    = ctx.dir + "/l";
    r.schema = l.schema = c.u->schema;
    l.separateStore     = !c.c.sharedRoots;
    r.create();
    l.create();
    ctx.describe = c.text();
    ctx.sample(ctx.describe);
    if (c.c.local) {
        // data from before there was a server
        for (auto* s : {&r, &l}) {
            Setup x = *s;
            x.separateStore = false;
            auto b = mc::runChild([&]() {
                build(x, *c.u, "A0 A1 A3 F A0 F C", 90);
                return std::string();
            });
            if (!b.ok) {
                ctx.fail("preparation", b.status() + b.log);
                return;
            }
        }
    }
    Servers servers(r, c.c, ctx.worker);
    std::vector<int> fields;
    for (size_t i = 0; i < c.u->size(); ++i) {
        fields.push_back(i);
    }
    auto qs = questions(*c.u, fields);

    auto child = mc::runChild(
        [&]() {
            l.apply();
            if (c.readLimit) {
                setenv("FDB_READ_LIMIT", std::to_string(c.readLimit).c_str(), 1);
            }
            Side sides[2];
            sides[0].s      = r;
            sides[0].config = [&] { return servers.client(); };
            sides[1].s      = l;
            sides[1].config = [&] { return l.config(); };
            std::string done;
            int version = 0;
            uint64_t steps = 0;
            for (size_t i = 0; i < c.ops.size(); ++i) {
                const std::string& op = c.ops[i];
                done += (i ? " " : "") + op;
                ++version;
                std::string res[2];
                for (int k = 0; k < 2; ++k) {
                    Side& x = sides[k];
                    res[k]  = guard([&]() -> std::string {
                        if (op[0] == 'A') {
                            int f         = op[1] - '0';
                            std::string p = payload(f, version);
                            x.f().archive(key(c.u->all(f)), p.data(), p.size());
                        }
                        else if (op == "F") {
                            x.f().flush();
                        }
                        else if (op == "O") {  // new FDB objects
                            x.f().flush();
                            x.reopen();
                        }
                        else if (op == "S") {  // the other FDB object of this process
                            x.f().flush();
                            x.cur ^= 1;
                        }
                        else if (op[0] == 'W' || op[0] == 'w') {
                            for (auto& f : x.fdb) {
                                if (f) {
                                    f->flush();
                                }
                            }
                            x.reopen();
                            Req q = op[1] == 'd' ? reqOf(c.u->fields[0][0]) : op[1] == 'i' ? qs[2] : Req(parseReq("class=od"));
                            auto t = wipeText(x.f(), q, op[0] == 'W', false);
                            return t;
                        }
                        else if (op == "L") {  // a listing, read in part
                            auto it = x.f().list(tool({}), fdb5::ListMode::Full, 3);
                            fdb5::ListElement e;
                            return it.next(e) ? "some" : "none";
                        }
                        else if (op == "l") {  // ... not read at all
                            auto it = x.f().list(tool({}), fdb5::ListMode::Full, 3);
                        }
                        else if (op == "I") {
                            auto it = x.f().inspect(mars(many(*c.u)));
                            fdb5::ListElement e;
                            return it.next(e) ? "some" : "none";
                        }
                        else if (op == "r" || op == "R") {  // a retrieval, not read or read in part
                            std::unique_ptr<eckit::DataHandle> h(
                                x.f().retrieve(mars(many(*c.u))));
                            if (op == "R") {
                                char b[10];
                                h->openForRead();
                                auto n = h->read(b, 10);
                                h->close();
                                return n == 10 ? "some" : "none";
                            }
                        }
                        else if (op == "2") {  // two retrievals and a listing, entangled
                            std::unique_ptr<eckit::DataHandle> h(x.f().retrieve(mars(many(*c.u))));
                            auto it = x.f().list(tool({}), fdb5::ListMode::Full, 3);
                            std::unique_ptr<eckit::DataHandle> g(x.f().retrieve(mars(reqOf(c.u->all(0)))));
                            fdb5::ListElement e;
                            bool any = it.next(e);
                            std::string b = identify(slurp(*g));
                            auto v        = mc::split(identify(slurp(*h, 50)), '+');
                            std::sort(v.begin(), v.end());
                            int n = any;
                            while (any && it.next(e)) {
                                ++n;
                            }
                            return b + " " + join(v, "+") + " " + std::to_string(n);
                        }
                        return "";
                    });
                }
                if (res[0] != res[1]) {
                    return std::string(op[0] == 'W' || op[0] == 'w' ? "wipe differs" : op[0] == 'A' || op == "F" ? "archive or flush differs" : "operation differs") +
                           "\tafter [" + done + "]: remote [" + res[0] + "] local [" + res[1] + "] " + lastError;
                }
                bool last = i + 1 == c.ops.size();
                bool compare = last || op[0] == 'F' || op[0] == 'W' || op[0] == 'O' || op == "S";
                if (compare) {
                    if (last) {
                        sides[0].f().flush();
                        sides[1].f().flush();
                    }
                    ++steps;
                    auto a = battery(sides[0], *c.u, qs, fields, last), b = battery(sides[1], *c.u, qs, fields, last);
                    if (a != b) {
                        return "answers differ\tafter [" + done + "]: " + firstDifference(a, b) + " " + lastError;
                    }
                }
            }
            // a new client
            for (auto& x : sides) {
                x.reopen();
            }
            auto a = battery(sides[0], *c.u, qs, fields, true), b = battery(sides[1], *c.u, qs, fields, true);
            for (auto& x : sides) {
                x.reopen();
            }
            if (a != b) {
                return "answers to a new client differ\tafter [" + done + "]: " + firstDifference(a, b);
            }
            return "ok\t" + std::to_string(steps);
        },
        60);
    if (child.timeout) {
        ctx.fail("hang", ctx.describe + "\n" + child.log + servers.logs());
        return;
    }
    if (!child.ok) {
        ctx.fail(child.code == 3 ? "operation fails" : "process ended", child.status() + " " + child.out + "\n" + child.log + servers.logs());
        return;
    }
    auto tab = child.out.find('\t');
    if (child.out.compare(0, 3, "ok\t") != 0) {
        ctx.fail(child.out.substr(0, tab), child.out.substr(tab + 1) + "\n" + servers.logs() + "--- client " + child.log);
        return;
    }
    ctx.count("comparisons", atoi(child.out.c_str() + tab + 1) + 1);
    if (!servers.catalogue().alive() || !servers.store(0).alive()) {
        ctx.fail("server ended", servers.logs());
        return;
    }
    std::vector<std::string> rs, ls;
    if (!c.c.sharedRoots) {
        for (int i = 0; i < c.c.stores; ++i) {
            rs.push_back(r.dir + "/store" + std::to_string(i));
        }
        ls.push_back(l.storeRoot());
    }
    auto a = files(r.root(), rs), b = files(l.root(), ls);
    if (c.c.stores == 1 && a != b) {
        ctx.fail("files differ", firstDifference(a, b));
    }
    ctx.distinct(c.text());
}

/// Listings of more elements than are queued anywhere, dropped after some of them, or entangled with another operation
struct Long {
    Cluster c;
    int taken;         ///< of the first listing
    std::string next;  ///< what is done while it is open
    int drop;          ///< before that: 0 nothing, 1 it is closed, 2 its FDB object is destroyed, too
    std::string text() const {
        return c.describe() + ": " + std::to_string(taken) + " of 300 taken from a listing" + (drop == 1 ? ", dropped" : drop == 2 ? ", dropped with its FDB" : "") + ", then " + next;
    }
};

void runLong(mc::Ctx& ctx, const Long& c) {
    Setup r;
    r.dir    = ctx.dir + "/r";
    r.schema = Universe::plain().schema;
    r.create();
    ctx.describe = c.text();
    ctx.sample(ctx.describe);
    Servers servers(r, c.c, ctx.worker);
    const int N = 300;
    auto child  = mc::runChild(
        [&]() -> std::string {
            setenv("FDB_READ_LIMIT", "1000", 1);
            fdb5::FDB f(servers.client());
            auto f0 = std::make_unique<fdb5::FDB>(servers.client());
            KV k    = Universe::plain().all(0);
            Req db = reqOf(Universe::plain().fields[0][0]);
            Req all = reqOf(k);
            for (auto& p : all) {
                if (p.first == "step") {
                    p.second.clear();
                }
            }
            auto setStep = [&](int i) {
                for (auto& kv : k) {
                    if (kv.first == "step") {
                        kv.second = std::to_string(i);
                    }
                }
            };
            for (int i = 0; i < N; ++i) {
                setStep(i);
                std::string p = payload(i % 10, i);
                f.archive(key(k), p.data(), p.size());
                for (auto& q : all) {
                    if (q.first == "step") {
                        q.second.push_back(std::to_string(i));
                    }
                }
            }
            f.flush();
            auto count = [](fdb5::ListIterator& it, int limit) {
                fdb5::ListElement e;
                int n = 0;
                while (n < limit && it.next(e)) {
                    ++n;
                }
                return n;
            };
            auto first = std::make_unique<fdb5::ListIterator>(f0->list(tool(db), fdb5::ListMode::Full, 3));
            int a      = count(*first, c.taken);
            if (c.drop) {
                first.reset();
            }
            if (c.drop == 2) {
                f0.reset();
            }
            std::string got;
            if (c.next == "list") {
                auto it = f.list(tool(db), fdb5::ListMode::Full, 3);
                got     = std::to_string(count(it, N + 1));
            }
            else if (c.next == "axes") {
                got = std::to_string(f.axes(tool(db), 3).values("step").size());
            }
            else if (c.next == "retrieve") {
                std::unique_ptr<eckit::DataHandle> h(f.retrieve(mars(all)));
                got = std::to_string(mc::split(identify(slurp(*h, 100)), '+').size());
            }
            else if (c.next == "retrieve in part") {
                {
                    std::unique_ptr<eckit::DataHandle> h(f.retrieve(mars(all)));
                    char b[100];
                    h->openForRead();
                    h->read(b, 100);
                    h->close();
                }
                std::unique_ptr<eckit::DataHandle> h(f.retrieve(mars(all)));
                got = std::to_string(mc::split(identify(slurp(*h, 100)), '+').size());
            }
            else if (c.next == "inspect") {
                auto it = f.inspect(mars(all));
                got     = std::to_string(count(it, N + 1));
            }
            else if (c.next == "archive") {
                setStep(0);
                f.archive(key(k), "x", 1);
                f.flush();
                got = "300";
            }
            else if (c.next == "another client") {
                fdb5::FDB g(servers.client());
                auto it = g.list(tool(db), fdb5::ListMode::Full, 3);
                got     = std::to_string(count(it, N + 1));
            }
            if (got != std::to_string(N)) {
                return "wrong number\t" + c.next + " gave " + got + " instead of 300";
            }
            if (first) {
                a += count(*first, N + 1);
                if (a != N && !(c.next == "archive" && a == N + 1)) {
                    return "wrong number\tthe listing gave " + std::to_string(a) + " instead of 300";
                }
            }
            return "ok";
        },
        15);
    if (child.timeout) {
        ctx.fail(c.drop ? "hang" : "hang: a listing that is not read holds up the others", ctx.describe + "\n" + child.log + servers.logs());
    }
    else if (!child.ok) {
        ctx.fail(child.code == 3 ? "operation fails" : "process ended", child.status() + " " + child.out + "\n" + child.log + servers.logs());
    }
    else if (child.out != "ok") {
        auto tab = child.out.find('\t');
        ctx.fail(child.out.substr(0, tab), child.out.substr(tab + 1) + "\n" + servers.logs());
    }
    ctx.distinct(c.text());
}

void enumerate(const std::vector<std::string>& ops, int depth, std::vector<std::string>& cur, std::vector<std::vector<std::string>>& out) {
    if (!cur.empty()) {
        out.push_back(cur);
    }
    if ((int)cur.size() == depth) {
        return;
    }
    for (auto& o : ops) {
        cur.push_back(o);
        enumerate(ops, depth, cur, out);
        cur.pop_back();
    }
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C17", 300, 3600);
    setenv("FDB_WIPE_SECRET", "secret", 1);
    Cluster two, one, threads, stores, shared, local;
    one.single       = true;
    threads.threaded = true;
    stores.stores    = 2;
    shared.sharedRoots = true;
    local.local = local.sharedRoots = true;
    auto* u         = &Universe::plain();
    const bool deep = mc::opts.thorough;

    // programs that archive first (only then is there anything to ask)
    auto programs = [](const std::vector<std::string>& alphabet, int depth, const std::vector<std::string>& before = {}) {
        std::vector<std::vector<std::string>> all, out;
        std::vector<std::string> cur;
        enumerate(alphabet, depth, cur, all);
        for (auto& p : all) {
            if ((int)p.size() == depth && (!before.empty() || p[0][0] == 'A')) {
                auto q = before;
                q.insert(q.end(), p.begin(), p.end());
                out.push_back(q);
            }
        }
        return out;
    };
    {
        std::vector<Case> cases;
        for (auto& cl : {two, one, threads}) {
            for (auto& p : programs({"A0", "A1", "A2", "A3", "F", "O", "S", "Wd", "Wi", "wd", "L", "r", "2"}, 3)) {
                cases.push_back({cl, u, p});
            }
        }
        if (deep) {
            for (auto& cl : {two, one}) {
                for (auto& p : programs({"A0", "A1", "A3", "F", "O", "S", "Wd", "Wi", "2"}, 4)) {
                    cases.push_back({cl, u, p});
                }
            }
        }
        mc::sweep("programs", cases.size(), [&](mc::Ctx& ctx) { runCase(ctx, cases[ctx.idx]); }, 120);
    }
    {  // where the data are: several stores, the roots of the catalogue, data from before there was a server
        std::vector<Case> cases;
        for (auto& cl : {stores, shared, local}) {
            for (auto& p : programs({"A0", "A1", "A3", "F", "O", "S", "Wd", "Wi", "wd", "2"}, deep ? 3 : 2, {"A0", "F"})) {
                // (servers that share their roots refuse to wipe, each takes the files of the other for unknown ones)
                bool wipes = std::any_of(p.begin(), p.end(), [](const std::string& op) { return op[0] == 'W' || op[0] == 'w'; });
                if (!wipes || !cl.sharedRoots) {
                    cases.push_back({cl, u, p});
                }
            }
        }
        mc::sweep("layouts", cases.size(), [&](mc::Ctx& ctx) { runCase(ctx, cases[ctx.idx]); }, 120);
    }
    {  // results that are not read, or in part
        std::vector<Case> cases;
        for (auto& cl : {two, one, threads}) {
            for (int limit : {0, 64, 200}) {
                for (auto& p : programs({"L", "l", "I", "r", "R", "2", "A0", "F", "O"}, deep ? 3 : 2, {"A0", "A1", "A5", "F"})) {
                    // (retrievals that are read alternately need a limit that leaves room for both)
                    if (limit != 64 || std::find(p.begin(), p.end(), "2") == p.end()) {
                        cases.push_back({cl, u, p, limit});
                    }
                }
            }
        }
        mc::sweep("consumption", cases.size(), [&](mc::Ctx& ctx) { runCase(ctx, cases[ctx.idx]); }, 120);
    }
    {
        std::vector<Case> cases;
        for (auto* v : {&Universe::mixed(), &Universe::typed()}) {
            for (auto& cl : {two, one}) {
                for (auto& p : programs({"A0", "A1", "A2", "A3", "A4", "A5", "F", "Wd", "Wi"}, deep ? 3 : 2)) {
                    cases.push_back({cl, v, p});
                }
            }
        }
        mc::sweep("universes", cases.size(), [&](mc::Ctx& ctx) { runCase(ctx, cases[ctx.idx]); }, 120);
    }

    {
        std::vector<Long> cases;
        for (auto& cl : {two, one, threads}) {
            for (int taken : {0, 1, 99, 100, 101, 150, 250, 300}) {
                for (auto& n : {"list", "axes", "retrieve", "retrieve in part", "inspect", "archive", "another client"}) {
                    for (int d : {1, 2, 0}) {
                        // (known to wait for ever as long as more is outstanding than the queues hold: one case of it)
                        if (d == 0 && taken < 150 && (taken != 0 || std::string(n) != "list")) {
                            continue;
                        }
                        cases.push_back({cl, taken, n, d});
                    }
                }
            }
        }
        mc::sweep("long", cases.size(), [&](mc::Ctx& ctx) { runLong(ctx, cases[ctx.idx]); }, 120);
    }

    mc::Evidence e;
    e.rule =
        "Every program of operations of a bounded length (archive one of several fields, flush, new FDB objects, another FDB object, wipe of a "
        "database or an index, dry run of a wipe, listings and retrievals read in part or not at all, retrievals and a listing entangled) is carried "
        "out step by step through servers (processes, TCP loopback) and directly on an FDB of the same layout. After every step that "
        "publishes, and again with new clients, all answers are compared: listings in all modes and depths, axes, inspection, retrieval "
        "and statistics, for requests for everything, databases, indexes, nothing; in the end, number and size of the files, and that the "
        "servers live. Layouts: two connections, one connection, threaded servers, two stores, shared roots, data from before there "
        "was a server; universes with one rule, several rules with optional keywords, typed keywords; a limit of the data "
        "outstanding. Then listings of 300 elements, dropped after k of them or entangled with another operation, which must end with all elements.";
    e.assumptions = {"operations that RemoteFDB does not implement (dump, status, control, purge, move) are outside",
                     "the threads of client and servers are scheduled by the system"};
    return mc::finish(e);
}
