// C01: flushed fields are found again, and the latest version of each wins.
//
// All histories up to a depth of: archive a field, flush, reopen the FDB, end the process and start another, by one or
// two writing processes alive at the same time; for a set of configurations. Each is compared, from a fresh process,
// with a reference model of which versions may be visible.
#include <memory>
#include <sstream>

#include "fx.h"
#include "mc.h"
#include "session.h"

using namespace fx;

static const std::vector<KV> FIELDS = {
    {{"class", "od"}, {"expver", "1"}, {"type", "an"}, {"step", "0"}, {"param", "x"}},
    {{"class", "od"}, {"expver", "1"}, {"type", "an"}, {"step", "0"}, {"param", "y"}},
    {{"class", "od"}, {"expver", "1"}, {"type", "fc"}, {"step", "0"}, {"param", "x"}},
    {{"class", "od"}, {"expver", "2"}, {"type", "an"}, {"step", "0"}, {"param", "x"}},
};
static const int NF = 4;

// operations: kind ('A' archive, 'F' flush, 'C' close and reopen the FDB, 'X' end the process and start another),
// writer, field
struct Op {
    char kind;
    int w, f;
    std::string str() const {
        std::string s(1, kind);
        s += std::to_string(w);
        if (kind == 'A') {
            s += ":" + std::to_string(f);
        }
        return s;
    }
};
using History = std::vector<Op>;

static std::string str(const History& h) {
    std::string s;
    for (auto& o : h) {
        s += (s.empty() ? "" : " ") + o.str();
    }
    return s;
}

// All histories of exactly depth d that are not equivalent to a shorter or earlier one by construction: fields 0 and 1
// play the same role until one is used, so do the writers; flush, close and exit only where they can do something.
static void enumerate(int d, int writers, int fields, History& h, std::vector<History>& out) {
    if ((int)h.size() == d) {
        if (h.back().kind == 'A' || true) {
            out.push_back(h);
        }
        return;
    }
    bool used[2] = {false, false}, pending[2] = {false, false}, open[2] = {false, false}, seen[NF] = {};
    for (auto& o : h) {
        used[o.w] = true;
        if (o.kind == 'A') {
            pending[o.w] = open[o.w] = true;
            seen[o.f]                = true;
        }
        else if (o.kind == 'F') {
            pending[o.w] = false;
        }
        else {
            pending[o.w] = open[o.w] = false;
        }
    }
    for (int w = 0; w < writers; ++w) {
        if (w == 1 && !used[0]) {
            continue;
        }
        for (int f = 0; f < fields; ++f) {
            if (f == 1 && !seen[0]) {
                continue;
            }
            h.push_back({'A', w, f});
            enumerate(d, writers, fields, h, out);
            h.pop_back();
        }
        if (pending[w]) {
            h.push_back({'F', w, 0});
            enumerate(d, writers, fields, h, out);
            h.pop_back();
        }
        if (open[w]) {
            for (char k : {'C', 'X'}) {
                h.push_back({k, w, 0});
                enumerate(d, writers, fields, h, out);
                h.pop_back();
            }
        }
    }
}

static std::unique_ptr<mc::Session> writer(const Setup& s) {
    return std::make_unique<mc::Session>([&s]() -> mc::Session::Handler {
        s.apply();
        auto fdb = std::make_shared<std::unique_ptr<fdb5::FDB>>();
        return [fdb, &s](const std::string& cmd) -> std::string {
            if (cmd[0] == 'C') {
                fdb->reset();
                return "ok";
            }
            if (!*fdb) {
                fdb->reset(new fdb5::FDB(s.config()));
            }
            if (cmd[0] == 'F') {
                (*fdb)->flush();
                return "ok";
            }
            int f, v;
            sscanf(cmd.c_str(), "A %d %d", &f, &v);
            std::string data = payload(f, v);
            (*fdb)->archive(key(FIELDS[f]), data.data(), data.size());
            return "ok";
        };
    });
}

/// From a writer's opening of the FDB to its closing it
struct Life {
    int created = -1;  // time of the first flush
    int closed  = -1;
};

struct Version {
    int v;
    int w;
    int archived;      // time
    int flushed = -1;  // time its flush (or close) returned, if it has
    std::shared_ptr<Life> session;
};

static void run(mc::Ctx& ctx, const Setup& proto, const History& h) {
    Setup s = proto;
    s.dir   = ctx.dir;
    s.create();
    ctx.describe = s.describe() + "\n" + str(h);

    std::unique_ptr<mc::Session> w[2];
    std::vector<Version> model[NF];
    std::vector<std::pair<int, int>> pending[2];  // field, index in model
    std::shared_ptr<Life> life[2] = {std::make_shared<Life>(), std::make_shared<Life>()};
    int t = 0;
    for (const auto& o : h) {
        ++t;
        if (!w[o.w]) {
            w[o.w] = writer(s);
        }
        std::string r = "ok";
        switch (o.kind) {
            case 'A': {
                Version v{(int)model[o.f].size() + 1, o.w, t};
                v.session = life[o.w];
                r = (*w[o.w])("A " + std::to_string(o.f) + " " + std::to_string(v.v));
                pending[o.w].push_back({o.f, (int)model[o.f].size()});
                model[o.f].push_back(v);
                break;
            }
            case 'F':
            case 'C':
                r = (*w[o.w])(std::string(1, o.kind));
                break;
            case 'X':
                r = (*w[o.w])("C");
                if (!w[o.w]->quit()) {
                    ctx.fail("writer crash at exit", w[o.w]->log());
                }
                w[o.w].reset();
                break;
        }
        if (r != "ok") {
            ctx.fail("operation refused", o.str() + " -> " + r);
            return;
        }
        if (o.kind != 'A') {
            for (auto& p : pending[o.w]) {
                model[p.first][p.second].flushed = t;
            }
            pending[o.w].clear();
        }
        if (o.kind == 'F' && life[o.w]->created < 0) {
            life[o.w]->created = t;
        }
        if (o.kind == 'C' || o.kind == 'X') {
            life[o.w]->closed = t;
            life[o.w]         = std::make_shared<Life>();
        }
    }
    // The writers stop dead, without flushing
    w[0].reset();
    w[1].reset();

    // Reference: version v may be what is seen unless some other version was archived after v's flush had completed and
    // has itself been flushed; a field with no flushed version may be absent. A later unflushed version may be visible
    // (databases are flushed when evicted).
    auto c = mc::runChild([&]() {
        s.apply();
        fdb5::FDB fdb(s.config());
        std::string out;
        for (auto& e : list(fdb, {}, Dedup)) {
            out += "L\t" + e.key + "\t" + e.bytes + "\n";
        }
        for (int f = 0; f < NF; ++f) {
            std::string r;
            try {
                r = retrieve(fdb, FIELDS[f]);
            }
            catch (std::exception& e) {
                r = std::string("exception: ") + e.what();
            }
            out += "R\t" + fx::str(FIELDS[f]) + "\t" + r + "\n";
        }
        return out;
    });
    if (!c.ok) {
        ctx.fail("reader failed", c.status() + " " + c.log);
        return;
    }
    std::map<std::string, std::vector<std::string>> got[2];
    for (auto& line : mc::split(c.out, '\n')) {
        auto f = mc::split(line, '\t');
        f.resize(3);
        got[f[0] == "R"][f[1]].push_back(f[2]);
    }
    std::string outcome;
    for (int f = 0; f < NF; ++f) {
        std::set<std::string> allowed;
        bool mayBeAbsent = true;
        for (auto& v : model[f]) {
            bool beaten = false;
            for (auto& u : model[f]) {
                if (v.flushed >= 0 && u.flushed >= 0 && u.archived > v.flushed) {
                    beaten = true;  // u was archived after v was safe, and has been flushed
                }
                if (&u > &v && u.flushed >= 0 && v.flushed == u.flushed) {
                    beaten = true;  // same writer, same flush, later
                }
                if (v.flushed < 0 && u.flushed >= 0 && u.archived > v.archived) {
                    beaten = false;
                }
            }
            if (!beaten) {
                allowed.insert(std::to_string(f) + ":" + std::to_string(v.v));
            }
            if (v.flushed >= 0) {
                mayBeAbsent = false;
            }
        }
        std::string k = fx::str(FIELDS[f]);
        for (int r = 0; r < 2; ++r) {
            const char* how = r ? "retrieve" : "list";
            auto it         = got[r].find(k);
            std::vector<std::string> vals;
            if (it != got[r].end()) {
                vals = it->second;
            }
            if (r == 1 && vals.size() == 1 && vals[0].empty()) {
                vals.clear();
            }
            std::string what = vals.empty() ? "absent" : join(vals, " and ");
            outcome += what + ";";
            if (vals.empty() ? !mayBeAbsent : (vals.size() != 1 || !allowed.count(vals[0]))) {
                std::string kind = vals.empty() ? "flushed field lost" : vals.size() > 1 ? "reported twice"
                                 : vals[0].find(':') == std::string::npos || vals[0].find("(") != std::string::npos
                                     ? "damaged data"
                                     : "old version";
                if (kind == "old version" && proto.subtocs) {
                    // Known: the entries in a process's sub-toc rank as a whole, by when its sub-toc was created, and, once
                    // the process has consolidated it, by when that was; not by when each was flushed.
                    const Version* top = nullptr;
                    auto rank          = [](const Version& v) {
                        return std::make_pair(v.session->closed > 0 ? v.session->closed : v.session->created, v.v);
                    };
                    bool several = false;
                    for (auto& v : model[f]) {
                        if (v.flushed >= 0) {
                            several |= top && top->w != v.w;
                            if (!top || rank(v) > rank(*top)) {
                                top = &v;
                            }
                        }
                    }
                    if (several && vals[0] == std::to_string(f) + ":" + std::to_string(top->v)) {
                        kind = "subtocs: versions from several processes rank by age of sub-toc, not of flush";
                    }
                }
                ctx.fail(kind + (r && kind == "reported twice" ? " by retrieve" : ""),
                         std::string(how) + ": field " + k + " is " + what + ", allowed: " + joinSet(allowed) + (mayBeAbsent ? " or absent" : ""));
            }
            if (it != got[r].end()) {
                got[r].erase(it);
            }
        }
    }
    for (int r = 0; r < 2; ++r) {
        for (auto& kv : got[r]) {
            ctx.fail("field never archived", kv.first + " " + join(kv.second, " "));
        }
    }
    ctx.distinct(proto.describe() + outcome);
    ctx.count("operations", h.size());
    if (ctx.idx % 997 == 5) {
        ctx.sample(ctx.describe + " -> " + outcome);
    }
}

int main(int argc, char** argv) {
    mc::init(argc, argv, "C01");

    std::vector<Setup> setups;
    for (int sub = 0; sub < 2; ++sub) {
        for (int sep = 0; sep < 2; ++sep) {
            for (int ver = 1; ver <= 3; ++ver) {
                for (int max : {0, 1}) {
                    // quick: each pair of settings occurs; thorough: the product
                    bool pick = mc::opts.thorough || (!sep && ver == 3 && !max) || (sep && ver == 2 && max && sub) ||
                                (sep && ver == 1 && !max && !sub) || (!sep && ver == 1 && max && !sub);
                    if (!pick) {
                        continue;
                    }
                    Setup s;
                    s.subtocs       = sub;
                    s.separateStore = sep;
                    s.version       = ver == 3 ? 0 : ver;
                    s.maxDBs        = max;
                    setups.push_back(s);
                }
            }
        }
    }
    std::vector<History> one, two, deep;
    int d1 = mc::opts.thorough ? 6 : 5, d2 = mc::opts.thorough ? 5 : 4;
    History h;
    for (int d = 1; d <= d1; ++d) {
        enumerate(d, 1, NF, h, one);
    }
    for (int d = 2; d <= d2; ++d) {
        std::vector<History> all;
        enumerate(d, 2, 3, h, all);
        for (auto& x : all) {
            bool both = false;
            for (auto& o : x) {
                both |= o.w == 1;
            }
            if (both) {
                two.push_back(x);
            }
        }
    }
    // deeper, but on a single field (or two, in thorough)
    int d3 = mc::opts.thorough ? 7 : 6;
    for (int d = d2 + 1; d <= d3; ++d) {
        std::vector<History> all;
        enumerate(d, 2, mc::opts.thorough ? 2 : 1, h, all);
        for (auto& x : all) {
            bool both = false;
            for (auto& o : x) {
                both |= o.w == 1;
            }
            if (both) {
                deep.push_back(x);
            }
        }
    }
    for (auto* hs : {&one, &two, &deep}) {
        std::vector<std::pair<const Setup*, const History*>> todo;
        for (auto& x : *hs) {
            for (auto& s : setups) {
                // quick: the longest histories in the two main configurations only
                if (mc::opts.thorough || x.size() < hs->back().size() || (!s.version && !s.maxDBs && !s.separateStore)) {
                    todo.push_back({&s, &x});
                }
            }
        }
        mc::sweep(hs == &one ? "one-writer" : hs == &two ? "two-writers" : "two-writers-deep", todo.size(),
                  [&](mc::Ctx& ctx) { run(ctx, *todo[ctx.idx].first, *todo[ctx.idx].second); });
    }
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "Every history of archive/flush/reopen/new-process operations up to the depth bound (one writer: " +
             std::to_string(d1) + ", two writers alive together: " + std::to_string(d2) +
             "), times the configurations; distinct_nontrivial counts distinct observed contents per configuration.";
    e.assumptions = {"writers are stopped by SIGKILL after the history, readers start afterwards",
                     "two writers are interleaved at the granularity of API calls here; C05 refines this"};
    return mc::finish(e);
}
