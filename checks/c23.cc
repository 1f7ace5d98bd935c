// C23: statistics account for every field and byte.
//
// Stored states (before and after a wipe and re-archival) x database requests; the report of each database compared with
// the reference model and with the files.
#include <algorithm>
#include <filesystem>
#include <sstream>

#include "fdb5/api/helpers/StatsIterator.h"

#include "mc.h"
#include "world.h"

using namespace fx;
namespace fs = std::filesystem;

/// "label: count" of each line of a report ("Fields : 1", "Size of fields : 12 (12 bytes)")
static std::map<std::string, long long> parse(const std::string& report, std::string& bad) {
    std::map<std::string, long long> r;
    for (auto& line : mc::split(report, '\n')) {
        auto p = line.find(':');
        if (p == std::string::npos) {
            continue;
        }
        std::string label = line.substr(0, p), value = line.substr(p + 1);
        while (!label.empty() && label.back() == ' ') {
            label.pop_back();
        }
        label.erase(0, label.find_first_not_of(' '));
        // bytes are given in units, too; the exact number comes first
        std::string digits;
        for (char ch : value) {
            if (isdigit(ch)) {
                digits += ch;
            }
            else if (ch == '(') {
                break;
            }
            else if (ch == '.') {
                digits.clear();
                break;
            }
        }
        auto q = value.find('(');
        if (q != std::string::npos && value.find("bytes") == std::string::npos && digits.empty()) {
            bad += " " + line;
        }
        r[label] = atoll(digits.c_str());
    }
    return r;
}

static std::string textOf(const std::map<std::string, long long>& m) {
    std::string r;
    for (auto& kv : m) {
        if (kv.second) {  // (what is zero may be left out)
            r += kv.first + "=" + std::to_string(kv.second) + "; ";
        }
    }
    return r;
}

static std::map<std::string, long long> expected(const Setup& s, const Model& m, const std::string& db) {
    std::map<std::string, long long> r;
    std::map<int, int> vis = m.visible();
    long long physical     = 0;
    for (auto& p : m.indexes) {
        if (p.db != db) {
            continue;
        }
        ++physical;
        for (auto& e : p.entries) {
            long long len = payload(e.first, e.second).size();
            r["Fields"]++;
            r["Size of fields"] += len;
            bool v = vis[e.first] == e.second;
            r["Duplicated fields"] += !v;
            r["Size of duplicates"] += v ? 0 : len;
            r["Reacheable fields"] += v;
            r["Reachable size"] += v ? len : 0;
        }
    }
    long long owned = 0, ownedSize = 0, index = 0, indexSize = 0, toc = 0, schema = 0;
    auto scan = [&](const std::string& dir, bool store) {
        if (!fs::exists(dir)) {
            return;
        }
        for (auto& f : fs::directory_iterator(dir)) {
            std::string n = f.path().filename();
            if (n.size() > 5 && n.substr(n.size() - 5) == ".data") {
                ++owned;
                ownedSize += f.file_size();
            }
            else if (!store && n.size() > 6 && n.substr(n.size() - 6) == ".index") {
                ++index;
                indexSize += f.file_size();
            }
            else if (!store && n == "toc") {
                toc += f.file_size();
            }
            else if (!store && n == "schema") {
                schema += f.file_size();
            }
        }
    };
    scan(s.root() + "/" + dirOf(db), false);
    if (s.separateStore) {
        scan(s.storeRoot() + "/" + dirOf(db), true);
    }
    r["Databases"]                                        = 1;
    r["Size of schemas files"]                            = schema;
    r[s.separateStore ? "Adopted data files" : "Owned data files"] = owned;
    r[s.separateStore ? "Size of adopted data files" : "Size of owned data files"] = ownedSize;
    r[s.separateStore ? "Owned data files" : "Adopted data files"]                 = 0;
    r[s.separateStore ? "Size of owned data files" : "Size of adopted data files"] = 0;
    r["Size of TOC files"] = toc;
    if (!s.subtocs) {
        r["Index files"]         = index;
        r["Size of index files"] = indexSize;
        r["TOC records"]         = physical;  // and further ones: corrected below
        r["Total owned size"]    = toc + schema + indexSize + (s.separateStore ? 0 : ownedSize);
        r["Total size"]          = toc + schema + indexSize + ownedSize;
    }
    return r;
}

static std::string explore(const Setup& s, const Model& m, const std::vector<Req>& reqs, const std::map<std::string, int>& extraRecords,
                           uint64_t& n, const std::string& stage) {
    std::string out;
    auto fail = [&](const std::string& sig, const std::string& detail) {
        if (out.size() < 4000) {
            out += sig + "\t" + stage + detail + "\n";
        }
    };
    std::map<std::string, std::map<std::string, long long>> want;
    for (auto& db : m.dbs()) {
        want[db] = expected(s, m, db);
        if (!s.subtocs) {
            want[db]["TOC records"] += extraRecords.at(db);
        }
    }
    fdb5::FDB fdb(s.config());
    unsigned turn = 0;
    for (auto& r : reqs) {
        Spelt spelt(m.u->spell, ++turn);
        ++n;
        try {
            std::multiset<std::string> got, exp;
            std::map<std::string, long long> sum;
            auto it = fdb.stats(tool(r));
            fdb5::StatsElement e;
            fdb5::IndexStats is;
            fdb5::DbStats ds;
            int k = 0;
            std::string bad;
            while (it.next(e)) {
                std::ostringstream o;
                e.indexStatistics.report(o);
                o << "\n";
                e.dbStatistics.report(o);
                auto p = parse(o.str(), bad);
                for (auto& x : p) {
                    sum[x.first] += x.second;
                }
                if (p["Fields"] != (long long)e.indexStatistics.fieldsCount() ||
                    p["Duplicated fields"] != (long long)e.indexStatistics.duplicatesCount() ||
                    p["Size of fields"] != (long long)e.indexStatistics.fieldsSize() ||
                    p["Size of duplicates"] != (long long)e.indexStatistics.duplicatesSize()) {
                    fail("report and counters differ", str(r) + ": " + o.str());
                }
                // compare what the model determines
                if (s.subtocs) {
                    for (auto* l : {"Index files", "Size of index files", "TOC records", "Total owned size", "Total size"}) {
                        p.erase(l);
                    }
                }
                got.insert(textOf(p));
                if (k++) {
                    is += e.indexStatistics;
                    ds += e.dbStatistics;
                }
                else {
                    is = e.indexStatistics;
                    ds = e.dbStatistics;
                }
            }
            for (auto& w : want) {
                if (m.dbMatches(w.first, r)) {
                    exp.insert(textOf(w.second));
                }
            }
            if (got != exp) {
                fail("statistics differ", str(r) + ": got " + joinSet(got, " | ") + " instead of " + joinSet(exp, " | "));
            }
            if (k) {
                std::ostringstream o;
                is.report(o);
                o << "\n";
                ds.report(o);
                if (textOf(parse(o.str(), bad)) != textOf(sum)) {
                    fail("statistics do not add up", str(r) + ": " + textOf(parse(o.str(), bad)) + " for " + textOf(sum));
                }
            }
            if (!bad.empty()) {
                fail("malformed report", bad);
            }
        }
        catch (std::exception& e) {
            fail("stats fail", str(r) + ": " + e.what());
        }
    }
    return out;
}

static void run(mc::Ctx& ctx, const State& st, const std::vector<Req>& reqs, const std::vector<Req>& wipes) {
    Setup s  = st.setup;
    s.dir    = ctx.dir;
    s.schema = st.u->schema;
    s.create();
    Req w        = wipes[ctx.idx % wipes.size()];
    ctx.describe = s.describe() + "\n" + st.program + "\nthen wipe " + str(w) + ", then archive all";
    Model m;
    m.u       = st.u;
    m.subtocs = s.subtocs;
    uint64_t n = 0;
    std::string outcome;
    std::map<std::string, int> extra;  // records besides those of the indexes present
    for (int stage = 0; stage < 3; ++stage) {
        if (stage == 1) {
            std::set<std::string> gone, idx;
            m.wipe(w, gone, idx);
            for (auto& g : gone) {
                extra.erase(g);
            }
            if (auto x = wipe(s, w, true, false); !x.ok) {
                ctx.fail("wipe fails", x.out);
                return;
            }
        }
        else {
            std::string p = stage ? "A5 A4 A3 A2 A1 A0" : st.program;
            int first     = m.nextVersion;
            effect(m, p);
            for (auto& db : m.dbs()) {
                if (!extra.count(db)) {
                    extra[db] = 1;  // the initial record
                }
            }
            auto c = mc::runChild([&]() {
                s.apply();
                build(s, *st.u, p, first);
                return std::string();
            });
            if (!c.ok) {
                ctx.fail("archiving fails", c.status() + c.out);
                return;
            }
        }
        auto c = mc::runChild([&]() {
            s.apply();
            uint64_t k = 0;
            auto r     = explore(s, m, reqs, extra, k, stage == 1 ? "after the wipe: " : stage ? "in the end: " : "");
            return std::to_string(k) + "\n" + r;
        }, 600);
        if (!c.ok) {
            ctx.fail("stats end the process", c.status() + c.out + c.log);
            return;
        }
        auto lines = mc::split(c.out, '\n');
        n += atoll(lines[0].c_str());
        for (size_t i = 1; i < lines.size(); ++i) {
            auto f = mc::split(lines[i], '\t');
            if (f.size() == 2) {
                ctx.fail(f[0], f[1]);
            }
        }
        outcome += answers(m, true);
    }
    ctx.count("statistics", n);
    ctx.distinct(outcome + (s.subtocs ? "s" : ""));
    if (ctx.idx % 97 == 5) {
        ctx.sample(ctx.describe + "; " + std::to_string(reqs.size()) + " requests");
    }
}

int main(int argc, char** argv) {
    mc::init(argc, argv, "C23", 120, 3600);
    auto states = fx::states(true);
    std::map<const Universe*, std::vector<Req>> reqs;
    for (auto* u : Universe::every()) {
        Domain d;
        for (auto& k : domain(*u)) {
            if (k.first == "class" || k.first == "expver" || k.first == "time") {
                d.push_back(k);
            }
        }
        reqs[u] = requests(d);
    }
    std::vector<Req> wipes = {parseReq("class=od,type=an"), parseReq("class=odx"), parseReq("type=an"), parseReq("expver=1")};
    mc::sweep("states", states.size(), [&](mc::Ctx& ctx) { run(ctx, states[ctx.idx], reqs[states[ctx.idx].u], wipes); }, 1000);
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "Stored states (subsets of 6 fields x ways of archiving them x layouts, two schemas), each before a wipe, after "
              "it, and after archiving again, times requests for databases; distinct_nontrivial counts distinct histories.";
    e.assumptions = {"the store does not change while the statistics are gathered"};
    return mc::finish(e);
}
