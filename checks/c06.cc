/// C06: threads of one process that archive, flush, list and retrieve at the same time.
///
/// Two or three threads run small programs, each through an FDB of its own or through one they share. The library is
/// compiled with its memory accesses visible (lib/threads/memory.cc): a controlled scheduler runs one thread at a time
/// and switches at operations on locks, condition variables, threads, static initialisation and files, and at those
/// instructions that were found to share memory without a common lock. All schedules with one deviation from running
/// each thread as far as it goes are explored (thorough: two), for several orders in which the threads begin. Afterwards
/// another process reads everything back.
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>

#include "eckit/io/Buffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/StatusIterator.h"
#include "fx.h"
#include "mc.h"
#include "prog.h"
#include "shim.h"
#include "threads.h"

using namespace fx;

namespace {

// A<f>: archive the next version of a field; F: flush; L: list; D: list without duplicates; R<f>: retrieve; X: axes;
// I: inspect; S: stats; T: status; C: close (the next operation opens another FDB); U: dump
struct Case {
    std::string what;
    std::string before;  ///< program that has run before, in another process
    bool shared = false;  ///< one FDB for all threads
    std::vector<std::string> programs;
    std::map<std::string, std::string> resources;
    bool subtocs = false;
    bool files   = false;  ///< spaces, roots and names of databases come from files
    bool writes() const {
        return join(programs, " ").find('A') != std::string::npos;
    }
    std::string str() const {
        std::ostringstream o;
        o << (shared ? "shared FDB" : "own FDBs") << (subtocs ? ", sub-tocs" : "") << (files ? ", roots from files" : "");
        for (auto& r : resources) {
            o << ", " << r.first << "=" << r.second;
        }
        o << (before.empty() ? "" : "; before: " + before) << "; threads: " << join(programs, " | ");
        return o.str();
    }
};

struct Op {
    char kind;
    int f, v;
};
std::vector<Op> parse(const std::string& text, int firstVersion) {
    std::vector<Op> r;
    std::istringstream in(text);
    std::string w;
    while (in >> w) {
        Op o{w[0], w.size() > 1 ? w[1] - '0' : 0, 0};
        if (o.kind == 'A') {
            o.v = firstVersion++;
        }
        r.push_back(o);
    }
    return r;
}
int firstVersion(int thread) {
    return 10 * (thread + 2);
}

Setup setup(const Case& c, const std::string& dir) {
    Setup s;
    s.dir       = dir;
    s.schema    = "[class,expver[type[step,param]]]\n";
    s.resources = c.resources;
    s.subtocs   = c.subtocs;
    if (c.files) {
        s.configText = "---\ntype: local\nengine: toc\nschema: " + dir + "/schema\n";
        s.resources["fdbSpacesFile"]  = dir + "/spaces";
        s.resources["fdbRootsFile"]   = dir + "/roots";
        s.resources["fdbDbNamesFile"] = dir + "/dbnames";
    }
    return s;
}

/// The spaces and roots, and the names of databases
void inFiles(const Setup& s) {
    std::filesystem::create_directories(s.dir + "/root1");
    std::ofstream(s.dir + "/spaces") << "od:1:.* one Default\n.* two Default\n";
    std::ofstream(s.dir + "/roots") << s.root(0) << " one 1 1\n" << s.dir << "/root1 two 1 1\n";
    std::ofstream(s.dir + "/dbnames") << "class,expver=2 two-{class}-{expver}\nclass=od,expver {class}.{expver}\n";
}

const Req everything = {{"class", {"od"}}, {"expver", {"1", "2"}}, {"type", {"an", "fc"}}, {"step", {"0"}}, {"param", {"x", "y"}}};

std::string showList(fdb5::FDB& fdb, bool dedup) {
    std::vector<std::string> v;
    for (auto& e : list(fdb, {}, dedup ? Dedup : Full)) {
        v.push_back(e.bytes);
    }
    std::sort(v.begin(), v.end());
    return join(v, ",");
}

/// A thread's program; its results, one word per operation that reads
std::string body(const Case& c, const Setup& s, fdb5::FDB* shared, int thread) {
    std::ostringstream out;
    std::unique_ptr<fdb5::FDB> own;
    auto fdb = [&]() -> fdb5::FDB& {
        if (shared) {
            return *shared;
        }
        if (!own) {
            own = std::make_unique<fdb5::FDB>(s.config());
        }
        return *own;
    };
    for (auto& o : parse(c.programs[thread], firstVersion(thread))) {
        try {
            switch (o.kind) {
                case 'A': {
                    std::string d = payload(o.f, o.v);
                    fdb().archive(key(progFields()[o.f]), d.data(), d.size());
                    break;
                }
                case 'F': fdb().flush(); break;
                case 'C': own.reset(); break;
                case 'L': out << "L:" << showList(fdb(), false) << ";"; break;
                case 'D': out << "D:" << showList(fdb(), true) << ";"; break;
                case 'R': out << "R" << o.f << ":" << retrieve(fdb(), progFields()[o.f]) << ";"; break;
                case 'X': {
                    auto a = fdb().axes(tool({{"class", {"od"}}, {"expver", {"1"}}}), 3);
                    out << "X:";
                    for (const char* k : {"type", "param"}) {
                        if (!a.has(k)) {
                            continue;
                        }
                        std::set<std::string> v;
                        for (auto& x : a.values(k)) {
                            v.insert(x);
                        }
                        out << k << "=" << joinSet(v, "/") << ",";
                    }
                    out << ";";
                    break;
                }
                case 'Z': {
                    // as when they come from a server
                    eckit::Buffer b(65536);
                    std::set<std::string> type, param;
                    auto it = fdb().axesIterator(tool({{"class", {"od"}}, {"expver", {"1"}}}), 3);
                    fdb5::AxesElement e;
                    while (it.next(e)) {
                        eckit::ResizableMemoryStream to(b);
                        to << e;
                        eckit::MemoryStream from(b);
                        fdb5::AxesElement received(from);
                        for (auto& x : received.axes().values("type")) {
                            type.insert(x);
                        }
                        for (auto& x : received.axes().values("param")) {
                            param.insert(x);
                        }
                    }
                    out << "Z:type=" << joinSet(type, "/") << ",param=" << joinSet(param, "/") << ",;";
                    break;
                }
                case 'I': {
                    std::vector<std::string> v;
                    auto it = fdb().inspect(mars(everything));
                    fdb5::ListElement e;
                    while (it.next(e)) {
                        std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle());
                        v.push_back(identify(slurp(*h)));
                    }
                    std::sort(v.begin(), v.end());
                    out << "I:" << join(v, ",") << ";";
                    break;
                }
                case 'S': {
                    auto it = fdb().stats(tool({}));
                    fdb5::StatsElement e;
                    size_t n = 0;
                    while (it.next(e)) {
                        n += e.indexStatistics.fieldsCount();
                    }
                    out << "S:" << n << ";";
                    break;
                }
                case 'T': {
                    auto it = fdb().status(tool({}));
                    fdb5::StatusElement e;
                    size_t n = 0;
                    while (it.next(e)) {
                        n++;
                    }
                    out << "T:" << n << ";";
                    break;
                }
                case 'U': {
                    auto it = fdb().dump(tool({}), false);
                    fdb5::DumpElement e;
                    while (it.next(e)) {
                    }
                    break;
                }
            }
        }
        catch (std::exception& e) {
            std::string w = e.what();
            std::replace(w.begin(), w.end(), ';', ',');
            std::replace(w.begin(), w.end(), '\n', ' ');
            out << "!" << o.kind << ":" << w << ";";
        }
    }
    try {
        own.reset();
    }
    catch (std::exception& e) {
        out << "!C:" << e.what() << ";";
    }
    return out.str();
}

std::string concurrently(const Case& c, const Setup& s) {
    s.apply();
    std::unique_ptr<fdb5::FDB> shared;
    if (c.shared) {
        shared = std::make_unique<fdb5::FDB>(s.config());
    }
    std::vector<std::string> results(c.programs.size());
    std::vector<std::thread> t;
    for (size_t i = 0; i < c.programs.size(); ++i) {
        t.emplace_back([&, i]() { results[i] = body(c, s, shared.get(), i); });
    }
    for (auto& x : t) {
        x.join();
    }
    shared.reset();
    return join(results, "\x1f");
}

/// All a sequential execution could have shown, for the whole case: per field its possible last versions, and for each
/// reader the sets it may have seen
struct Expect {
    std::map<int, std::set<int>> last;      ///< versions one of which must win; empty set: absent
    std::map<int, std::set<int>> versions;  ///< all versions there are afterwards, in the full list
};
Expect expect(const Case& c) {
    Expect e;
    std::map<int, int> was;
    for (auto& o : parse(c.before, 1)) {
        if (o.kind == 'A') {
            e.last[o.f] = {o.v};
            e.versions[o.f].insert(o.v);
            was[o.f] = o.v;
        }
    }
    for (size_t t = 0; t < c.programs.size(); ++t) {
        std::map<int, int> mine;
        for (auto& o : parse(c.programs[t], firstVersion(t))) {
            if (o.kind == 'A') {
                mine[o.f] = o.v;
                e.versions[o.f].insert(o.v);
            }
        }
        for (auto& [f, v] : mine) {
            auto& l = e.last[f];
            if (l.size() == 1 && was.count(f) && *l.begin() == was[f]) {
                l.clear();
            }
            l.insert(v);
        }
    }
    return e;
}

std::string judge(const Case& c, const std::string& out, const std::string& after) {
    // after: lines "D f:v,..." "L f:v,..." "R f:v ..."
    auto e       = expect(c);
    auto results = mc::split(out, '\x1f');
    results.resize(c.programs.size());
    // how much of each program's flushing may be seen: sets of f:v by thread and flush
    std::vector<std::vector<std::vector<std::pair<int, int>>>> flushed(c.programs.size());
    for (size_t t = 0; t < c.programs.size(); ++t) {
        std::map<int, int> pending;
        for (auto& o : parse(c.programs[t] + " F", firstVersion(t))) {
            if (o.kind == 'A') {
                pending[o.f] = o.v;
            }
            else if ((o.kind == 'F' || o.kind == 'C') && !pending.empty()) {
                flushed[t].push_back({pending.begin(), pending.end()});
                pending.clear();
            }
        }
    }
    std::map<int, int> before;
    std::map<int, std::set<int>> beforeAll;
    for (auto& o : parse(c.before, 1)) {
        if (o.kind == 'A') {
            before[o.f] = o.v;
            beforeAll[o.f].insert(o.v);  // (each is flushed by itself)
        }
    }
    // the states of the store that a reader in thread t, which has flushed k times itself, may see
    auto visibleSets = [&](size_t reader, size_t own, bool full) {
        std::set<std::string> sets;
        std::vector<size_t> n(c.programs.size(), 0);
        std::function<void(size_t)> rec = [&](size_t t) {
            if (t == n.size()) {
                // in every order of the threads, where they write the same field
                std::vector<size_t> order(n.size());
                for (size_t i = 0; i < n.size(); ++i) {
                    order[i] = i;
                }
                do {
                    std::map<int, std::set<int>> v;
                    for (auto& b : before) {
                        v[b.first] = full ? beforeAll[b.first] : std::set<int>{b.second};
                    }
                    for (auto i : order) {
                        for (size_t k = 0; k < n[i]; ++k) {
                            for (auto& [f, x] : flushed[i][k]) {
                                if (!full) {
                                    v[f].clear();
                                }
                                v[f].insert(x);
                            }
                        }
                    }
                    std::vector<std::string> words;
                    for (auto& [f, xs] : v) {
                        for (int x : xs) {
                            words.push_back(std::to_string(f) + ":" + std::to_string(x));
                        }
                    }
                    std::sort(words.begin(), words.end());
                    sets.insert(join(words, ","));
                } while (std::next_permutation(order.begin(), order.end()));
                return;
            }
            for (size_t k = 0; k <= flushed[t].size(); ++k) {
                if (t == reader && k != own) {
                    continue;
                }
                n[t] = k;
                rec(t + 1);
            }
        };
        rec(0);
        return sets;
    };
    auto fieldOf = [](const std::string& w) { return std::stoi(w.substr(0, w.find(':'))); };
    for (size_t t = 0; t < results.size(); ++t) {
        auto ops     = parse(c.programs[t], firstVersion(t));
        size_t own   = 0;
        auto words   = mc::split(results[t], ';');
        size_t w     = 0;
        bool pending = false;
        for (auto& o : ops) {
            if (w < words.size() && words[w][0] == '!') {
                return "thread " + std::to_string(t) + ": " + words[w];
            }
            if (o.kind == 'A') {
                pending = true;
            }
            if ((o.kind == 'F' || o.kind == 'C') && pending) {
                ++own;
                pending = false;
            }
            if (!strchr("LDRXZIST", o.kind)) {
                continue;
            }
            if (w >= words.size()) {
                return "thread " + std::to_string(t) + ": a result is missing";
            }
            std::string got = words[w].substr(words[w].find(':') + 1);
            ++w;
            auto dedup      = visibleSets(t, own, false);
            std::set<std::string> allowed;
            switch (o.kind) {
                case 'L': allowed = visibleSets(t, own, true); break;
                case 'D':
                case 'I': allowed = dedup; break;
                case 'R':
                    for (auto& s : dedup) {
                        std::string x;
                        for (auto& word : mc::split(s, ',')) {
                            if (!word.empty() && fieldOf(word) == o.f) {
                                x = word;
                            }
                        }
                        allowed.insert(x);
                    }
                    break;
                case 'S':
                    for (auto& s : visibleSets(t, own, true)) {
                        allowed.insert(std::to_string(s.empty() ? 0 : std::count(s.begin(), s.end(), ',') + 1));
                    }
                    break;
                case 'T':
                case 'X':
                case 'Z':
                    for (auto& s : dedup) {
                        std::set<std::string> dbs, type, param;
                        for (auto& word : mc::split(s, ',')) {
                            if (word.empty()) {
                                continue;
                            }
                            auto& f = progFields()[fieldOf(word)];
                            dbs.insert(f[1].second);
                            if (f[1].second == "1") {
                                type.insert(f[2].second);
                                param.insert(f[4].second);
                            }
                        }
                        if (o.kind == 'T') {
                            allowed.insert(std::to_string(dbs.size()));
                            // (a database exists from its first archive on)
                            std::set<std::string> more = dbs;
                            for (auto& p : c.programs) {
                                for (auto& q : parse(p, 1)) {
                                    if (q.kind == 'A' && more.insert(progFields()[q.f][1].second).second) {
                                        allowed.insert(std::to_string(more.size()));
                                    }
                                }
                            }
                        }
                        else {
                            allowed.insert(type.empty() ? "" : "type=" + joinSet(type, "/") + ",param=" + joinSet(param, "/") + ",");
                        }
                    }
                    break;
            }
            if (!allowed.count(got)) {
                return "thread " + std::to_string(t) + " got " + words[w - 1] + " instead of one of: " + joinSet(allowed, "  ");
            }
        }
        if (w < words.size() && !words[w].empty()) {
            return "thread " + std::to_string(t) + ": " + words[w];
        }
    }
    if (!c.writes()) {
        return "";
    }
    // afterwards
    auto lines = mc::split(after, '\n');
    std::map<std::string, std::string> a;
    for (auto& l : lines) {
        if (l.size() > 1) {
            a[l.substr(0, 1)] = l.substr(2);
        }
    }
    std::map<int, std::set<int>> full, dd, rt;
    std::map<std::string, std::map<int, std::set<int>>> seen;
    for (auto& [kind, text] : a) {
        for (auto& word : mc::split(text, ',')) {
            if (word.empty()) {
                continue;
            }
            auto colon = word.find(':');
            if (colon == std::string::npos || !isdigit(word[0])) {
                return "afterwards: " + kind + " " + text;
            }
            int f = std::stoi(word.substr(0, colon)), v = std::stoi(word.substr(colon + 1));
            if (!seen[kind][f].insert(v).second) {
                return "afterwards twice: " + kind + " " + text;
            }
        }
    }
    for (auto& [f, versions] : e.last) {
        for (const char* k : {"D", "R"}) {
            auto& s = seen[k][f];
            if (s.size() != 1 || !versions.count(*s.begin())) {
                return "afterwards field " + std::to_string(f) + " is wrong: " + after;
            }
        }
        if (seen["D"][f] != seen["R"][f]) {
            return "afterwards list and retrieve differ: " + after;
        }
    }
    for (auto& [f, s] : seen["D"]) {
        if (!e.last.count(f)) {
            return "afterwards a field that was never archived: " + after;
        }
    }
    // the full list: nothing but what was archived, and what each flush held, unless replaced
    for (auto& [f, s] : seen["L"]) {
        for (int v : s) {
            if (!e.versions[f].count(v)) {
                return "afterwards a version that was never archived: " + after;
            }
        }
    }
    return "";
}

std::string lookAfter(const Setup& s) {
    s.apply();
    std::ostringstream o;
    {
        fdb5::FDB fdb(s.config());
        o << "D " << showList(fdb, true) << "\nL " << showList(fdb, false) << "\n";
    }
    fdb5::FDB fdb(s.config());
    std::vector<std::string> v;
    for (auto& f : progFields()) {
        auto r = retrieve(fdb, f);
        if (!r.empty()) {
            v.push_back(r);
        }
    }
    o << "R " << join(v, ",");
    return o.str();
}

std::vector<Case> cases() {
    std::vector<Case> out;
    auto own = [&](const char* before, std::vector<std::string> p, std::map<std::string, std::string> r = {}, bool sub = false) {
        out.push_back({"", before, false, p, r, sub});
    };
    auto sh = [&](const char* before, std::vector<std::string> p, std::map<std::string, std::string> r = {}, bool sub = false) {
        out.push_back({"", before, true, p, r, sub});
    };
    auto files = [&](const char* before, std::vector<std::string> p, bool shared) {
        out.push_back({"", before, shared, p, {}, false, true});
    };
    // writers
    own("", {"A0 F", "A1 F"});
    own("", {"A0 F", "A2 F"});
    own("", {"A0 F", "A3 F"});
    own("", {"A0 F", "A0 F"});
    own("A0 F", {"A1 F C A0 F", "A2 F"});
    own("A0 A2 F", {"A0 F A1 F", "A3 F"});
    own("", {"A0 F", "A2 F"}, {}, true);
    own("", {"A0", "A1 A2"});
    own("", {"A0 A3 F", "A3 A0 F"}, {{"fdbMaxNbDBsOpen", "1"}});
    // one FDB
    sh("", {"A0 F", "A1 F"});
    sh("", {"A0 F", "A2 F"});
    sh("", {"A0 F", "A3 F"});
    sh("", {"A0 F", "A0 F"});
    sh("", {"A0 A2", "A1 F"});
    sh("A0 F", {"A0 A1", "A2 F F"});
    sh("", {"A0 A3 F", "A2 A1 F"}, {{"fdbMaxNbDBsOpen", "1"}});
    sh("", {"A0 F", "A2 F"}, {}, true);
    sh("", {"A0 F", "A1 F"}, {{"fdbAsyncWrite", "true"}});
    // readers
    own("A0 A1 F", {"D", "D"});
    own("A0 A2 A3 F", {"L", "R0 R3"});
    own("A0 A1 A2 F", {"R0", "R1 R2"});
    own("A0 A2 F A0 F", {"X", "D"});
    own("A0 A2 F", {"I", "X"});
    own("A0 A1 F", {"Z", "Z"});
    own("A0 A3 F", {"S", "T"});
    own("A0 A3 F", {"U", "I"});
    own("A0 A1 F A0 F C A0 F", {"L", "I"}, {{"fdbLoadIndexThreads", "2"}});
    own("A0 A2 F C A3 F", {"D", "D"}, {}, true);
    // writer and reader
    own("A0 F", {"D", "A1 F"});
    own("A0 F", {"L", "A0 F"});
    own("A0 F", {"R0 R2", "A2 F"});
    own("", {"D", "A0 F"});
    own("", {"R0", "A0 F"});
    own("A0 F", {"I", "A2 F"});
    own("A0 F", {"X", "A2 F"});
    own("A0 F", {"S", "A2 F"});
    own("A0 F", {"T", "A3 F"});
    own("A0 F", {"A1 F R0 R1", "A2 F D"});
    own("A0 F", {"D", "A2 F A0 F"}, {}, true);
    own("A0 F", {"A1 F C A2 F C", "R0 D"});
    sh("A0 F", {"A1 F", "D"});
    sh("A0 F", {"A1 A2 F", "R0"});
    sh("A0 A3 F", {"R0", "R3"});
    sh("A0 A1 F", {"I", "R0"});
    sh("A0 F", {"D", "X"});
    // three
    own("", {"A0 F", "A1 F", "A2 F"});
    own("A0 F", {"A1 F", "D", "R0"});
    own("A0 A2 F", {"D", "X", "I"});
    sh("", {"A0 F", "A1 F", "A2 F"});
    // what is read from files once
    files("", {"A0 F", "A1 F"}, false);
    files("A0 A3 F", {"R0", "D"}, false);
    files("A0 F", {"R0", "D"}, true);
    return out;
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C06", 200, 3600);
    bool th = mc::opts.thorough;
    auto all = cases();
    struct Prepared {
        std::string dir;  ///< what is there before
        std::vector<void*> places;
    };
    std::vector<Prepared> prep(all.size());
    for (size_t i = 0; i < all.size(); ++i) {
        prep[i].dir = mc::scratch() + "/before" + std::to_string(i);
        Setup s     = setup(all[i], prep[i].dir);
        s.create();
        if (all[i].files) {
            inFiles(s);
        }
        auto c = mc::runChild([&]() {
            s.apply();
            Runner r(s);
            for (auto& x : program(all[i].before)) {
                r.step(x);
            }
            return std::string();
        });
        if (!c.ok) {
            mc::violation("cannot be prepared: " + all[i].str(), c.status() + c.log);
        }
    }
    static long serial = 0;
    auto one = [&](const Case& c, const Prepared& p, const std::string& base, const std::vector<int>& prefix, const threads::Options& o,
                   std::string& after) {
        char name[32];
        snprintf(name, sizeof name, "/r%07ld", serial++);
        Setup s = setup(c, base + name);
        copyTree(p.dir, s.dir);
        if (c.files) {
            inFiles(s);
        }
        shim::track(s.dir);
        auto x = threads::run([&]() { return concurrently(c, s); }, prefix, o);
        if (x.child.ok && !x.deadlock && c.writes()) {
            auto a = mc::runChild([&]() { return lookAfter(s); });
            after  = a.ok ? a.out : a.status() + " " + a.out + a.log;
        }
        std::filesystem::remove_all(s.dir);
        return x;
    };
    auto verdict = [&](const Case& c, const threads::Outcome& x, const std::string& after) -> std::pair<std::string, std::string> {
        if (!x.fault.empty()) {
            return {"memory error", x.fault};
        }
        if (x.deadlock) {
            return {"deadlock", x.blocked};
        }
        if (!x.child.ok) {
            return {"crash or hang", x.child.status() + " " + x.child.out + x.child.log.substr(0, 1500)};
        }
        auto w = judge(c, x.child.out, after);
        if (!w.empty()) {
            return {w.substr(0, 10) == "afterwards" ? "wrong afterwards" : w.find("!") != std::string::npos ? "an operation fails" : "a wrong answer", w};
        }
        return {};
    };


    // Which instructions share memory, and which decisions there are: from the default schedule, and from some in which
    // the threads overlap
    auto options = [&](const std::vector<void*>& places) {
        threads::Options o;
        o.filePoints   = true;
        o.places       = places;
        o.perPlace     = th ? 3 : 1;
        return o;
    };
    auto report = [&](mc::Ctx& ctx, const Case& c, const threads::Outcome& x, const std::string& after) {
        ctx.describe = c.str() + "\nschedule: " + threads::str(threads::choices(x, x.decisions.size())) + "\n" + x.trace.substr(0, 40000) + "\n" +
                       x.child.out + "\n" + after;
        ctx.count("schedules");
        ctx.count("decisions", x.decisions.size());
        auto v = verdict(c, x, after);
        if (!v.first.empty()) {
            ctx.fail(v.first + ": " + c.str(), v.second);
            return false;
        }
        return true;
    };
    /// an operation before which to switch
    auto worth = [&](const threads::Decision& d) {
        return !d.foreign && d.what != "unlock" && d.what != "rwunlock" && d.what != "join" && d.what != "close" && d.what != "seek" && (th || d.shared || d.what.compare(0, 6, "memory") == 0 || d.what == "static" || d.what == "once");
    };
    mc::sweep("places", all.size(), [&](mc::Ctx& ctx) {
        auto& c = all[ctx.idx];
        auto o  = options({});
        std::set<void*> places;
        std::string after;
        o.record = true;
        auto x   = one(c, prep[ctx.idx], ctx.dir, {}, o, after);
        if (!report(ctx, c, x, after)) {
            return;
        }
        places.insert(x.places.begin(), x.places.end());
        size_t parts = th ? 24 : 6;
        for (size_t i = 1; i < parts; ++i) {
            size_t at = x.decisions.size() * i / parts;
            while (at < x.decisions.size() && !x.decisions[at].current) {
                ++at;
            }
            if (at < x.decisions.size()) {
                auto q = threads::choices(x, at);
                q.push_back(1);
                auto y = one(c, prep[ctx.idx], ctx.dir, q, o, after);
                if (!report(ctx, c, y, after)) {
                    return;
                }
                places.insert(y.places.begin(), y.places.end());
            }
        }
        o          = options({places.begin(), places.end()});
        o.classify = true;
        auto y     = one(c, prep[ctx.idx], ctx.dir, {}, o, after);
        if (!report(ctx, c, y, after)) {
            return;
        }
        if (getenv("C06_SHOW") && (int)ctx.idx == atoi(getenv("C06_SHOW"))) {
            std::ofstream show("/tmp/places" + std::to_string(ctx.idx));
            show << c.str() << "\n";
            for (auto* p : places) {
                Dl_info i;
                show << (dladdr(p, &i) && i.dli_sname ? i.dli_sname : "?") << "\n";
            }
            show << "\n";
            for (auto& d : y.decisions) {
                show << d.thread << (d.current ? " " : "'") << d.what << (d.shared ? " shared" : "") << (d.foreign ? " foreign" : "") << " " << d.obj;
                Dl_info i;
                show << " " << (d.pc && dladdr(d.pc, &i) && i.dli_sname ? i.dli_sname : "") << "\n";
            }
        }
        std::ofstream out(mc::scratch() + "/points" + std::to_string(ctx.idx));
        out << places.size();
        for (auto* p : places) {
            out << " " << (uintptr_t)p;
        }
        out << "\n";
        std::map<std::string, int> n;
        for (size_t d = 0; d < y.decisions.size(); ++d) {
            for (int alt = 1; alt < y.decisions[d].options; ++alt) {
                n[y.decisions[d].foreign ? "foreign" : y.decisions[d].what + (y.decisions[d].shared ? " shared" : "")]++;
                if (worth(y.decisions[d])) {
                    out << "1";
                    for (int ch : threads::choices(y, d)) {
                        out << " " << ch;
                    }
                    out << " " << alt << "\n";
                }
            }
        }
        ctx.count("places_where_memory_is_shared", places.size());
        std::string text = c.str() + ":";
        for (auto& [k, v] : n) {
            text += " " + k + "=" + std::to_string(v);
        }
        ctx.sample(text);
        ctx.distinct(c.str());
    }, 300);

    struct P {
        int c;
        std::vector<int> prefix;
    };
    auto load = [&](const std::string& name) {
        std::vector<P> points;
        for (size_t i = 0; i < all.size(); ++i) {
            std::ifstream in(mc::scratch() + "/" + name + std::to_string(i));
            std::string line;
            if (name == "points" && std::getline(in, line)) {
                std::istringstream l(line);
                size_t n;
                l >> n;
                uintptr_t p;
                while (l >> p) {
                    prep[i].places.push_back((void*)p);
                }
            }
            while (std::getline(in, line)) {
                std::istringstream l(line);
                P p{(int)i, {}};
                int x;
                l >> x;
                while (l >> x) {
                    p.prefix.push_back(x);
                }
                points.push_back(std::move(p));
            }
        }
        return points;
    };
    auto points = load("points");
    mc::sweep("one-switch", points.size(), [&](mc::Ctx& ctx) {
        auto& p = points[ctx.idx];
        auto& c = all[p.c];
        auto o  = options(prep[p.c].places);
        o.classify = true;
        std::string after;
        auto x = one(c, prep[p.c], ctx.dir, p.prefix, o, after);
        if (!report(ctx, c, x, after)) {
            return;
        }
        ctx.distinct(c.str() + std::to_string(p.prefix.size()) + " " + std::to_string(p.prefix.back()));
        if (ctx.idx % 499 == 3) {
            ctx.sample(ctx.describe.substr(0, 1500));
        }
        // and back: soon after another thread has operated on what the first is about to use
        std::string lines;
        size_t at = p.prefix.size() - 1;
        if (at >= x.decisions.size()) {
            return;
        }
        auto& first = x.decisions[at];
        int soon    = 0;
        for (size_t d = at + 1; d < x.decisions.size(); ++d) {
            auto& y = x.decisions[d];
            if (y.thread == first.thread && y.current) {
                break;  // (it goes on by itself)
            }
            bool isLock = first.what == "lock" || first.what == "rdlock" || first.what == "wrlock" || first.what == "trylock";
            bool here   = isLock ? (y.what == "unlock" || y.what == "rwunlock") && y.obj == first.obj : soon > 0 && worth(y);
            if (here && y.current) {
                --soon;
                for (int alt = 1; alt < y.options; ++alt) {
                    lines += "2";
                    for (int ch : threads::choices(x, d)) {
                        lines += " " + std::to_string(ch);
                    }
                    lines += " " + std::to_string(alt) + "\n";
                    ctx.count("pairs");
                }
            }
            if (first.obj && y.obj == first.obj && (th || isLock || first.what == "memory write" || y.what == "memory write")) {
                soon = th ? 2 : 1;
            }
        }
        if (!lines.empty()) {
            int fd = ::open((mc::scratch() + "/pairs" + std::to_string(p.c)).c_str(), O_CREAT | O_WRONLY | O_APPEND, 0666);
            if (::write(fd, lines.data(), lines.size()) < 0) {
            }
            ::close(fd);
        }
    }, 300);

    points = load("pairs");
    mc::sweep("two-switches", points.size(), [&](mc::Ctx& ctx) {
        auto& p = points[ctx.idx];
        auto& c = all[p.c];
        std::string after;
        auto x = one(c, prep[p.c], ctx.dir, p.prefix, options(prep[p.c].places), after);
        if (!report(ctx, c, x, after)) {
            return;
        }
        ctx.distinct(c.str() + std::to_string(p.prefix.size()) + " " + std::to_string(p.prefix.back()) + threads::str(p.prefix));
    }, 300);

    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "cases of 2 or 3 threads x schedules with one switch before an operation that threads share, and with a switch back soon after the other has "
              "operated on the same object; distinct_nontrivial counts distinct schedules.";
    e.assumptions = {"switches within eckit and metkit (their own locks) are not explored",
                     "memory is sequentially consistent; switches inside it are at instructions of fdb5 that were seen to share memory without a lock, the first 3 times a thread comes there"};
    return mc::finish(e);
}
