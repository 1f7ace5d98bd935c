// C08: retrieved data is exactly the requested fields, however it is read.
//
// (1) retrieve and inspect: stored states x retrieve requests x ways of retrieving, compared with a reference model;
// (2) handles: every sequence of reads, seeks, skips, rewinds and reopenings up to a depth, on the handles FDB returns,
//     compared with a byte string.
#include <algorithm>
#include <sstream>

#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "fdb5/api/helpers/ListElement.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/database/Inspector.h"
#include "fdb5/io/FieldHandle.h"
#include "fdb5/io/HandleGatherer.h"

#include "mc.h"
#include "world.h"

using namespace fx;

namespace {

//------------------------------------------------------------------------------------------------------ what to expect

static std::set<std::string> optionalOf(const Universe& u, int f) {
    if (&u != &Universe::mixed() || u.fields[f][0][0].second == "od") {
        return {};
    }
    return {"step", "stream"};
}

static std::string valueOf(const KV& kv, const std::string& k) {
    for (auto& p : kv) {
        if (p.first == k) {
            return p.second;
        }
    }
    return "";
}
static const std::vector<std::string>* valuesIn(const Req& r, const std::string& k) {
    for (auto& p : r) {
        if (p.first == k) {
            return &p.second;
        }
    }
    return nullptr;
}
static bool in(const std::vector<std::string>& v, const std::string& x) {
    return std::find(v.begin(), v.end(), x) != v.end();
}

static std::multiset<std::string> expected(const Model& m, const Req& r) {
    std::multiset<std::string> out;
    auto& u = *m.u;
    for (auto& e : m.visible()) {
        int f    = e.first;
        auto opt = optionalOf(u, f);
        bool ok  = true;
        for (auto& p : u.all(f)) {
            auto v = valuesIn(r, p.first);
            if (!v || !in(*v, p.second)) {
                ok = false;
            }
        }
        // optional keywords that the field lacks
        for (auto& k : opt) {
            if (!valueOf(u.all(f), k).empty()) {
                continue;
            }
            auto v = valuesIn(r, k);
            if (!v) {
                continue;
            }
            if (k == "stream") {
                ok = false;
                continue;
            }
            // ignored where none of its values occur in the index
            for (auto& p : m.indexes) {
                if (p.index == u.index(f)) {
                    for (auto& q : p.entries) {
                        std::string x = valueOf(u.all(q.first), k);
                        if (!x.empty() && in(*v, x)) {
                            ok = false;
                        }
                    }
                }
            }
        }
        if (ok) {
            out.insert(fv(f, e.second));
        }
    }
    return out;
}

static std::string text(const std::multiset<std::string>& s) {
    return joinSet(s, "+");
}

static const char* wayNames[] = {"retrieve", "retrieve optimised", "seekable", "de-duplicated", "seekable, de-duplicated",
                                 "list and read", "list and read, sorted", "list all and read de-duplicated"};

static void runStates(mc::Ctx& ctx, const State& st, const std::vector<Req>& reqs, int way) {
    Setup s  = st.setup;
    s.dir    = ctx.dir;
    s.schema = st.u->schema;
    if (way == 2 || way == 4) {
        s.resources["fdbSeekableDataHandle"] = "true";
    }
    if (way == 3 || way == 4 || way == 7) {
        s.resources["fdbDeduplicate"] = "true";
    }
    s.create();
    ctx.describe = s.describe() + "\n" + st.program + "\n" + wayNames[way];
    Model m;
    m.u       = st.u;
    m.subtocs = s.subtocs;
    effect(m, st.program);
    auto c = mc::runChild([&]() {
        s.apply();
        build(s, *st.u, st.program);
        return std::string();
    });
    if (!c.ok) {
        ctx.fail("archiving fails", c.status() + c.out);
        return;
    }
    c = mc::runChild([&]() {
        s.apply();
        std::string out;
        auto fail = [&](const std::string& sig, const std::string& detail) {
            if (out.size() < 4000) {
                out += sig + "\t" + detail + "\n";
            }
        };
        fdb5::FDB fdb(s.config());
        size_t k = 0;
        for (auto& r : reqs) {
            ++k;
            Spelt spelt(st.u->spell, k);
            std::multiset<std::string> want = expected(m, r), got;
            std::string raw;
            try {
                std::unique_ptr<eckit::DataHandle> h;
                if (way < 5) {
                    Req q = r;
                    if (way == 1) {
                        q.push_back({"optimise", {"on"}});
                    }
                    h.reset(fdb.retrieve(mars(q)));
                }
                else {
                    // (a listing has no order of its own, and needs no keyword)
                    want.clear();
                    for (auto& e : m.visible()) {
                        if (matches(st.u->all(e.first), r)) {
                            want.insert(fv(e.first, e.second));
                        }
                    }
                    auto it = fdb.list(tool(r), way == 7 ? fdb5::ListMode::Full : fdb5::ListMode::Deduplicate);
                    h.reset(fdb.read(it, way == 6));
                }
                long long total = 0;
                for (auto& x : want) {
                    int f, v;
                    sscanf(x.c_str(), "%d:%d", &f, &v);
                    total += payload(f, v).size();
                }
                auto promised = h->estimate();
                raw           = slurp(*h, k % 3 == 0 ? 1 : k % 3 == 1 ? 7 : 4096);
                for (auto& x : mc::split(identify(raw), '+')) {
                    if (!x.empty()) {
                        got.insert(x);
                    }
                }
                if ((long long)promised != (long long)raw.size()) {
                    fail("length differs from the data", str(r) + ": " + std::to_string((long long)promised) + " announced, " +
                                                           std::to_string(raw.size()) + " read");
                }
                if (got != want) {
                    fail(std::string("data differ: ") + wayNames[way], str(r) + ": got " + text(got) + " instead of " + text(want));
                }
            }
            catch (std::exception& e) {
                fail("retrieval fails", str(r) + ": " + e.what());
            }
            if (way == 0) {
                std::multiset<std::string> ins;
                try {
                    auto it = fdb.inspect(mars(r));
                    fdb5::ListElement e;
                    while (it.next(e)) {
                        KV kv;
                        for (auto& p : e.combinedKey()) {
                            kv.push_back(p);
                        }
                        std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle());
                        std::string d = identify(slurp(*h));
                        int f         = st.u->find(canon(str(kv)));
                        if (d.rfind(std::to_string(f) + ":", 0) != 0) {
                            d = "!" + str(kv) + " leads to " + d;
                        }
                        ins.insert(d);
                    }
                    if (ins != want) {
                        fail("inspect differs", str(r) + ": got " + text(ins) + " instead of " + text(want));
                    }
                }
                catch (std::exception& e) {
                    fail("inspect fails", str(r) + ": " + e.what());
                }
            }
        }
        return out;
    }, 600);
    if (!c.ok) {
        ctx.fail("retrieving ends the process", c.status() + c.out + c.log);
        return;
    }
    ctx.count("retrievals", reqs.size());
    for (auto& l : mc::split(c.out, '\n')) {
        auto f = mc::split(l, '\t');
        if (f.size() == 2) {
            ctx.fail(f[0], f[1]);
        }
    }
    ctx.distinct(answers(m, true) + wayNames[way]);
    if (ctx.idx % 199 == 3) {
        ctx.sample(ctx.describe + "; " + std::to_string(reqs.size()) + " requests");
    }
}

//------------------------------------------------------------------------------------------------------------ handles

/// A handle that can only be read from start to end (as one received from a remote server)
class Pipe : public eckit::DataHandle {
    std::string data_;
    size_t pos_ = 0;
    int chunk_;
    bool open_ = false;

public:

    Pipe(const std::string& d, int chunk) : data_(d), chunk_(chunk) {}
    eckit::Length openForRead() override {
        pos_  = 0;
        open_ = true;
        return data_.size();
    }
    void openForWrite(const eckit::Length&) override { NOTIMP; }
    void openForAppend(const eckit::Length&) override { NOTIMP; }
    long read(void* b, long n) override {
        ASSERT(open_);
        n = std::min<long>({n, chunk_, (long)(data_.size() - pos_)});
        memcpy(b, data_.data() + pos_, n);
        pos_ += n;
        return n;
    }
    long write(const void*, long) override { NOTIMP; }
    void close() override { open_ = false; }
    eckit::Length size() override { return data_.size(); }
    eckit::Length estimate() override { return data_.size(); }
    bool canSeek() const override { return false; }
    void print(std::ostream& s) const override { s << "Pipe"; }
    // (the inherited one would copy eckit's reanimator into this executable)
    const eckit::ReanimatorBase& reanimator() const override { NOTIMP; }
};

class PipeLocation : public fdb5::FieldLocation {
    std::string data_;
    int chunk_;

public:

    PipeLocation(const std::string& d, int chunk) :
        FieldLocation(eckit::URI("pipe", eckit::PathName("/x")), 0, d.size(), fdb5::Key()), data_(d), chunk_(chunk) {}
    eckit::DataHandle* dataHandle() const override { return new Pipe(data_, chunk_); }
    std::shared_ptr<const FieldLocation> make_shared() const override { return std::make_shared<PipeLocation>(data_, chunk_); }
    void visit(fdb5::FieldLocationVisitor& v) const override { v(*this); }
    void encode(eckit::Stream&) const override { NOTIMP; }
    const eckit::ReanimatorBase& reanimator() const override { NOTIMP; }
};

/// "r5" read 5, "s7" seek to 7, "k3" skip 3, "w" rewind, "o" close and reopen
struct Op {
    char c;
    long long n;
};
static std::string text(const std::vector<Op>& ops) {
    std::string r;
    for (auto& o : ops) {
        r += o.c + (o.c == 'w' || o.c == 'o' ? std::string() : std::to_string(o.n)) + " ";
    }
    return r;
}

/// Carry out; compare with the byte string. Returns what is wrong ("": nothing); `refused` if an operation was refused
static std::string drive(eckit::DataHandle& h, const std::string& want, const std::vector<Op>& ops, int mayRefuse, bool& refused) {
    refused = false;
    std::ostringstream bad;
    long long pos = 0, total = want.size();
    auto l = h.openForRead();
    if ((long long)l != total) {
        bad << "openForRead announces " << (long long)l << " of " << total;
        return bad.str();
    }
    std::vector<char> buf(total + 16);
    for (auto& o : ops) {
        try {
            switch (o.c) {
                case 'r': {
                    long n = h.read(buf.data(), o.n);
                    long e = std::min<long long>(o.n, total - pos);
                    if (n < 0 || n > e || (e > 0 && n <= 0)) {
                        bad << "read(" << o.n << ") at " << pos << " of " << total << " returns " << n;
                        return bad.str();
                    }
                    if (memcmp(buf.data(), want.data() + pos, n)) {
                        bad << "read(" << o.n << ") at " << pos << " yields other data";
                        return bad.str();
                    }
                    pos += n;
                    // a short read is allowed, but must go on
                    while (n < e) {
                        long k = h.read(buf.data() + n, e - n);
                        if (k <= 0 || k > e - n || memcmp(buf.data() + n, want.data() + pos, k)) {
                            bad << "continuing a read at " << pos << " of " << total << " returns " << k << " or other data";
                            return bad.str();
                        }
                        n += k;
                        pos += k;
                    }
                    break;
                }
                case 's':
                    h.seek(o.n);
                    pos = o.n;
                    break;
                case 'k':
                    h.skip(o.n);
                    pos += o.n;
                    break;
                case 'w':
                    h.rewind();
                    pos = 0;
                    break;
                case 'o':
                    h.close();
                    if ((long long)h.openForRead() != total) {
                        bad << "reopened, it announces another length";
                        return bad.str();
                    }
                    pos = 0;
                    break;
            }
        }
        catch (std::exception& e) {
            if (o.c != 'r' && (mayRefuse == 2 || (mayRefuse == 1 && (o.c == 'w' || (o.c == 's' && o.n < pos))))) {
                refused = true;
                return "";
            }
            bad << o.c << o.n << " at " << pos << " of " << total << " throws " << e.what();
            return bad.str();
        }
        try {
            auto p = h.position();
            if ((long long)p != pos) {
                bad << "position " << (long long)p << " after " << o.c << o.n << " instead of " << pos;
                return bad.str();
            }
        }
        catch (std::exception& e) {
            if (!mayRefuse) {
                bad << "position() throws " << e.what();
                return bad.str();
            }
        }
    }
    // the rest
    std::string rest;
    for (;;) {
        long n = h.read(buf.data(), 5);
        if (n <= 0) {
            break;
        }
        rest.append(buf.data(), n);
    }
    if (rest != want.substr(pos)) {
        bad << "the rest after position " << pos << " is " << rest.size() << " bytes, or other data, instead of " << total - pos;
        return bad.str();
    }
    h.close();
    return "";
}

enum Kind { FIELD, FIELD_DEDUP, PIPES, PIPES_ONE, MIXED, MULTI, MULTI_SORTED, URIS, NKINDS };
static const char* kindNames[] = {"seekable", "seekable, de-duplicated", "not seekable", "not seekable, one field", "part seekable",
                                  "gathered", "gathered, sorted", "from URIs"};

static void runHandles(mc::Ctx& ctx, int kind, int fields, const std::vector<std::vector<Op>>& seqs, size_t from, size_t to) {
    Setup s;
    s.dir = ctx.dir;
    auto& u  = Universe::plain();
    s.schema = u.schema;
    if (kind == FIELD_DEDUP) {
        s.resources["fdbDeduplicate"] = "true";
    }
    s.create();
    // which fields, in which order and how contiguous: 0+5 adjacent; 1 elsewhere; 3 in another database
    static const std::vector<std::vector<int>> sets = {{0}, {0, 5}, {0, 1, 5}, {0, 3}, {}, {0, 3, 5}};
    auto& set    = sets[fields];
    ctx.describe = std::string(kindNames[kind]) + ", " + std::to_string(set.size()) + " fields";
    auto c       = mc::runChild([&]() {
        s.apply();
        build(s, u, "A0 A5 A2 A3 F A1 F C");
        return std::string();
    });
    c = mc::runChild([&]() {
        s.apply();
        std::string out;
        size_t refusals = 0;
        fdb5::FDB fdb(s.config());
        // the elements, by field
        std::map<int, fdb5::ListElement> els;
        {
            auto it = fdb.list(tool({}));
            fdb5::ListElement e;
            while (it.next(e)) {
                KV kv;
                for (auto& p : e.combinedKey()) {
                    kv.push_back(p);
                }
                els[u.find(canon(str(kv)))] = e;
            }
        }
        for (size_t i = from; i < to; ++i) {
            std::unique_ptr<eckit::DataHandle> h;
            std::string want;
            auto* src = new fdb5::InspectIterator();
            std::vector<eckit::URI> uris;
            for (size_t k = 0; k < set.size(); ++k) {
                int f         = set[k];
                std::string d;
                {
                    std::unique_ptr<eckit::DataHandle> one(els[f].location().dataHandle());
                    d = slurp(*one);
                }
                want += d;
                fdb5::ListElement e = els[f];
                if (kind == PIPES || kind == PIPES_ONE || (kind == MIXED && k % 2)) {
                    auto& key = e.keys();
                    e = fdb5::ListElement(key[0], key[1], key[2], std::make_shared<PipeLocation>(d, 1 + i % 9), e.timestamp());
                }
                uris.push_back(e.location().fullUri());
                src->emplace(std::move(e));
            }
            fdb5::ListIterator it{fdb5::APIIterator<fdb5::ListElement>(src)};
            std::string bad;
            bool refused = false;
            try {
                if (kind == MULTI || kind == MULTI_SORTED) {
                    h.reset(fdb.read(it, kind == MULTI_SORTED));
                }
                else if (kind == URIS) {
                    h.reset(fdb.read(uris, i % 2));
                }
                else {
                    h.reset(new fdb5::FieldHandle(it));
                }
                // (de-duplication orders the fields by their keys; sorting merges ranges)
                if (kind == FIELD_DEDUP || kind == MULTI_SORTED || (kind == URIS && i % 2)) {
                    std::string got = slurp(*h);
                    auto split      = [](const std::string& t) {
                        auto v = mc::split(identify(t), '+');
                        std::sort(v.begin(), v.end());
                        return join(v, "+");
                    };
                    if (split(got) != split(want)) {
                        bad = "reading it gives " + identify(got) + " instead of " + identify(want);
                    }
                    want = got;
                    if (kind == FIELD_DEDUP) {  // a fresh one
                        auto* src2 = new fdb5::InspectIterator();
                        for (int f : set) {
                            src2->emplace(fdb5::ListElement(els[f]));
                        }
                        fdb5::ListIterator it2{fdb5::APIIterator<fdb5::ListElement>(src2)};
                        h.reset(new fdb5::FieldHandle(it2));
                    }
                }
                // gathered handles belong to eckit, and may refuse to move about; reading and reopening must work
                // those over a pipe can only move forward
                int mayRefuse = kind == MULTI || kind == MULTI_SORTED || kind == URIS ? 2 : kind == PIPES || kind == PIPES_ONE || kind == MIXED ? 1 : 0;
                if (bad.empty()) {
                    bad = drive(*h, want, seqs[i], mayRefuse, refused);
                }
            }
            catch (std::exception& e) {
                bad = std::string("throws ") + e.what();
            }
            refusals += refused;
            if (!bad.empty() && out.size() < 3000) {
                out += "handle: " + std::string(kindNames[kind]) + "\t" + text(seqs[i]) + ": " + bad + "\n";
            }
        }
        return std::to_string(refusals) + "\n" + out;
    }, 600);
    if (!c.ok) {
        ctx.fail(std::string("reading ends the process: ") + kindNames[kind], c.status() + c.out + c.log + " within " + text(seqs[from]) + " ... " + text(seqs[to - 1]));
        return;
    }
    auto lines = mc::split(c.out, '\n');
    ctx.count("sequences of operations", to - from);
    ctx.count("sequences refused in part", atoll(lines[0].c_str()));
    for (size_t i = 1; i < lines.size(); ++i) {
        auto f = mc::split(lines[i], '\t');
        if (f.size() == 2) {
            ctx.fail(f[0], f[1]);
        }
    }
    ctx.distinct(std::to_string(kind) + "/" + std::to_string(fields) + "/" + std::to_string(from));
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C08", 120, 3600);
    bool th = mc::opts.thorough;
    // retrieve requests: each keyword absent (optional ones), or one or several values
    std::map<const Universe*, std::vector<Req>> reqs;
    auto lists = [](const std::vector<std::vector<std::string>>& v) { return v; };
    reqs[&Universe::plain()] = requests({{"class", lists({{"od"}, {"od", "odx"}, {"zz", "odx"}})},
                                         {"expver", lists({{"1"}, {"12", "1"}})},
                                         {"type", lists({{"an"}, {"ana", "an"}, {"zz"}})},
                                         {"step", lists({{"0"}, {"0", "6"}, {"6", "12"}})},
                                         {"param", lists({{"t"}, {"u", "t"}, {"zz"}})}});
    reqs[&Universe::mixed()] = requests({{"class", lists({{"odx"}, {"od", "odx"}})},
                                         {"expver", lists({{"1"}, {"1", "2"}})},
                                         {"type", lists({{"an"}, {"an", "fc"}})},
                                         {"stream", lists({{"s"}, {"zz"}, {"s", "zz"}})},
                                         {"param", lists({{"t"}, {"t", "u"}})},
                                         {"number", lists({{"0"}})},
                                         {"step", lists({{"0"}, {"6"}, {"0", "6"}, {"zz"}})}});
    reqs[&Universe::typed()] = requests({{"class", lists({{"od"}, {"od", "rd"}})},
                                         {"time", lists({{"0000"}, {"1200", "0000"}, {"0600"}})},
                                         {"type", lists({{"an"}, {"fc", "an"}})},
                                         {"number", lists({{"1"}, {"2", "1"}})},
                                         {"step", lists({{"0"}, {"0", "6"}, {"6", "12"}})},
                                         {"latitude", lists({{"500"}, {"0.5", "500"}})}});
    for (auto& kv : reqs) {
        std::vector<Req> keep;
        size_t n = kv.first == &Universe::typed() ? 6 : 5;
        for (size_t i = 0; i < kv.second.size(); ++i) {
            if (kv.second[i].size() >= n) {
                keep.push_back(kv.second[i]);
            }
            else if (i % 11 == 0 && !kv.second[i].empty()) {  // incomplete: nothing
                keep.push_back(kv.second[i]);
            }
        }
        kv.second.swap(keep);
    }
    auto states = fx::states(th);
    struct Job {
        State st;
        int way;
    };
    std::vector<Job> jobs;
    for (size_t i = 0; i < states.size(); ++i) {
        for (int way = 0; way < 8; ++way) {
            // the hypercube of de-duplication needs fields that have the same keywords
            bool dedup = way == 3 || way == 4 || way == 7;
            if (dedup && states[i].u == &Universe::mixed()) {
                continue;
            }
            if (th || way == 0 || (i + way) % 6 == 0) {
                jobs.push_back({states[i], way});
            }
        }
    }
    mc::sweep("requests", jobs.size(), [&](mc::Ctx& ctx) { runStates(ctx, jobs[ctx.idx].st, reqs[jobs[ctx.idx].st.u], jobs[ctx.idx].way); }, 700);

    // handles
    struct Batch {
        int kind, fields;
        size_t from, to;
    };
    std::vector<Batch> batches;
    std::map<int, std::vector<std::vector<Op>>> seqs;
    size_t depth = th ? 4 : 3;
    static const std::vector<std::vector<int>> sets = {{0}, {0, 5}, {0, 1, 5}, {0, 3}, {}, {0, 3, 5}};
    // (versions as archived by the program: A0 A5 A2 A3 F A1)
    std::map<int, int> version{{0, 1}, {5, 2}, {2, 3}, {3, 4}, {1, 5}};
    for (int f = 0; f < (int)sets.size(); ++f) {
        long long first = 0, second = 0, total = 0;
        for (size_t k = 0; k < sets[f].size(); ++k) {
            long long l = payload(sets[f][k], version[sets[f][k]]).size();
            (k == 0 ? first : k == 1 ? second : total) += k < 2 ? l : 0;
            total += l;
        }
        std::set<long long> reads{1, first - 1, first, first + 1, first + second, total, total + 1};
        std::set<long long> seeks{0, 1, first - 1, first, first + second / 2, first + second, total};
        std::vector<Op> ops{{'w', 0}, {'o', 0}};
        for (auto r : reads) {
            if (r > 0) {
                ops.push_back({'r', r});
            }
        }
        for (auto p : seeks) {
            if (p >= 0 && p <= total) {
                ops.push_back({'s', p});
            }
        }
        ops.push_back({'k', 1});
        ops.push_back({'k', first});
        auto& all = seqs[f];
        std::function<void(std::vector<Op>&, long long)> gen = [&](std::vector<Op>& h, long long pos) {
            if (h.size() == depth || (h.size() && total == 0 && h.size() == 2)) {
                all.push_back(h);
                return;
            }
            for (auto& o : ops) {
                long long p = o.c == 'r' ? std::min(total, pos + o.n) : o.c == 's' ? o.n : o.c == 'k' ? pos + o.n : 0;
                if (p > total) {
                    continue;  // beyond the end: refused, or not, as the system likes
                }
                h.push_back(o);
                gen(h, p);
                h.pop_back();
            }
        };
        std::vector<Op> h;
        gen(h, 0);
        for (int kind = 0; kind < NKINDS; ++kind) {
            if ((kind == FIELD_DEDUP && f == 4) || (kind == PIPES_ONE && f != 0)) {
                continue;
            }
            size_t step = 400;
            for (size_t i = 0; i < all.size(); i += step) {
                batches.push_back({kind, f, i, std::min(all.size(), i + step)});
            }
        }
    }
    mc::sweep("handles", batches.size(), [&](mc::Ctx& ctx) {
        auto& b = batches[ctx.idx];
        runHandles(ctx, b.kind, b.fields, seqs[b.fields], b.from, b.to);
    }, 700);
    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "requests: stored states x retrieve requests x ways of retrieving (plain, optimised, seekable, de-duplicated, list "
              "and read). handles: all sequences of operations (reads of lengths around the fields' ends, seeks, skips, "
              "rewinds, reopenings) up to a depth on each kind of handle and number of fields.";
    e.extra["operation depth"] = std::to_string(depth);
    e.assumptions = {"gathered handles are eckit's and may refuse to seek", "seeking beyond the end is not explored"};
    return mc::finish(e);
}
