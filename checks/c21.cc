// C21: result iterators deliver every element, the first error, and never block.
//
// generic: the asynchronous iterator itself over producers of 0-4 elements that may fail at each step, queues of 1-3
// elements, consumers that read any number of elements; alone, joined with others, or nested (a producer that consumes
// another iterator, as a wipe does). Every schedule of the threads up to a number of preemptions.
// real: list, status, axes, dump and the others over a store, with fewer and with more elements than the queue holds, read
// to the end or dropped after some; every schedule with few deviations.
#include <algorithm>
#include <atomic>
#include <sstream>

#include "mc.h"
#include "threads.h"
#include "world.h"

#include "eckit/container/Queue.h"
#include "fdb5/api/helpers/APIIterator.h"

using namespace fx;

namespace {

std::atomic<int> live{0};
struct Elem {
    int n = -1;
    Elem() { ++live; }
    explicit Elem(int i) : n(i) { ++live; }
    Elem(const Elem& o) : n(o.n) { ++live; }
    Elem& operator=(const Elem&) = default;
    ~Elem() { --live; }
};

std::atomic<int> producers{0};
struct Token {
    Token() { ++producers; }
    Token(const Token&) { ++producers; }
    ~Token() { --producers; }
};

class Failed : public std::runtime_error {
public:
    using std::runtime_error::runtime_error;
};

struct Producer {
    int n       = 0;
    int fail    = -1;  ///< before this element (n: after the last)
    size_t queue = 1;
};
std::string text(const Producer& p) {
    return std::to_string(p.n) + " elements" + (p.fail >= 0 ? ", failing before " + std::to_string(p.fail) : "") + ", queue of " +
           std::to_string(p.queue);
}

using It   = fdb5::APIIterator<Elem>;
using Async = fdb5::APIAsyncIterator<Elem>;

It make(const Producer& p, int base, bool foreign = false) {
    Token token;
    return It(new Async(
        nullptr,
        [p, base, token, foreign](eckit::Queue<Elem>& q) {
            for (int i = 0; i <= p.n; ++i) {
                if (p.fail == i) {
                    if (foreign) {
                        throw 42;
                    }
                    throw Failed("producer failed " + std::to_string(base + i));
                }
                if (i < p.n) {
                    q.emplace(base + i);
                }
            }
        },
        p.queue));
}
/// A producer that consumes another
It nest(const Producer& outer, const Producer& inner, int base) {
    Token token;
    return It(new Async(
        nullptr,
        [outer, inner, base, token](eckit::Queue<Elem>& q) {
            It it = make(inner, base);
            Elem e;
            int i = 0;
            while (it.next(e)) {
                if (outer.fail == i++) {
                    throw Failed("outer failed");
                }
                q.emplace(e.n);
            }
        },
        outer.queue));
}

enum Shape { Single, Joined, Nested, Moved, Foreign, Two };
const char* shapes[] = {"single", "joined", "nested", "moved", "single, failing with something else", "two at once"};

struct Case {
    Shape shape = Single;
    Producer a, b;
    int reads = 0;  ///< before the iterator is dropped; -1: to the end, and twice more
    std::string str() const {
        return std::string(shapes[shape]) + ": " + text(a) + (shape == Joined || shape == Nested || shape == Two ? "; " + text(b) : "") +
               "; reads " + (reads < 0 ? "to the end" : std::to_string(reads));
    }
};

/// What the consumer got: "0 1 2 end" / "0 error:..." / "0 1 dropped"
std::string consume(const Case& c) {
    std::string out;
    {
        auto drain = [&](It& it, int reads) {
            Elem e;
            for (int i = 0; reads < 0 || i < reads; ++i) {
                try {
                    if (!it.next(e)) {
                        out += "end ";
                        for (int k = 0; k < 2 && reads < 0; ++k) {
                            if (it.next(e)) {
                                out += "more-after-the-end ";
                            }
                        }
                        return;
                    }
                    out += std::to_string(e.n) + " ";
                }
                catch (std::exception& x) {
                    out += std::string("error:") + x.what() + " ";
                    return;
                }
                catch (int) {
                    out += "error:42 ";
                    return;
                }
            }
            out += "dropped ";
        };
        if (c.shape == Joined) {
            std::queue<It> q;
            q.push(make(c.a, 0));
            q.push(make(c.b, 100));
            It it(new fdb5::APIAggregateIterator<Elem>(std::move(q)));
            drain(it, c.reads);
        }
        else if (c.shape == Two) {
            It x = make(c.a, 0), y = make(c.b, 100);
            drain(y, c.reads);
            out += "/ ";
            drain(x, -1);
        }
        else if (c.shape == Nested) {
            It it = nest(c.a, c.b, 0);
            drain(it, c.reads);
        }
        else if (c.shape == Moved) {
            It it = make(c.a, 0);
            It other(std::move(it));
            It third = make(c.b, 100);
            third    = std::move(other);
            drain(third, c.reads);
        }
        else {
            It it = make(c.a, 0, c.shape == Foreign);
            drain(it, c.reads);
        }
    }
    out += "| live " + std::to_string(live) + " producers " + std::to_string(producers);
    return out;
}

/// Is this what a consumer of these elements may get? `some`: elements before an error need not all be there
bool allowed(const std::string& got, const std::vector<int>& elements, const std::string& error, int reads) {
    std::vector<std::string> w;
    for (auto& x : mc::split(got, ' ')) {
        if (!x.empty()) {
            w.push_back(x);
        }
    }
    size_t i = 0;
    while (i < w.size() && i < elements.size() && w[i] == std::to_string(elements[i])) {
        ++i;
    }
    std::string rest;
    for (size_t k = i; k < w.size(); ++k) {
        rest += (k > i ? " " : "") + w[k];
    }
    if (rest == "dropped") {
        return reads >= 0 && (int)i == reads;
    }
    if (rest == "end") {
        return error.empty() && i == elements.size() && (reads < 0 || reads > (int)i);
    }
    return !error.empty() && rest == "error:" + error && (reads < 0 || reads > (int)i);
}

void generic(mc::Ctx& ctx, const Case& c, int bound, long maxRuns) {
    ctx.describe = c.str();
    auto elems = [](const Producer& p, int base) {
        std::vector<int> v;
        for (int i = 0; i < p.n && (p.fail < 0 || i < p.fail); ++i) {
            v.push_back(base + i);
        }
        return v;
    };
    auto err = [](const Producer& p, int base) { return p.fail >= 0 ? "producer failed " + std::to_string(base + p.fail) : std::string(); };
    auto x = threads::explore([&]() { return consume(c); }, {}, bound, 2, {}, [&](const threads::Outcome& o) {
        ctx.describe = c.str() + "\nschedule: " + threads::str(threads::choices(o, o.decisions.size())) + "\n" + o.trace;
        if (o.deadlock) {
            ctx.fail("deadlock", o.blocked);
            return false;
        }
        if (!o.child.ok) {
            ctx.fail("crash or hang", o.child.status() + " " + o.child.log);
            return false;
        }
        auto bar         = o.child.out.find("| ");
        std::string got  = o.child.out.substr(0, bar), left = o.child.out.substr(bar + 2);
        if (left != "live 0 producers 0") {
            ctx.fail("something is left over", left);
            return false;
        }
        bool ok = false;
        switch (c.shape) {
            case Joined: {
                auto e1 = elems(c.a, 0), e2 = elems(c.b, 100);
                if (c.a.fail >= 0) {
                    ok = allowed(got, e1, err(c.a, 0), c.reads);
                }
                else {
                    e1.insert(e1.end(), e2.begin(), e2.end());
                    // (elements of the first may not be missing because the second fails)
                    ok = allowed(got, e1, err(c.b, 100), c.reads);
                    if (ok && got.find("error") != std::string::npos) {
                        ok = (long)std::count(got.begin(), got.end(), ' ') >= c.a.n;
                        std::istringstream in(got);
                        for (int i = 0; i < c.a.n && ok; ++i) {
                            std::string w;
                            in >> w;
                            ok = w == std::to_string(i);
                        }
                    }
                }
                break;
            }
            case Two: {
                auto slash = got.find("/ ");
                ok = allowed(got.substr(0, slash), elems(c.b, 100), err(c.b, 100), c.reads) &&
                     allowed(got.substr(slash + 2), elems(c.a, 0), err(c.a, 0), -1);
                break;
            }
            case Nested: {
                auto e          = elems(c.b, 0);
                std::string e2  = err(c.b, 0);
                bool outerFails = c.a.fail >= 0 && c.a.fail < (int)e.size();
                if (outerFails) {
                    auto cut = e;
                    cut.resize(c.a.fail);
                    ok = allowed(got, cut, "outer failed", c.reads);
                    // the inner one's error may come first
                    ok = ok || (!e2.empty() && allowed(got, cut, e2, c.reads));
                }
                else {
                    ok = allowed(got, e, e2, c.reads);
                }
                break;
            }
            case Foreign: ok = allowed(got, elems(c.a, 0), c.a.fail >= 0 ? "42" : "", c.reads); break;
            default: ok = allowed(got, elems(c.a, 0), err(c.a, 0), c.reads);
        }
        if (!ok) {
            ctx.fail(got.find("end") != std::string::npos ? "an end that is none, or an element lost" : "wrong elements", got);
            return false;
        }
        ctx.distinct(c.str() + got);
        return true;
    }, maxRuns);
    ctx.count("schedules", x.runs);
    ctx.count("decisions", x.decisions);
    if (x.stopped && !ctx.failed()) {
        ctx.count("cases_cut_short");
    }
    if (ctx.idx % 397 == 3) {
        ctx.sample(ctx.describe);
    }
}

std::vector<Case> cases() {
    std::vector<Case> out;
    bool th  = mc::opts.thorough;
    int maxN = th ? 4 : 3;
    for (int n = 0; n <= maxN; ++n) {
        for (int fail = -1; fail <= n; ++fail) {
            for (size_t q = 1; q <= (size_t)(th ? 3 : 2); ++q) {
                for (int reads = -1; reads <= n + 1; ++reads) {
                    if (!th && reads == n && n > 1 && q > 1) {
                        continue;
                    }
                    Case c;
                    c.a     = {n, fail, q};
                    c.reads = reads;
                    out.push_back(c);
                    if (n == 2 && q == 1) {
                        c.shape = Moved;
                        c.b     = {1, -1, 1};
                        out.push_back(c);
                        c.shape = Foreign;
                        out.push_back(c);
                    }
                }
            }
        }
    }
    for (int n1 = 0; n1 <= 2; ++n1) {
        for (int n2 = 0; n2 <= (th ? 2 : 1); ++n2) {
            for (int f1 = -1; f1 <= n1; ++f1) {
                for (int f2 = -1; f2 <= n2; ++f2) {
                    for (int reads = -1; reads <= n1 + n2; ++reads) {
                        for (Shape s : {Joined, Nested, Two}) {
                            if (s == Nested && f1 > n2) {
                                continue;
                            }
                            if (!th && (s == Two ? (n1 == 2 || f2 > 0) : (reads + f1 + f2 + n1) % 2 == 0)) {
                                continue;
                            }
                            Case c;
                            c.shape = s;
                            c.a     = {n1, f1, 1};
                            c.b     = {n2, f2, 1};
                            c.reads = reads;
                            out.push_back(c);
                        }
                    }
                }
            }
        }
    }
    return out;
}

//--------------------------------------------------------------------------------------------------------- real operations

const char* schemaMany = "[class,stream,expver,date[type[step,param]]]\n";

struct Store {
    Setup s;
    int fields = 0;
};

struct Real {
    const char* what;
    int store;  ///< 0: few fields, 1: more than the queue holds
    int reads;  ///< -1: to the end
    bool release;  ///< the FDB is destroyed before the iterator is read
    std::string str() const {
        return std::string(what) + (store ? " of many" : " of few") + (reads < 0 ? ", to the end" : ", dropped after " + std::to_string(reads)) +
               (release ? ", FDB destroyed before" : "");
    }
};

std::string doReal(const Setup& s, const Real& r) {
    std::ostringstream out;
    int n      = 0;
    auto drain = [&](auto&& it, auto el, auto show) {
        while (r.reads < 0 || n < r.reads) {
            if (!it.next(el)) {
                out << "end";
                if (it.next(el)) {
                    out << " more-after-the-end";
                }
                return;
            }
            ++n;
            out << show(el) << ";";
        }
        out << "dropped";
    };
    auto fdb = std::make_unique<fdb5::FDB>(s.config());
    auto all = tool({});
    std::string w = r.what;
    auto print    = [](const auto& e) {
        std::ostringstream o;
        o << e;
        return o.str();
    };
    auto go = [&](auto it, auto el, auto show) {
        if (r.release) {
            fdb.reset();
        }
        drain(std::move(it), std::move(el), show);
    };
    auto key = [](const fdb5::ListElement& e) {
        std::ostringstream o;
        o << e.combinedKey();
        return o.str();
    };
    if (w == "list") {
        go(fdb->list(all, false), fdb5::ListElement(), key);
    }
    else if (w == "deduplicated list") {
        go(fdb->list(all, true), fdb5::ListElement(), key);
    }
    else if (w == "status") {
        go(fdb->status(all), fdb5::StatusElement(), [](const fdb5::StatusElement& e) { return std::to_string(e.key.size()); });
    }
    else if (w == "axes") {
        go(fdb->axesIterator(all, 3), fdb5::AxesElement(), [](const fdb5::AxesElement& e) {
            std::ostringstream o;
            o << e.key();
            return o.str();
        });
    }
    else if (w == "dump") {
        go(fdb->dump(all, true), fdb5::DumpElement(), [](const std::string&) { return "line"; });
    }
    else if (w == "stats") {
        go(fdb->stats(all), fdb5::StatsElement(), [](const fdb5::StatsElement& e) { return std::to_string(e.indexStatistics.fieldsCount()); });
    }
    else if (w == "purge") {
        go(fdb->purge(all, false, true), fdb5::PurgeElement(), [](const std::string&) { return "line"; });
    }
    else if (w == "wipe") {
        go(fdb->wipe(all, false, true), fdb5::WipeElement(), [](const fdb5::WipeElement& e) { return std::to_string((int)e.type()); });
    }
    else if (w == "control") {
        go(fdb->control(all, fdb5::ControlAction::Enable, fdb5::ControlIdentifiers(fdb5::ControlIdentifier::List)), fdb5::ControlElement(),
           [](const fdb5::ControlElement& e) { return std::to_string(e.key.size()); });
    }
    out << " =" << n;
    return out.str();
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C21", 120, 3600);
    bool th  = mc::opts.thorough;
    auto all = cases();
    mc::sweep("generic", all.size(), [&](mc::Ctx& ctx) { generic(ctx, all[ctx.idx], th ? 3 : 2, th ? 400000 : 250); }, 3000);

    // stores
    std::vector<Store> stores(2);
    for (int i = 0; i < 2; ++i) {
        auto& st  = stores[i];
        st.s.dir  = mc::scratch() + "/store" + std::to_string(i);
        st.s.schema = schemaMany;
        st.fields = i ? 208 : 4;
        st.s.create();
        auto c = mc::runChild([&]() {
            st.s.apply();
            fdb5::FDB fdb(st.s.config());
            for (int f = 0; f < st.fields; ++f) {
                std::string d = payload(f % 7, 1);
                fdb.archive(key({{"class", i ? "od" : f % 2 ? "rd" : "od"}, {"stream", "oper"}, {"expver", "1"}, {"date", "20200101"},
                                 {"type", f % 2 ? "an" : "fc"}, {"step", std::to_string(f / 2)}, {"param", "1"}}),
                            d.data(), d.size());
            }
            fdb.flush();
            return std::string();
        });
        if (!c.ok) {
            mc::violation("cannot be prepared", c.status() + c.log);
        }
    }
    std::vector<Real> reals;
    for (const char* w : {"list", "deduplicated list", "status", "axes", "dump", "stats", "purge", "wipe", "control"}) {
        for (int reads : {-1, 0, 1, 2}) {
            for (bool rel : {false, true}) {
                if (rel && reads == 2) {
                    continue;
                }
                reals.push_back({w, 0, reads, rel});
            }
        }
    }
    for (const char* w : {"list", "deduplicated list", "dump", "wipe", "purge"}) {
        for (int reads : {-1, 0, 1, 50, 101}) {
            reals.push_back({w, 1, reads, false});
        }
    }
    struct P {
        int r;
        std::vector<int> prefix;
    };
    std::vector<P> points;
    std::map<std::string, std::string> expected;  // to the end, by operation and store
    threads::Options o;
    for (size_t i = 0; i < reals.size(); ++i) {
        auto& r = reals[i];
        auto x  = threads::run([&]() {
            stores[r.store].s.apply();
            return doReal(stores[r.store].s, r);
        }, {}, o);
        if (!x.child.ok || x.deadlock) {
            mc::violation("fails in the default schedule: " + std::string(r.what), x.child.status() + x.child.log + x.blocked);
            continue;
        }
        if (r.reads < 0 && !r.release) {
            expected[r.what + std::to_string(r.store)] = x.child.out;
        }
        points.push_back({(int)i, {}});
        size_t stride = th ? 1 : 1 + x.decisions.size() / (r.store ? 60 : 100);
        for (size_t d = 0; d < x.decisions.size(); d += stride) {
            for (int alt = 1; alt < x.decisions[d].options; ++alt) {
                auto q = threads::choices(x, d);
                q.push_back(alt);
                points.push_back({(int)i, q});
            }
        }
    }
    mc::sweep("real", points.size(), [&](mc::Ctx& ctx) {
        auto& p = points[ctx.idx];
        auto& r = reals[p.r];
        auto fn = [&]() {
            stores[r.store].s.apply();
            return doReal(stores[r.store].s, r);
        };
        auto judge = [&](const threads::Outcome& x) {
            ctx.describe = r.str() + "\nschedule: " + threads::str(threads::choices(x, x.decisions.size())) + "\n" + x.trace.substr(0, 20000);
            if (x.deadlock) {
                ctx.fail("deadlock: " + std::string(r.what), x.blocked);
                return false;
            }
            if (!x.child.ok) {
                ctx.fail("crash, hang or error: " + std::string(r.what), x.child.status() + " " + x.child.out + x.child.log);
                return false;
            }
            // elements up to the drop as in the complete answer
            auto& e       = expected[r.what + std::to_string(r.store)];
            std::string g = x.child.out;
            bool ok       = r.reads < 0 ? g == e : false;
            if (r.reads >= 0) {
                auto d = g.find("dropped");
                ok     = d != std::string::npos ? e.compare(0, d, g, 0, d) == 0 && std::count(g.begin(), g.begin() + d, ';') == r.reads : g == e;
            }
            if (!ok) {
                ctx.fail("another answer: " + std::string(r.what), g.substr(0, 600) + " instead of " + e.substr(0, 600));
                return false;
            }
            ctx.distinct(r.str() + (p.prefix.empty() ? "" : std::to_string(p.prefix.size())));
            return true;
        };
        // (one deviation from the default; thorough: and one more)
        auto x = threads::explore(fn, p.prefix, th && !p.prefix.empty() && r.store == 0 ? 2 : 0, 0, o, judge, th ? 3000 : 1);
        ctx.count("schedules", x.runs);
        ctx.count("decisions", x.decisions);
        if (ctx.idx % 299 == 3) {
            ctx.sample(ctx.describe.substr(0, 1500));
        }
    }, 3000);

    mc::Evidence e;
    e.level = "exploration";
    e.rule  = "generic: producers x queue sizes x consumers x shapes, each under every schedule with at most 1 preemption, the first 250 with 2 (thorough: all with 3), and "
              "2 deviations where a thread blocks; real: operations x number of elements read, under the default schedule and those with "
              "one deviation (thorough: more). distinct_nontrivial counts distinct deliveries.";
    e.assumptions = {"threads are switched at operations on mutexes, condition variables, threads, futures and static initialisations"};
    return mc::finish(e);
}
