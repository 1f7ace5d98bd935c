/// C25: every element of every chunk of a view is the value of the field at its coordinates.
///
/// All view definitions within bounds are built by the real builder, over real GRIB messages that are served by a
/// stand-in for the storage (or by a real FDB), and every chunk is read in a guarded buffer and compared with a
/// reference array computed from the definition alone.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <optional>
#include <set>

#include "chunked_data_view/AxisDefinition.h"
#include "chunked_data_view/ChunkedDataView.h"
#include "chunked_data_view/ChunkedDataViewBuilder.h"
#include "chunked_data_view/Fdb.h"
#include "chunked_data_view/GribExtractor.h"
#include "chunked_data_view/ListIterator.h"

#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "metkit/mars/MarsRequest.h"

#include "fdb5/api/FDB.h"
#include "fdb5/database/Key.h"

#include "eccodes.h"

#include "fx.h"
#include "mc.h"

namespace cdv = chunked_data_view;

namespace {

using Sizes  = std::vector<size_t>;
using Coords = std::map<std::string, std::string>;  ///< keyword -> value

constexpr float STALE = -77777.f;
constexpr size_t GUARD = 64;

//-------------------------------------------------------------------------------------------------------------- messages

/// A GRIB message with these values, exactly represented. Points that are missing are masked by a bitmap.
std::string grib(const std::vector<float>& values, const std::set<size_t>& missing = {}, bool bitmap = false) {
    codes_handle* h = codes_grib_handle_new_from_samples(nullptr, "regular_ll_sfc_grib2");
    if (!h) {
        throw eckit::SeriousBug("no GRIB sample");
    }
    auto ck = [](int rc) {
        if (rc) {
            throw eckit::SeriousBug(std::string("eccodes: ") + codes_get_error_message(rc));
        }
    };
    ck(codes_set_long(h, "Ni", (long)values.size()));
    ck(codes_set_long(h, "Nj", 1));
    std::vector<double> v(values.begin(), values.end());
    if (bitmap || !missing.empty()) {
        ck(codes_set_long(h, "bitmapPresent", 1));
        ck(codes_set_double(h, "missingValue", 1e8));
        for (auto m : missing) {
            v[m] = 1e8;
        }
    }
    ck(codes_set_long(h, "bitsPerValue", 24));
    ck(codes_set_double_array(h, "values", v.data(), v.size()));
    const void* p = nullptr;
    size_t n      = 0;
    ck(codes_get_message(h, &p, &n));
    std::string s(static_cast<const char*>(p), n);
    codes_handle_delete(h);
    return s;
}

/// The value of a field (identified by a number) at a point
float value(size_t field, size_t point) {
    return float(field * 16 + point + 1);
}

const std::string& message(size_t field, size_t points) {
    static std::map<std::pair<size_t, size_t>, std::string> cache;
    auto& s = cache[{field, points}];
    if (s.empty()) {
        std::vector<float> v;
        for (size_t i = 0; i < points; ++i) {
            v.push_back(value(field, i));
        }
        s = grib(v);
    }
    return s;
}

//--------------------------------------------------------------------------------------------------------------- storage

struct Entry {
    Coords key;
    std::string bytes;
};

/// What the storage answers: a function of the request
class Storage : public cdv::FdbInterface {
public:

    using Answer = std::function<std::vector<Entry>(const metkit::mars::MarsRequest&)>;
    Storage(std::string sample, Answer answer) : sample_(std::move(sample)), answer_(std::move(answer)) {}

    std::unique_ptr<eckit::DataHandle> retrieve(const metkit::mars::MarsRequest&) override { return handle(sample_); }

    std::unique_ptr<cdv::ListIteratorInterface> inspect(const metkit::mars::MarsRequest& r) override {
        struct It : cdv::ListIteratorInterface {
            std::vector<Entry> e;
            size_t i = 0;
            std::optional<std::tuple<fdb5::Key, std::unique_ptr<eckit::DataHandle>>> next() override {
                if (i == e.size()) {
                    return std::nullopt;
                }
                fdb5::Key k;
                for (auto& kv : e[i].key) {
                    k.set(kv.first, kv.second);
                }
                return std::make_tuple(k, handle(e[i++].bytes));
            }
        };
        auto it = std::make_unique<It>();
        it->e   = answer_(r);
        return it;
    }

    static std::unique_ptr<eckit::DataHandle> handle(const std::string& b) {
        auto h = std::make_unique<eckit::MemoryHandle>(b.size() + 1, true);  // its own memory
        h->openForWrite(eckit::Length(b.size()));
        h->write(b.data(), b.size());
        h->close();
        return h;
    }

private:

    std::string sample_;
    Answer answer_;
};

//---------------------------------------------------------------------------------------------------------- definitions

struct Keyword {
    std::string name;
    std::vector<std::string> values;
};

struct AxisDef {
    std::vector<Keyword> keys;
    int chunking = 0;  ///< -1 the whole axis, 0 single values, n > 0 chunks of n

    size_t size() const {
        size_t n = 1;
        for (auto& k : keys) {
            n *= k.values.size();
        }
        return n;
    }
    size_t chunk() const { return chunking < 0 ? size() : chunking == 0 ? 1 : size_t(chunking); }
    bool whole() const { return chunking < 0; }
    /// a fixed size is to cover whole groups of the faster keywords, and divide the next one evenly
    bool valid() const {
        if (chunking <= 0) {
            return true;
        }
        size_t inner = 1;
        for (size_t k = keys.size(); k-- > 0;) {
            auto n = keys[k].values.size();
            for (size_t d = 1; d <= n; ++d) {
                if (n % d == 0 && inner * d == size_t(chunking)) {
                    return true;
                }
            }
            inner *= n;
        }
        return false;
    }
    /// the values at a position; the last keyword varies fastest
    void at(size_t i, Coords& c) const {
        for (size_t k = keys.size(); k-- > 0;) {
            c[keys[k].name] = keys[k].values[i % keys[k].values.size()];
            i /= keys[k].values.size();
        }
    }
};

struct PartDef {
    std::string level = "1";  ///< tells the parts apart
    std::vector<AxisDef> axes;
    size_t points = 3;
    Coords extra;

    size_t fields() const {
        size_t n = 1;
        for (auto& a : axes) {
            n *= a.size();
        }
        return n;
    }
    std::string request() const {
        std::string s = "class=rd,type=pf,stream=enfo,levtype=pl,expver=xxxx,levelist=" + level;
        for (auto& kv : extra) {
            s += "," + kv.first + "=" + kv.second;
        }
        for (auto& a : axes) {
            for (auto& k : a.keys) {
                s += "," + k.name + "=";
                for (size_t i = 0; i < k.values.size(); ++i) {
                    s += (i ? "/" : "") + k.values[i];
                }
            }
        }
        return s;
    }
    std::vector<cdv::AxisDefinition> defs() const {
        std::vector<cdv::AxisDefinition> d;
        for (auto& a : axes) {
            cdv::AxisDefinition x;
            for (auto& k : a.keys) {
                x.keys.push_back(k.name);
            }
            if (a.chunking < 0) {
                x.chunking = cdv::AxisDefinition::WholeAxisChunking{};
            }
            else if (a.chunking == 0) {
                x.chunking = cdv::AxisDefinition::SingleValueChunking{};
            }
            else {
                x.chunking = cdv::AxisDefinition::FixedSizeChunking{size_t(a.chunking)};
            }
            d.push_back(x);
        }
        return d;
    }
    /// the fields in row-major order: their coordinates
    Coords field(const Sizes& pos) const {
        Coords c = {{"levelist", level}};
        for (size_t i = 0; i < axes.size(); ++i) {
            axes[i].at(pos[i], c);
        }
        return c;
    }
    std::string str() const {
        std::string s = "[" + request().substr(request().find("levelist")) + ";";
        for (auto& a : axes) {
            s += " ";
            for (auto& k : a.keys) {
                s += (&k == &a.keys[0] ? "" : "+") + k.name;
            }
            s += a.chunking < 0 ? ":whole" : a.chunking == 0 ? ":single" : ":" + std::to_string(a.chunking);
        }
        return s + "; " + std::to_string(points) + " points]";
    }
};

/// Visit every position in a box, the last dimension fastest
void positions(const Sizes& shape, const std::function<void(const Sizes&)>& fn) {
    Sizes p(shape.size(), 0);
    for (auto s : shape) {
        if (!s) {
            return;
        }
    }
    while (true) {
        fn(p);
        size_t i = p.size();
        while (i-- > 0) {
            if (++p[i] < shape[i]) {
                break;
            }
            p[i] = 0;
            if (i == 0) {
                return;
            }
        }
        if (p.empty()) {
            return;
        }
    }
}

struct ViewDef {
    std::vector<PartDef> parts;
    std::optional<size_t> extend;

    size_t ext() const { return extend.value_or(0); }

    /// is this a view that can be had?
    bool valid() const {
        auto& f = parts[0];
        if (parts.size() > 1 && !extend) {
            return false;
        }
        if (extend && *extend >= f.axes.size()) {
            return false;
        }
        for (auto& p : parts) {
            std::set<std::string> seen;
            if (p.axes.size() != f.axes.size() || p.points != f.points) {
                return false;
            }
            for (size_t i = 0; i < p.axes.size(); ++i) {
                if (!p.axes[i].valid()) {
                    return false;
                }
                if (i != ext() && p.axes[i].size() != f.axes[i].size()) {
                    return false;
                }
                if (!f.axes[i].whole() && p.axes[i].chunk() != f.axes[i].chunk()) {
                    return false;
                }
                for (auto& k : p.axes[i].keys) {
                    if (!seen.insert(k.name).second) {
                        return false;
                    }
                }
            }
        }
        return true;
    }
    Sizes shape() const {
        Sizes s;
        for (size_t i = 0; i < parts[0].axes.size(); ++i) {
            s.push_back(parts[0].axes[i].size());
            if (i == ext()) {
                for (size_t p = 1; p < parts.size(); ++p) {
                    s.back() += parts[p].axes[i].size();
                }
            }
        }
        s.push_back(parts[0].points);
        return s;
    }
    Sizes chunkShape() const {
        auto whole = shape();
        Sizes s;
        for (size_t i = 0; i < parts[0].axes.size(); ++i) {
            s.push_back(parts[0].axes[i].whole() ? whole[i] : parts[0].axes[i].chunk());
        }
        s.push_back(parts[0].points);
        return s;
    }
    /// which field is at a position of the view: its part and coordinates
    std::pair<size_t, Coords> field(Sizes pos) const {
        size_t p = 0;
        while (pos[ext()] >= parts[p].axes[ext()].size()) {
            pos[ext()] -= parts[p].axes[ext()].size();
            ++p;
        }
        return {p, parts[p].field(pos)};
    }
    std::string str() const {
        std::string s;
        for (auto& p : parts) {
            s += (s.empty() ? "" : " ") + p.str();
        }
        if (extend) {
            s += " extended on " + std::to_string(*extend);
        }
        return s;
    }
};

//-------------------------------------------------------------------------------------------------------------- the world

/// All fields of a view, numbered
struct World {
    std::map<Coords, size_t> ids;
    explicit World(const ViewDef& v) {
        for (auto& p : v.parts) {
            Sizes s;
            for (auto& a : p.axes) {
                s.push_back(a.size());
            }
            positions(s, [&](const Sizes& pos) {
                auto c = p.field(pos);
                auto n = ids.size();
                ids.emplace(c, n);
            });
        }
    }
    /// The fields that a request asks for, in the order of their numbers
    std::vector<Coords> select(const metkit::mars::MarsRequest& r) const {
        std::vector<std::pair<size_t, Coords>> found;
        for (auto& f : ids) {
            bool in = true;
            for (auto& kv : f.first) {
                auto v = r.values(kv.first, true);
                if (!v.empty() && std::find(v.begin(), v.end(), kv.second) == v.end()) {
                    in = false;
                }
            }
            if (in) {
                found.push_back({f.second, f.first});
            }
        }
        std::sort(found.begin(), found.end());
        std::vector<Coords> out;
        for (auto& f : found) {
            out.push_back(f.second);
        }
        return out;
    }
};

std::string str(const Sizes& s) {
    std::string o = "(";
    for (size_t i = 0; i < s.size(); ++i) {
        o += (i ? "," : "") + std::to_string(s[i]);
    }
    return o + ")";
}

/// Read a chunk; "" if all is right, otherwise what is wrong. 'error' is set if the view reported an error.
std::string readChunk(cdv::ChunkedDataView& view, const Sizes& index, size_t len, std::vector<float>& out, bool& error) {
    std::vector<float> buf(GUARD + len + GUARD, STALE);
    error = false;
    try {
        view.at(index, buf.data() + GUARD, len);
    }
    catch (std::exception&) {
        error = true;
    }
    for (size_t i = 0; i < GUARD; ++i) {
        if (buf[i] != STALE || buf[GUARD + len + i] != STALE) {
            return "a write outside the buffer";
        }
    }
    out.assign(buf.begin() + GUARD, buf.begin() + GUARD + len);
    return "";
}

size_t product(const Sizes& s) {
    size_t n = 1;
    for (auto x : s) {
        n *= x;
    }
    return n;
}

std::unique_ptr<cdv::ChunkedDataView> build(const ViewDef& v, const std::vector<std::shared_ptr<cdv::FdbInterface>>& fdbs,
                                            std::optional<float> fill = {}) {
    cdv::ChunkedDataViewBuilder b;
    for (size_t i = 0; i < v.parts.size(); ++i) {
        b.addPart(v.parts[i].request(), v.parts[i].defs(), std::make_shared<cdv::GribExtractor>(fdbs[i]));
    }
    if (v.extend) {
        b.extendOnAxis(*v.extend);
    }
    if (fill) {
        b.fillMissingValue(*fill);
    }
    return b.build();
}

using Order = std::function<void(std::vector<Entry>&)>;

std::vector<std::shared_ptr<cdv::FdbInterface>> storages(const ViewDef& v, const World& w, const Order* order,
                                                         const std::function<size_t(const Coords&)>& id) {
    std::vector<std::shared_ptr<cdv::FdbInterface>> out;
    for (auto& p : v.parts) {
        out.push_back(std::make_shared<Storage>(message(0, p.points), [&w, order, id, points = p.points](auto& r) {
            std::vector<Entry> e;
            for (auto& c : w.select(r)) {
                Coords k = c;
                k.insert({"class", "rd"});
                k.insert({"type", "pf"});
                e.push_back({k, message(id(c), points)});
            }
            (*order)(e);
            return e;
        }));
    }
    return out;
}

/// Expected number of chunks
Sizes chunks(const ViewDef& v) {
    auto s = v.shape(), c = v.chunkShape();
    Sizes n;
    for (size_t i = 0; i < s.size(); ++i) {
        n.push_back((s[i] + c[i] - 1) / c[i]);
    }
    return n;
}

/// Compare a chunk that has been read with the reference
std::string compare(const ViewDef& v, const World& w, const Sizes& index, const std::vector<float>& got) {
    auto shape = v.shape(), cs = v.chunkShape();
    std::string err;
    size_t k = 0;
    positions(cs, [&](const Sizes& in) {
        auto at = k++;
        if (!err.empty()) {
            return;
        }
        Sizes pos;
        for (size_t i = 0; i < in.size(); ++i) {
            pos.push_back(index[i] * cs[i] + in[i]);
            if (pos[i] >= shape[i]) {
                return;  // beyond the end of the array
            }
        }
        auto point = pos.back();
        pos.pop_back();
        auto f      = v.field(pos);
        float wants = value(w.ids.at(f.second), point);
        if (got[at] != wants) {
            err = "element " + str(in) + " is " + std::to_string(got[at]) + " instead of " + std::to_string(wants);
        }
    });
    return err;
}

struct Counts {
    uint64_t views = 0, refused = 0, reads = 0, orders = 0;
};

/// A view definition: built or refused as it has to be; every chunk right, in every order of the storage
std::string check(const ViewDef& v, Counts& n, size_t maxOrders) {
    World w(v);
    Order order = [](std::vector<Entry>&) {};
    auto fdbs   = storages(v, w, &order, [&](const Coords& c) { return w.ids.at(c); });
    std::unique_ptr<cdv::ChunkedDataView> view;
    std::string what;
    try {
        view = build(v, fdbs);
    }
    catch (std::exception& e) {
        what = e.what();
    }
    if (!view) {
        ++n.refused;
        return v.valid() ? "a valid definition is refused: " + what : "";
    }
    if (!v.valid()) {
        return "a definition that cannot be honoured is accepted";
    }
    ++n.views;
    if (view->shape() != v.shape()) {
        return "the shape is " + str(view->shape()) + " instead of " + str(v.shape());
    }
    if (view->chunkShape() != v.chunkShape()) {
        return "the shape of the chunks is " + str(view->chunkShape()) + " instead of " + str(v.chunkShape());
    }
    if (view->chunks() != chunks(v)) {
        return "the number of chunks is " + str(view->chunks()) + " instead of " + str(chunks(v));
    }
    auto len = product(v.chunkShape());
    if (view->countChunkValues() != len) {
        return "the number of values in a chunk is " + std::to_string(view->countChunkValues());
    }
    std::string err;
    std::vector<float> got;
    bool error = false;
    positions(chunks(v), [&](const Sizes& index) {
        if (!err.empty()) {
            return;
        }
        auto there = [&](const std::string& s) { err = "chunk " + str(index) + ": " + s; };
        // orders of what the storage returns: all of them when there are few; otherwise rotations and the reverse
        size_t fields = len / v.parts[0].points;
        std::vector<Order> orders;
        size_t all = 1;
        for (size_t i = 2; i <= fields && all <= maxOrders; ++i) {
            all *= i;
        }
        if (all <= maxOrders) {
            for (size_t k = 0; k < all; ++k) {
                orders.push_back([k](std::vector<Entry>& e) {
                    std::vector<size_t> perm(e.size());
                    for (size_t i = 0; i < perm.size(); ++i) {
                        perm[i] = i;
                    }
                    for (size_t i = 0; i < k; ++i) {
                        std::next_permutation(perm.begin(), perm.end());
                    }
                    std::vector<Entry> o;
                    for (auto i : perm) {
                        o.push_back(e[i]);
                    }
                    e = o;
                });
            }
        }
        else {
            for (size_t k = 0; k < fields; ++k) {
                orders.push_back([k](std::vector<Entry>& e) { std::rotate(e.begin(), e.begin() + k % e.size(), e.end()); });
            }
            orders.push_back([](std::vector<Entry>& e) { std::reverse(e.begin(), e.end()); });
        }
        for (size_t k = 0; k < orders.size() && err.empty(); ++k) {
            order    = orders[k];
            auto bad = readChunk(*view, index, len, got, error);
            ++n.reads;
            if (!bad.empty()) {
                there(bad);
            }
            else if (error) {
                there("reading it fails");
            }
            else if (auto e = compare(v, w, index, got); !e.empty()) {
                there(e + " (order " + std::to_string(k) + ")");
            }
        }
        if (err.empty()) {
            // a buffer that is longer, and buffers that are too short
            auto bad = readChunk(*view, index, len + 5, got, error);
            if (!bad.empty() || error || !compare(v, w, index, got).empty()) {
                there("reading it into a longer buffer: " + bad);
            }
            for (size_t l : maxOrders > 2 ? std::vector<size_t>{len - 1, len / 2, 0} : std::vector<size_t>{len - 1}) {
                bad = readChunk(*view, index, l, got, error);
                ++n.reads;
                if (!bad.empty() || !error) {
                    there("reading it into a buffer of " + std::to_string(l) + " values: " + (bad.empty() ? "no error" : bad));
                }
            }
        }
    });
    if (!err.empty()) {
        return err;
    }
    // indices that do not exist
    auto grid = chunks(v);
    for (size_t i = 0; i < grid.size(); ++i) {
        for (size_t over : {grid[i], grid[i] + 1, size_t(-1)}) {  // cheap: refused before anything is read
            Sizes index(grid.size(), 0);
            index[i] = over;
            auto bad = readChunk(*view, index, len, got, error);
            if (!bad.empty() || !error) {
                return "the index " + str(index) + " does not exist: " + (bad.empty() ? "no error" : bad);
            }
        }
    }
    for (auto index : {Sizes(grid.size() - 1, 0), Sizes(grid.size() + 1, 0)}) {
        auto bad = readChunk(*view, index, len, got, error);
        if (!bad.empty() || !error) {
            return "the index " + str(index) + " has the wrong dimension: " + (bad.empty() ? "no error" : bad);
        }
    }
    return "";
}

//--------------------------------------------------------------------------------------------------- enumerating the views

const std::vector<Keyword> KEYWORDS = {
    {"number", {"3", "1", "2"}},
    {"step", {"0", "24", "12"}},
    {"date", {"20200103", "20200101", "20200102"}},
    {"param", {"130", "129", "131"}},
};

Keyword keyword(size_t i, size_t n) {
    auto k = KEYWORDS[i];
    k.values.resize(n);
    return k;
}

std::vector<int> chunkings(size_t size, bool all) {
    std::vector<int> c = {-1, 0};
    for (int i = 1; i <= int(size) + 1; ++i) {
        if (all || (i > 1 && i <= int(size))) {
            c.push_back(i);
        }
    }
    return c;
}

/// All groupings of k keywords into axes: sizes of the consecutive groups
void groupings(size_t k, std::vector<std::vector<size_t>>& out, std::vector<size_t> sofar = {}) {
    if (k == 0) {
        out.push_back(sofar);
        return;
    }
    for (size_t i = 1; i <= k; ++i) {
        sofar.push_back(i);
        groupings(k - i, out, sofar);
        sofar.pop_back();
    }
}

std::vector<std::vector<AxisDef>> axesUpTo(size_t maxKeywords, size_t maxFields) {
    std::vector<std::vector<AxisDef>> out;
    for (size_t k = 1; k <= maxKeywords; ++k) {
        std::vector<std::vector<size_t>> groups;
        groupings(k, groups);
        positions(Sizes(k, 3), [&](const Sizes& cards) {
            size_t n = 1;
            for (auto c : cards) {
                n *= c + 1;
            }
            if (n > maxFields) {
                return;
            }
            for (auto& g : groups) {
                if (g.size() > 3) {
                    continue;
                }
                std::vector<AxisDef> axes;
                size_t at = 0;
                for (auto s : g) {
                    AxisDef a;
                    for (size_t i = 0; i < s; ++i, ++at) {
                        a.keys.push_back(keyword(at, cards[at] + 1));
                    }
                    axes.push_back(a);
                }
                out.push_back(axes);
            }
        });
    }
    return out;
}

void everyChunking(std::vector<AxisDef> axes, bool all, const std::function<void(const std::vector<AxisDef>&)>& fn) {
    std::vector<std::vector<int>> c;
    Sizes shape;
    for (auto& a : axes) {
        c.push_back(chunkings(a.size(), all));
        shape.push_back(c.back().size());
    }
    positions(shape, [&](const Sizes& p) {
        for (size_t i = 0; i < axes.size(); ++i) {
            axes[i].chunking = c[i][p[i]];
        }
        fn(axes);
    });
}

void report(mc::Ctx& ctx, const ViewDef& v, const std::string& err) {
    ctx.describe = v.str();
    ctx.fail("a view is wrong: " + err.substr(0, err.find(':')), v.str() + ": " + err);
}

void tally(mc::Ctx& ctx, const Counts& n) {
    ctx.count("views", n.views);
    ctx.count("definitions_refused", n.refused);
    ctx.count("chunk_reads", n.reads);
}

void oneView(mc::Ctx& ctx, const std::vector<AxisDef>& axes, size_t maxOrders, bool all) {
    Counts n;
    ViewDef v;
    v.parts.resize(1);
    everyChunking(axes, all, [&](const std::vector<AxisDef>& a) {
        if (ctx.failed()) {
            return;
        }
        v.parts[0].axes = a;
        std::set<int> extend = {-1, int(ctx.idx % a.size()), int(a.size())};  // one part may name any axis that it has
        for (int e : extend) {
            v.extend.reset();
            if (e >= 0 && !v.valid()) {
                continue;  // has been refused
            }
            if (e >= 0) {
                v.extend = e;
            }
            if (auto err = check(v, n, e < 0 ? maxOrders : 1); !err.empty()) {
                report(ctx, v, err);
                return;
            }
        }
        ctx.distinct(v.str());
    });
    if (ctx.idx % 29 == 3) {
        ctx.sample(v.str());
    }
    tally(ctx, n);
}

//------------------------------------------------------------------------------------------------------------ two parts

/// Shapes of a part of a view in several parts
struct Shape {
    std::vector<std::vector<size_t>> cards;  ///< for each axis the cardinalities of its keywords
};

std::vector<AxisDef> axesOf(const Shape& s, size_t shift) {
    std::vector<AxisDef> axes;
    size_t at = 0;
    for (auto& g : s.cards) {
        AxisDef a;
        for (auto c : g) {
            a.keys.push_back(keyword((at++ + shift) % KEYWORDS.size(), c));
        }
        axes.push_back(a);
    }
    return axes;
}

void parts(mc::Ctx& ctx, const std::vector<Shape>& shapes, size_t count, bool all) {
    Counts n;
    // a combination of shapes
    auto first = ctx.idx % shapes.size();
    Sizes others;
    for (size_t i = ctx.idx / shapes.size(), p = 1; p < count; ++p, i /= shapes.size()) {
        others.push_back(i % shapes.size());
    }
    {
        ViewDef v;
        v.parts.resize(count);
        v.parts[0].axes = axesOf(shapes[first], 0);
        for (size_t p = 1; p < count; ++p) {
            v.parts[p].level = std::to_string(p + 1);
            v.parts[p].axes  = axesOf(shapes[others[p - 1]], p);
        }
        for (int e = -1; e <= (int)v.parts[0].axes.size(); ++e) {
            v.extend.reset();
            if (e >= 0) {
                v.extend = e;
            }
            everyChunking(v.parts[0].axes, all, [&](const std::vector<AxisDef>& a) {
                // the other parts: chunked in the same manner, or otherwise on one axis
                for (int other = -1; other < (int)a.size(); ++other) {
                    for (int how : {-1, 0, 2}) {
                        if (ctx.failed() || (other < 0 && how >= 0)) {
                            continue;
                        }
                        auto x          = v;
                        x.parts[0].axes = a;
                        for (size_t p = 1; p < count; ++p) {
                            auto& b = x.parts[p].axes;
                            for (size_t i = 0; i < b.size() && i < a.size(); ++i) {
                                b[i].chunking = a[i].chunking;
                            }
                            if (p == count - 1 && other >= 0 && other < (int)b.size()) {
                                b[other].chunking = how;
                            }
                        }
                        // definitions to be refused: only those whose parts are valid alone, and no other number of
                        // axes or extents in more than one chunking
                        bool alone = true, fit = true, plain = other < 0;
                        for (auto& p : x.parts) {
                            fit = fit && p.axes.size() == x.parts[0].axes.size();
                            for (size_t i = 0; i < p.axes.size(); ++i) {
                                alone = alone && p.axes[i].valid();
                                plain = plain && p.axes[i].chunking == (i ? 0 : -1);
                                fit   = fit && (i == x.ext() || i >= x.parts[0].axes.size() || p.axes[i].size() == x.parts[0].axes[i].size());
                            }
                        }
                        bool in = x.extend && *x.extend < x.parts[0].axes.size();
                        if (!alone || !((fit && in) || plain)) {
                            continue;
                        }
                        if (auto err = check(x, n, 2); !err.empty()) {
                            report(ctx, x, err);
                        }
                        else {
                            ctx.distinct(x.str());
                        }
                    }
                }
            });
        }
        // fields of another size in another part
        for (size_t points : {1, 2, 4}) {
            auto x             = v;
            x.extend           = 0;
            x.parts[1].points  = points;
            for (auto& p : x.parts) {
                for (auto& a : p.axes) {
                    a.chunking = -1;
                }
            }
            if (!ctx.failed()) {
                if (auto err = check(x, n, 1); !err.empty()) {
                    report(ctx, x, "parts with fields of different sizes: " + err);
                }
            }
        }
    }
    if (ctx.idx % 31 == 7) {
        ctx.sample(std::to_string(n.views) + " views, " + std::to_string(n.refused) + " definitions refused");
    }
    tally(ctx, n);
}

//-------------------------------------------------------------------------------------------------- answers of the storage

/// What the storage may return instead of a field
const std::vector<std::string> FAULTS = {"missing",  "twice",   "too short", "too long", "empty",    "two messages",
                                         "foreign value", "keyword missing", "outside the chunk",  "of the neighbour", "truncated", "garbage"};

void answers(mc::Ctx& ctx, const ViewDef& v, const Sizes& index) {
    // All assignments of what is returned for each field of the chunk: once, never, or twice; then each other fault for
    // each field, with and without another field being missing or repeated.
    World w(v);
    std::vector<Entry> reply;
    auto fdb  = std::make_shared<Storage>(message(0, v.parts[0].points), [&](auto&) { return reply; });
    auto view = build(v, {fdb});
    auto cs   = v.chunkShape();
    auto len  = product(cs);
    std::vector<Coords> in;
    auto box = cs;
    box.pop_back();
    positions(box, [&](const Sizes& p) {
        Sizes pos;
        for (size_t i = 0; i < p.size(); ++i) {
            pos.push_back(index[i] * cs[i] + p[i]);
        }
        in.push_back(v.field(pos).second);
    });
    std::vector<Coords> out;
    for (auto& f : w.ids) {
        if (std::find(in.begin(), in.end(), f.first) == in.end()) {
            out.push_back(f.first);
        }
    }
    uint64_t n  = 0;
    auto points = v.parts[0].points;
    std::vector<float> got;
    auto good = [&](const Coords& c) { return Entry{c, message(w.ids.at(c), points)}; };
    auto read = [&](bool right, const std::string& what) {
        bool error;
        ++n;
        auto bad = readChunk(*view, index, len, got, error);
        if (bad.empty() && right) {
            bad = error ? "an error" : compare(v, w, index, got);
        }
        if (bad.empty() && !right && !error) {
            bad = "no error";
        }
        if (!bad.empty()) {
            ctx.describe = v.str() + " chunk " + str(index) + ": the storage returns " + what;
            ctx.fail("storage: " + bad.substr(0, bad.find(" is ")), ctx.describe + ": " + bad);
        }
        ctx.distinct(v.str() + what);
    };
    positions(Sizes(in.size(), 3), [&](const Sizes& times) {
        if (ctx.failed()) {
            return;
        }
        for (int order = 0; order < 2; ++order) {
            reply.clear();
            bool right = true;
            std::string what;
            for (size_t i = 0; i < in.size(); ++i) {
                for (size_t k = 0; k < times[i]; ++k) {
                    reply.push_back(good(in[i]));
                }
                right = right && times[i] == 1;
                what += (i ? " " : "the fields ") + std::to_string(times[i]);
            }
            if (order) {
                std::reverse(reply.begin(), reply.end());
            }
            read(right, what + " times");
        }
    });
    for (auto& f : FAULTS) {
        for (size_t i = 0; i < in.size(); ++i) {
            for (int m = -1; m < (int)in.size(); ++m) {  // another field is missing
                for (bool replace : {true, false}) {     // instead of the field, or besides it
                    for (bool front : {true, false}) {
                        if (ctx.failed() || m == (int)i) {
                            continue;
                        }
                        reply.clear();
                        bool right = m < 0 && !replace;
                        for (size_t k = 0; k < in.size(); ++k) {
                            if ((int)k != m && !(replace && k == i)) {
                                reply.push_back(good(in[k]));
                            }
                        }
                        auto e = good(in[i]);
                        std::vector<Entry> add;
                        if (f == "missing") {
                        }
                        else if (f == "twice") {
                            add = {e, e};
                        }
                        else if (f == "too short") {
                            add = {{in[i], message(w.ids.at(in[i]), points - 1)}};
                        }
                        else if (f == "too long") {
                            add = {{in[i], message(w.ids.at(in[i]), points + 1)}};
                        }
                        else if (f == "empty") {
                            add = {{in[i], ""}};
                        }
                        else if (f == "two messages") {
                            add = {{in[i], e.bytes + e.bytes}};
                        }
                        else if (f == "foreign value") {
                            auto c            = in[i];
                            c.begin()->second = "777";
                            if (c.begin()->first == "levelist") {
                                c.rbegin()->second = "777";
                            }
                            add = {{c, e.bytes}};
                        }
                        else if (f == "keyword missing") {
                            auto c = in[i];
                            c.erase(v.parts[0].axes[0].keys[0].name);
                            add = {{c, e.bytes}};
                        }
                        else if (f == "outside the chunk") {
                            if (out.empty()) {
                                continue;
                            }
                            add = {good(out[i % out.size()])};
                        }
                        else if (f == "of the neighbour") {
                            if (out.empty()) {
                                continue;
                            }
                            add = {good(out.back())};
                        }
                        else if (f == "truncated") {
                            add = {{in[i], e.bytes.substr(0, e.bytes.size() / 2)}};
                        }
                        else if (f == "garbage") {
                            add = {{in[i], std::string(200, 'x')}};
                        }
                        if (add.empty() && !replace) {
                            continue;
                        }
                        // besides the field itself: an empty handle says nothing, whatever else is too much
                        if (!replace && f == "empty") {
                            right = m < 0;
                            continue;
                        }
                        if (front) {
                            add.insert(add.end(), reply.begin(), reply.end());
                            reply = add;
                        }
                        else {
                            reply.insert(reply.end(), add.begin(), add.end());
                        }
                        right = false;
                        read(right, "field " + std::to_string(i) + " " + f + (replace ? "" : " (besides)") +
                                        (m < 0 ? "" : ", without field " + std::to_string(m)) + (front ? "" : ", at the end"));
                    }
                }
            }
        }
    }
    ctx.count("storage_answers", n);
    ctx.sample(v.str() + " chunk " + str(index) + ": " + std::to_string(n) + " answers of the storage");
}

//-------------------------------------------------------------------------------------------------------- missing points

void bitmaps(mc::Ctx& ctx, std::optional<float> fill) {
    // Two fields of 4 points; every combination of missing points in both; also a bitmap without missing points
    ViewDef v;
    v.parts.resize(1);
    v.parts[0].points = 4;
    AxisDef a;
    a.keys     = {keyword(0, 2)};
    a.chunking = -1;
    v.parts[0].axes = {a};
    World w(v);
    std::vector<std::string> msg(32);
    std::vector<Entry> reply;
    auto fdb  = std::make_shared<Storage>(message(0, 4), [&](auto&) { return reply; });
    auto view = build(v, {fdb}, fill);
    if (fill ? view->fillMissingValue() != *fill : !std::isnan(view->fillMissingValue())) {
        ctx.fail("fill value", "the fill value of the view");
        return;
    }
    auto bytes = [&](size_t field, int mask, bool bitmap) {
        std::vector<float> x;
        std::set<size_t> miss;
        for (size_t i = 0; i < 4; ++i) {
            x.push_back(value(field, i));
            if (mask & (1 << i)) {
                miss.insert(i);
            }
        }
        return grib(x, miss, bitmap);
    };
    uint64_t n = 0;
    for (int m0 = 0; m0 < 16; ++m0) {
        for (int m1 = 0; m1 < 16; ++m1) {
            for (bool bitmap : {false, true}) {
                reply.clear();
                for (size_t f = 0; f < 2; ++f) {
                    Coords c;
                    for (auto& kv : w.ids) {
                        if (kv.second == f) {
                            c = kv.first;
                        }
                    }
                    reply.push_back({c, bytes(f, f ? m1 : m0, bitmap)});
                }
                std::vector<float> got;
                bool error;
                auto bad = readChunk(*view, {0, 0}, 8, got, error);
                ++n;
                for (size_t i = 0; i < 8 && bad.empty(); ++i) {
                    bool miss   = ((i < 4 ? m0 : m1) >> (i % 4)) & 1;
                    float wants = value(i / 4, i % 4);
                    bool ok     = miss ? (fill ? got[i] == *fill : std::isnan(got[i])) : got[i] == wants;
                    if (error || !ok) {
                        bad = "point " + std::to_string(i) + " is " + (error ? "an error" : std::to_string(got[i]));
                    }
                }
                ctx.distinct(std::to_string(m0) + "/" + std::to_string(m1) + (bitmap ? "b" : ""));
                if (!bad.empty()) {
                    ctx.describe = "missing points " + std::to_string(m0) + " and " + std::to_string(m1);
                    ctx.fail("missing points", ctx.describe + ": " + bad);
                    return;
                }
            }
        }
    }
    ctx.count("bitmaps", n);
}

//-------------------------------------------------------------------------------------------------------------- real FDB

void realFdb(mc::Ctx& ctx, const ViewDef& v, int stored, bool replaced, bool subtocs) {
    World w(v);
    ctx.describe = v.str() + " over an FDB with fields " + std::to_string(stored) + (replaced ? ", replaced" : "");
    auto c = mc::runChild([&]() -> std::string {
        fx::Setup s;
        s.dir     = ctx.dir + "/db";
        s.schema  = "[ class, expver, levtype [ type, levelist, stream [ number, step, date, param ]]]\n";
        s.subtocs = subtocs;
        s.create();
        s.apply();
        {
            fdb5::FDB fdb(s.config());
            for (int round = replaced ? 0 : 1; round < 2; ++round) {
                for (auto& f : w.ids) {
                    if (!(stored & (1 << f.second))) {
                        continue;
                    }
                    fdb5::Key k;
                    for (auto& kv : Coords{{"class", "rd"}, {"expver", "xxxx"}, {"levtype", "pl"}, {"type", "pf"},
                                           {"stream", "enfo"}, {"number", "1"}, {"step", "0"}, {"date", "20200101"}, {"param", "130"}}) {
                        k.set(kv.first, kv.second);
                    }
                    for (auto& kv : f.first) {
                        k.set(kv.first, kv.second);
                    }
                    auto& m = message(round ? f.second : f.second + 50, 3);
                    fdb.archive(k, m.data(), m.size());
                }
                fdb.flush();
            }
        }
        std::vector<std::shared_ptr<cdv::FdbInterface>> fdbs;
        auto conf = s.dir + "/view.yaml";
        std::ofstream(conf) << s.text();
        for (size_t i = 0; i < v.parts.size(); ++i) {
            fdbs.push_back(cdv::makeFdb(std::filesystem::path(conf)));
        }
        std::unique_ptr<cdv::ChunkedDataView> view;
        std::string what;
        try {
            view = build(v, fdbs);
        }
        catch (std::exception& e) {
            what = e.what();
        }
        int full = (1 << w.ids.size()) - 1;
        if (!view) {
            return stored == full ? "the view is refused: " + what : "";
        }
        std::string err;
        positions(chunks(v), [&](const Sizes& index) {
            auto cs  = v.chunkShape();
            bool all = true;
            auto box = cs;
            box.pop_back();
            positions(box, [&](const Sizes& p) {
                Sizes pos;
                for (size_t i = 0; i < p.size(); ++i) {
                    pos.push_back(index[i] * cs[i] + p[i]);
                }
                all = all && (stored & (1 << w.ids.at(v.field(pos).second)));
            });
            bool error;
            std::vector<float> got;
            auto bad = readChunk(*view, index, product(cs), got, error);
            if (bad.empty()) {
                bad = all ? (error ? "an error" : compare(v, w, index, got)) : (error ? "" : "no error for a missing field");
            }
            if (!bad.empty() && err.empty()) {
                err = "chunk " + str(index) + ": " + bad;
            }
        });
        return err;
    });
    if (!c.ok || !c.out.empty()) {
        ctx.fail("a view of a real FDB: " + (c.ok ? c.out.substr(0, c.out.find(':')) : c.status()), ctx.describe + ": " + c.out + c.log);
    }
    ctx.distinct(ctx.describe);
    ctx.count("views_of_real_fdbs");
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C25", 240, 3000);
    bool thorough = mc::opts.thorough;

    auto axes = axesUpTo(thorough ? 4 : 3, thorough ? 27 : 12);
    mc::sweep("views", axes.size(), [&](mc::Ctx& ctx) { oneView(ctx, axes[ctx.idx], thorough ? 120 : 24, axes[ctx.idx].size() < 3 || thorough); }, 600);

    std::vector<Shape> shapes = {{{{1}}}, {{{2}}}, {{{3}}}, {{{2, 2}}}, {{{1}, {2}}}, {{{2}, {1}}}, {{{2}, {2}}},
                                 {{{2}, {3}}}, {{{3}, {2}}}, {{{2, 2}, {2}}}, {{{2}, {1, 2}}}, {{{2}, {2, 2}}}, {{{2}, {1}, {2}}}, {{{1}, {2}, {2}}}};
    mc::sweep("parts", shapes.size() * shapes.size(), [&](mc::Ctx& ctx) { parts(ctx, shapes, 2, thorough); }, 900);
    std::vector<Shape> few = {{{{1}}}, {{{2}}}, {{{2}, {2}}}, {{{2}, {1}}}, {{{1}, {2}}}};
    mc::sweep("three_parts", few.size() * few.size() * few.size(), [&](mc::Ctx& ctx) { parts(ctx, few, 3, thorough); }, 900);

    // the storage returns something else than it should
    std::vector<std::pair<ViewDef, Sizes>> cases;
    auto add = [&](std::vector<AxisDef> a, Sizes index) {
        ViewDef v;
        v.parts.resize(1);
        v.parts[0].axes = std::move(a);
        cases.push_back({v, index});
    };
    auto ax = [&](size_t k, size_t n, int chunking) {
        AxisDef a;
        a.keys     = {keyword(k, n)};
        a.chunking = chunking;
        return a;
    };
    AxisDef two;
    two.keys = {keyword(0, 2), keyword(1, 2)};
    add({ax(0, 1, -1)}, {0, 0});
    add({ax(0, 2, -1)}, {0, 0});
    add({ax(0, 3, -1)}, {0, 0});
    add({ax(0, 3, 0)}, {1, 0});
    add({ax(0, 2, -1), ax(1, 2, -1)}, {0, 0, 0});
    add({ax(0, 2, -1), ax(1, 2, 0)}, {0, 1, 0});
    add({ax(0, 2, 0), ax(1, 3, -1)}, {1, 0, 0});
    two.chunking = -1;
    add({two}, {0, 0});
    two.chunking = 2;
    add({two}, {1, 0});
    add({two, ax(2, 2, -1)}, {1, 0, 0});
    add({ax(2, 2, 0), two}, {1, 0, 0});
    add({ax(0, 2, -1), ax(1, 3, -1)}, {0, 0, 0});
    mc::sweep("storage", cases.size(), [&](mc::Ctx& ctx) { answers(ctx, cases[ctx.idx].first, cases[ctx.idx].second); }, 600);

    std::vector<std::optional<float>> fills = {std::nullopt, -999.f, 0.f};
    mc::sweep("missing_points", fills.size(), [&](mc::Ctx& ctx) { bitmaps(ctx, fills[ctx.idx]); }, 300);

    // over real FDBs
    std::vector<ViewDef> real;
    auto view = [&](std::vector<std::vector<AxisDef>> ps, size_t extend) {
        ViewDef v;
        v.parts.resize(ps.size());
        for (size_t i = 0; i < ps.size(); ++i) {
            v.parts[i].axes  = ps[i];
            v.parts[i].level = std::to_string(i + 1);
            v.parts[i].extra = {{"number", "1"}, {"step", "0"}, {"date", "20200101"}, {"param", "130"}};
            for (auto& a : ps[i]) {
                for (auto& k : a.keys) {
                    v.parts[i].extra.erase(k.name);
                }
            }
        }
        v.extend = extend;
        real.push_back(v);
    };
    view({{ax(0, 3, -1)}}, 0);
    view({{ax(1, 3, 0)}}, 0);
    view({{ax(2, 2, -1), ax(3, 2, 0)}}, 0);
    two.chunking = 2;
    view({{two}}, 0);
    view({{ax(0, 2, -1)}, {ax(1, 2, -1)}}, 0);
    view({{ax(0, 2, 0)}, {ax(0, 1, 0)}}, 0);
    std::vector<std::array<int, 3>> work;
    for (int r = 0; r < (int)real.size(); ++r) {
        World w(real[r]);
        for (int s = 0; s < 1 << w.ids.size(); ++s) {
            for (int x = 0; x < 2; ++x) {
                work.push_back({r, s, x});
            }
        }
    }
    mc::sweep("real", work.size(), [&](mc::Ctx& ctx) {
        auto& k = work[ctx.idx];
        realFdb(ctx, real[k[0]], k[1], k[2] & 1, ctx.idx % 3 == 0);
    }, 120);

    mc::Evidence e;
    e.rule = "All definitions of views in the bounds (keywords, cardinalities, groupings, chunkings, parts, extension axis), "
             "with every chunk read in every order of the fields up to a bound; all answers of the storage with fields "
             "returned zero to two times, and 12 kinds of wrong ones; all patterns of missing points; and views of real "
             "FDBs with every subset of the fields. distinct_nontrivial counts distinct definitions and answers.";
    e.assumptions = {"the values are those that eccodes decodes from the messages"};
    return mc::finish(e);
}
