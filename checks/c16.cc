// C16: everything written to disk or to a stream is read back unchanged.
//
// (1) every kind of object that is stored or sent, over enumerations of its members: it is encoded, decoded (to the last
//     byte), compared member by member, and encoded again to the same bytes;
// (2) entries of index files of every kind, written by one process state and read by another;
// (3) databases of all small histories, written in every format version and in mixtures of them, give the same answers;
// (4) databases kept from former times, in every format version and layout, are still read.
#include <algorithm>
#include <cstring>
#include <functional>
#include <sstream>

#include "eckit/config/LocalConfiguration.h"
#include "eckit/filesystem/URI.h"
#include "eckit/net/Endpoint.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/serialisation/Stream.h"

#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListElement.h"
#include "fdb5/api/helpers/MoveIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/database/Field.h"
#include "fdb5/database/FieldLocation.h"
#include "fdb5/database/IndexAxis.h"
#include "fdb5/database/Store.h"
#include "fdb5/database/UriStore.h"
#include "fdb5/database/WipeState.h"
#include "fdb5/remote/Messages.h"
#include "fdb5/remote/RemoteConfiguration.h"
#include "fdb5/remote/RemoteFieldLocation.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/toc/BTreeIndex.h"
#include "fdb5/toc/FieldRef.h"
#include "fdb5/toc/TocFieldLocation.h"
#include "fdb5/toc/TocIndexLocation.h"
#include "fdb5/toc/TocStats.h"

#include "mc.h"
#include "world.h"

using namespace fx;

namespace {

//------------------------------------------------------------------------------------------------------------ machinery

/// A stream to and from a string
class Bytes : public eckit::Stream {
public:
    std::string s;
    size_t at = 0;
    Bytes() {}
    explicit Bytes(const std::string& t) : s(t) {}
    long read(void* p, long n) override {
        long k = std::min<long>(n, s.size() - at);
        memcpy(p, s.data() + at, k);
        at += k;
        return k;
    }
    long write(const void* p, long n) override {
        s.append(static_cast<const char*>(p), n);
        return n;
    }
    std::string name() const override { return "Bytes"; }
};

std::string show(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else {
            r += c;
        }
    }
    return r.size() > 300 ? r.substr(0, 300) + "..." : r;
}

std::string text(const fdb5::Key& k) {
    std::string r = "{";
    for (auto& n : k.names()) {
        r += n + ",";
    }
    r += ";";
    for (auto& x : k.keyDict()) {
        r += x.first + "=" + x.second + ",";
    }
    return r + "}";
}
std::string text(const eckit::URI& u) {
    return u.scheme() + "|" + u.name() + "|" + u.hostport() + "|" + u.query() + "|" + u.fragment() + "|" + u.asRawString();
}
std::string text(const std::set<eckit::URI>& s) {
    std::vector<std::string> v;
    for (auto& u : s) {
        v.push_back(text(u));
    }
    std::sort(v.begin(), v.end());
    return "<" + join(v, "> <") + ">";
}
std::string text(const fdb5::FieldLocation& l) {
    return text(l.uri()) + " @" + std::to_string((long long)l.offset()) + "+" + std::to_string((long long)l.length()) + text(l.remapKey());
}
std::string text(const fdb5::IndexAxis& a, const std::vector<std::string>& keywords) {
    std::string r;
    for (auto& k : keywords) {
        if (!a.has(k)) {
            continue;
        }
        r += k + ":";
        for (auto& v : a.values(k)) {
            r += v + "/";
        }
        r += ";";
    }
    return r;
}

/// Encode, decode, compare, encode again. `decode` reads an object from the stream, and yields its text and what it is encoded to.
struct Decoded {
    std::string text, again;
};
void roundTrip(mc::Ctx& ctx, const std::string& what, const std::string& want, const std::function<void(eckit::Stream&)>& encode, const std::function<Decoded(eckit::Stream&)>& decode) {
    Bytes out;
    try {
        encode(out);
    }
    catch (std::exception& e) {
        ctx.fail(what + " cannot be encoded", show(want) + ": " + e.what());
        return;
    }
    // followed by something else, that is not to be touched
    Bytes tail;
    tail << std::string("the end");
    Bytes in(out.s + tail.s);
    Decoded d;
    try {
        d = decode(in);
    }
    catch (std::exception& e) {
        ctx.fail(what + " cannot be decoded", show(want) + ": " + e.what());
        return;
    }
    if (d.text != want) {
        ctx.fail(what + " is decoded to another", show(d.text) + " instead of " + show(want));
    }
    std::string rest;
    if (in.at == out.s.size()) {
        in >> rest;
    }
    if (rest != "the end") {
        ctx.fail(what + ": decoding ends elsewhere than encoding", show(want) + ": " + std::to_string(in.at) + " of " + std::to_string(out.s.size()) + " bytes read");
    }
    if (d.again != out.s) {
        ctx.fail(what + " is encoded to other bytes again", show(want) + ": " + show(d.again) + " instead of " + show(out.s));
    }
    ctx.count("objects encoded and decoded");
}
template <class T>
std::string encoded(const T& x) {
    Bytes b;
    b << x;
    return b.s;
}

//-------------------------------------------------------------------------------------------------------------- the values

const std::vector<std::string> VALUES = {"", "0", "od", "0001", "1/2", "a b", "x:y", "a=b", "%41", "\xc3\xbc", "\xff\xfe", "a,b", std::string(300, 'v'), std::string("n\nl")};
const std::vector<std::string> SHORT  = {"", "od", "\xc3\xbc", std::string(300, 'v')};
const std::vector<std::string> WORDS  = {"class", "b", "\xc3\xbc", "with space"};
const std::vector<long long> NUMBERS  = {0, 1, 255, 65536, (1LL << 31) - 1, 1LL << 31, (1LL << 32) + 5, 1LL << 62};

std::vector<eckit::URI> uris() {
    std::vector<eckit::URI> v;
    for (auto p : {"/r/a:b/x.data", "/r/with space/y.data", "/r/%20/z.data", "/r/#hash?query=1&b=2.data", "/r/\xc3\xbc/w.data", "/r/a=1,b=2/v"}) {
        v.emplace_back("file", eckit::PathName(p, false));
    }
    v.emplace_back("file", eckit::PathName("/" + std::string(300, 'd') + "/" + std::string(200, 'f'), false));
    v.emplace_back("toc", eckit::PathName("/r/a:b", false));
    v.emplace_back("fdb://host.example:7654/r/a:b/x.data?internalScheme=file");
    v.emplace_back("fdb://host.example:7654/r/a:b/x.data?internalScheme=file&internalHost=other:1");
    return v;
}

//--------------------------------------------------------------------------------------------------------------- objects

/// All keys of n keywords, in every order
void keys(mc::Ctx& ctx, int n, const std::vector<std::string>& values, uint64_t first, uint64_t count, const std::function<void(const fdb5::Key&)>& fn) {
    uint64_t total = 1;
    for (int i = 0; i < n; ++i) {
        total *= values.size();
    }
    for (uint64_t c = first; c < std::min(total, first + count); ++c) {
        std::vector<int> order;
        for (int i = 0; i < n; ++i) {
            order.push_back(i);
        }
        do {
            fdb5::Key k;
            uint64_t x = c;
            std::vector<std::string> v;
            for (int i = 0; i < n; ++i, x /= values.size()) {
                v.push_back(values[x % values.size()]);
            }
            for (int i : order) {
                k.push(WORDS[i], v[i]);
            }
            fn(k);
        } while (std::next_permutation(order.begin(), order.end()));
    }
}

void oneKey(mc::Ctx& ctx, const fdb5::Key& k) {
    roundTrip(ctx, "key", text(k), [&](eckit::Stream& s) { s << k; },
              [&](eckit::Stream& s) {
                  fdb5::Key d(s);
                  if (!(d == k)) {
                      ctx.fail("key decoded is not equal", show(text(k)));
                  }
                  fdb5::Key e;
                  e.push("before", "it was read");
                  Bytes b(encoded(k));
                  b >> e;
                  if (text(e) != text(d)) {
                      ctx.fail("key read into another keeps something of it", show(text(k)));
                  }
                  return Decoded{text(d), encoded(d)};
              });
    if (auto n = encoded(k).size(); n > k.encodeSize()) {
        ctx.fail("key takes more than it says", show(text(k)) + ": " + std::to_string(n) + " bytes, announced " + std::to_string(k.encodeSize()));
    }
}

using AxisValues = std::vector<std::pair<std::string, std::vector<std::string>>>;
void fill(fdb5::IndexAxis& a, const AxisValues& v) {
    size_t n = 0;
    for (auto& x : v) {
        n = std::max(n, x.second.size());
    }
    for (size_t i = 0; i < n; ++i) {
        fdb5::Key k;
        for (auto& x : v) {
            if (!x.second.empty()) {
                k.push(x.first, x.second[std::min(i, x.second.size() - 1)]);
            }
        }
        a.insert(k);
    }
    a.sort();
}
void oneAxis(mc::Ctx& ctx, const AxisValues& v) {
    std::vector<std::string> words;
    std::string want;
    for (auto& x : v) {
        words.push_back(x.first);
        if (!x.second.empty()) {
            want += x.first + ":";
            auto w = x.second;
            std::sort(w.begin(), w.end());
            for (auto& y : w) {
                want += y + "/";
            }
            want += ";";
        }
    }
    for (int version = 1; version <= 3; ++version) {
        if (want.empty() && version == 3) {
            continue;
        }
        fdb5::IndexAxis a;
        fill(a, v);
        auto bytes = [&](const fdb5::IndexAxis& x) {
            Bytes b;
            x.encode(b, version);
            return b.s;
        };
        roundTrip(ctx, "axes, version " + std::to_string(version), want, [&](eckit::Stream& s) { a.encode(s, version); },
                  [&](eckit::Stream& s) {
                      fdb5::IndexAxis d(s, version);
                      if (d != a || !(a == d)) {
                          ctx.fail("axes decoded are not equal", show(want));
                      }
                      return Decoded{text(d, words), bytes(d)};
                  });
        if (auto n = bytes(a).size(); n > a.encodeSize(version)) {
            ctx.fail("axes take more than they say", show(want) + ": " + std::to_string(n) + " bytes, announced " + std::to_string(a.encodeSize(version)));
        }
    }
    if (!want.empty()) {
        fdb5::Key k;
        k.push("class", "od");
        fdb5::IndexAxis a;
        fill(a, v);
        fdb5::AxesElement e(fdb5::Key(k), std::move(a));
        roundTrip(ctx, "element of an axes listing", text(k) + want, [&](eckit::Stream& s) { s << e; },
                  [&](eckit::Stream& s) {
                      fdb5::AxesElement d(s);
                      return Decoded{text(d.key()) + text(d.axes(), words), encoded(d)};
                  });
        if (auto n = encoded(e).size(); n > e.encodeSize()) {
            ctx.fail("element of an axes listing takes more than it says", show(want));
        }
    }
}

fdb5::Key remap(int i) {
    fdb5::Key k;
    if (i > 0) {
        k.push("expver", "0002");
    }
    if (i > 1) {
        k.push("class", "rd");
    }
    return k;
}

std::shared_ptr<const fdb5::FieldLocation> location(int kind, const eckit::URI& u, long long off, long long len, const fdb5::Key& k) {
    if (kind == 0) {
        return std::make_shared<fdb5::TocFieldLocation>(u, eckit::Offset(off), eckit::Length(len), k);
    }
    return std::make_shared<fdb5::remote::RemoteFieldLocation>(u, eckit::Offset(off), eckit::Length(len), k);
}
bool fits(int kind, const eckit::URI& u) {
    return u.scheme() == (kind ? "fdb" : "file");
}

void oneLocation(mc::Ctx& ctx, const eckit::URI& u, long long off, long long len, int k) {
    for (int kind = 0; kind < 2; ++kind) {
        if (!fits(kind, u)) {
            continue;
        }
        auto l           = location(kind, u, off, len, remap(k));
        std::string want = text(u) + " @" + std::to_string(off) + "+" + std::to_string(len) + text(remap(k));
        roundTrip(ctx, "field location", want, [&](eckit::Stream& s) { s << *l; },
                  [&](eckit::Stream& s) {
                      std::unique_ptr<fdb5::FieldLocation> d(eckit::Reanimator<fdb5::FieldLocation>::reanimate(s));
                      if (typeid(*d) != typeid(*l)) {
                          ctx.fail("field location is decoded to one of another kind", show(want));
                      }
                      return Decoded{text(*d), encoded(*d)};
                  });
        // copies of it
        if (text(*l->make_shared()) != want || text(*l->stableLocation()) != want) {
            ctx.fail("a copy of a field location differs", show(want));
        }
    }
}

/// The URI that says it all gives the same location again
void oneFullUri(mc::Ctx& ctx, const eckit::URI& u, long long off, long long len, int k) {
    for (int kind = 0; kind < 2; ++kind) {
        if (!fits(kind, u) || !len) {
            continue;
        }
        auto l           = location(kind, u, off, len, remap(k));
        std::string want = text(u) + " @" + std::to_string(off) + "+" + std::to_string(len) + text(remap(k));
        auto seen        = [&](const eckit::URI& full) {
            std::unique_ptr<fdb5::FieldLocation> d(fdb5::FieldLocationFactory::instance().build(full.scheme(), full));
            return d->uri().path().asString() + " @" + std::to_string((long long)d->offset()) + "+" + std::to_string((long long)d->length()) + text(d->remapKey());
        };
        std::string w = u.path().asString() + " @" + std::to_string(off) + "+" + std::to_string(len) + text(remap(k));
        try {
            if (auto g = seen(l->fullUri()); g != w) {
                ctx.fail("the full URI of a field gives another location", show(g) + " instead of " + show(w));
            }
            auto asText = l->fullUri().asRawString();
            if (u.path().asString().find_first_of("#?%") == std::string::npos) {
                if (auto g = seen(eckit::URI(asText)); g != w) {
                    ctx.fail("the full URI of a field, as text, gives another location", show(g) + " instead of " + show(w));
                }
            }
        }
        catch (std::exception& e) {
            ctx.fail("the full URI of a field gives no location", show(w) + ": " + e.what());
        }
        ctx.count("field locations by full URI");
    }
}

void oneElement(mc::Ctx& ctx, const fdb5::Key& k0, const fdb5::Key& k1, const fdb5::Key& k2, int level, const eckit::URI& u, long long number) {
    fdb5::ListElement e;
    std::string want = text(k0);
    if (level == 1) {
        e = fdb5::ListElement(k0, number);
        want += "{;}{;}";
    }
    else if (level == 2) {
        e = fdb5::ListElement(k0, k1, number);
        want += text(k1) + "{;}";
    }
    else {
        e = fdb5::ListElement(k0, k1, k2, location(u.scheme() == "fdb", u, number, number + 1, remap(number % 3)), number);
        want += text(k1) + text(k2) + text(u) + " @" + std::to_string(number) + "+" + std::to_string(number + 1) + text(remap(number % 3));
    }
    want += " " + std::to_string(number);
    roundTrip(ctx, number > INT32_MAX ? "element of a listing, at a time after January 2038," : "element of a listing", want, [&](eckit::Stream& s) { s << e; },
              [&](eckit::Stream& s) {
                  fdb5::ListElement d(s);
                  std::string t;
                  for (auto& k : d.keys()) {
                      t += text(k);
                  }
                  if (d.hasLocation()) {
                      t += text(d.location());
                  }
                  return Decoded{t + " " + std::to_string(d.timestamp()), encoded(d)};
              });
}

//------------------------------------------------------------------------------------------------------------ wipe states

std::string text(const fdb5::WipeState& w) {
    std::string r;
    for (auto& x : w.deleteMap()) {
        r += std::to_string(x.first) + text(x.second);
    }
    return r + " safe" + text(w.safeURIs()) + " unknown" + text(w.unrecognisedURIs());
}
std::string text(const fdb5::StoreWipeState& w) {
    return text(static_cast<const fdb5::WipeState&>(w)) + " store " + text(w.storeURI()) + " signed " + std::to_string(w.signature().sig_) + "/" + std::to_string(w.signature().validSignature(w.hash("secret"))) + " data" +
           text(w.includedDataURIs()) + " aux" + text(w.dataAuxiliaryURIs());
}

struct BareWipeState : public fdb5::WipeState {
    using fdb5::WipeState::WipeState;
    fdb5::WipeElements extractWipeElements() override { return {}; }
};

std::vector<eckit::URI> few(bool big) {
    auto all = uris();
    std::vector<eckit::URI> r{all[0], all[3], all[8]};
    if (big) {
        r.push_back(all[6]);
    }
    return r;
}
std::set<eckit::URI> subset(const std::vector<eckit::URI>& v, unsigned mask) {
    std::set<eckit::URI> r;
    for (size_t i = 0; i < v.size(); ++i) {
        if (mask >> i & 1) {
            r.insert(v[i]);
        }
    }
    return r;
}

/// Each URI of a few: in which of the sets it is
void wipeStates(mc::Ctx& ctx, const std::vector<int>& where, bool big) {
    auto v = few(big);
    using T = fdb5::WipeElementType;
    static const T types[] = {T::CATALOGUE, T::CATALOGUE_INDEX, T::CATALOGUE_CONTROL, T::CATALOGUE_SAFE};
    // base
    BareWipeState b;
    std::map<int, std::set<eckit::URI>> del;
    std::set<eckit::URI> safe, unknown;
    for (size_t i = 0; i < v.size(); ++i) {
        switch (where[i]) {
            case 1:
            case 2:
            case 3:
                b.markForDeletion(types[where[i] - 1], v[i]);
                del[types[where[i] - 1]].insert(v[i]);
                break;
            case 4:
                b.markAsSafe({v[i]});
                safe.insert(v[i]);
                break;
            case 5:
                b.insertUnrecognised(v[i]);
                unknown.insert(v[i]);
                break;
        }
    }
    std::string want;
    for (auto& x : del) {
        want += std::to_string(x.first) + text(x.second);
    }
    want += " safe" + text(safe) + " unknown" + text(unknown);
    roundTrip(ctx, "wipe state", want, [&](eckit::Stream& s) { s << b; },
              [&](eckit::Stream& s) {
                  BareWipeState d(s);
                  return Decoded{text(d), encoded(d)};
              });
    // of a store
    eckit::URI root("file", eckit::PathName("/r/a:b", false));
    auto store = [&](fdb5::StoreWipeState& w, int shift) {
        for (size_t i = 0; i < v.size(); ++i) {
            switch ((where[i] + shift) % 6) {
                case 1: w.includeData(v[i]); break;
                case 2: w.insertAuxiliaryURI(v[i]); break;
                case 3: w.excludeData(v[i]); break;
                case 4:
                    w.includeData(v[i]);
                    w.markAsMissing(v[i]);
                    break;
                case 5: w.insertUnrecognised(v[i]); break;
            }
        }
        w.sign("secret");
    };
    fdb5::StoreWipeState w(root);
    store(w, 0);
    std::string sw = text(w);
    if (sw.find("/1 data") == std::string::npos) {
        ctx.fail("a signed state is not valid", show(sw));
    }
    roundTrip(ctx, "wipe state of a store", sw, [&](eckit::Stream& s) { s << w; },
              [&](eckit::Stream& s) {
                  fdb5::StoreWipeState d(s);
                  return Decoded{text(d), encoded(d)};
              });
    // of a catalogue, with states of stores
    fdb5::Config config;
    for (int stores = 0; stores < 3; ++stores) {
        fdb5::Key k;
        k.push("class", "od");
        fdb5::CatalogueWipeState c(k, config);
        for (size_t i = 0; i < v.size(); ++i) {
            if (where[i] >= 1 && where[i] <= 3) {
                c.markForDeletion(types[where[i] - 1], v[i]);
            }
            else if (where[i] == 4) {
                c.markAsSafe({v[i]});
            }
            else if (where[i] == 5) {
                c.insertUnrecognised(v[i]);
            }
        }
        std::string info = stores == 1 ? "owned by someone\nelse" : "";
        c.setInfo(info);
        for (int i = 0; i < stores; ++i) {
            eckit::URI at("file", eckit::PathName("/s" + std::to_string(i), false));
            auto p = std::make_unique<fdb5::StoreWipeState>(at);
            store(*p, i);
            c.storeStates().emplace(at, std::move(p));
        }
        auto txt = [&](fdb5::CatalogueWipeState& x) {
            std::string t = text(static_cast<const fdb5::WipeState&>(x)) + text(x.dbKey());
            for (auto& y : x.storeStates()) {
                t += " at " + text(y.first) + ": " + text(*y.second);
            }
            return t;
        };
        auto infoOf = [&](fdb5::CatalogueWipeState& x) {
            std::string t;
            for (auto& e : x.extractWipeElements()) {
                if (e.type() == fdb5::CATALOGUE_INFO) {
                    t += e.msg();
                }
            }
            return t;
        };
        roundTrip(ctx, "wipe state of a catalogue", txt(c), [&](eckit::Stream& s) { s << c; },
                  [&](eckit::Stream& s) {
                      fdb5::CatalogueWipeState d(s, config);
                      Decoded r{txt(d), encoded(d)};
                      if (infoOf(d) != info) {
                          ctx.fail("the information of a wipe state is lost", info);
                      }
                      return r;
                  });
    }
}

void wipeElements(mc::Ctx& ctx, int type, unsigned mask) {
    for (auto& msg : {std::string(), std::string("Data to delete:"), std::string(5000, 'm')}) {
        auto u = subset(uris(), mask);
        std::string want = std::to_string(type) + msg + text(u);
        fdb5::WipeElement e(static_cast<fdb5::WipeElementType>(type), msg, std::set<eckit::URI>(u));
        roundTrip(ctx, "wipe element", want, [&](eckit::Stream& s) { s << e; },
                  [&](eckit::Stream& s) {
                      fdb5::WipeElement d(s);
                      return Decoded{std::to_string(d.type()) + d.msg() + text(d.uris()), encoded(d)};
                  });
    }
}

//------------------------------------------------------------------------------------------------------------- statistics

void statistics(mc::Ctx& ctx, int rotate, bool small) {
    auto num = [&](int i) { return small ? 1000000 * rotate + 1000 + i * 7 : NUMBERS[(i + rotate) % NUMBERS.size()] + i; };
    auto* is = new fdb5::TocIndexStats();
    is->fieldsCount_     = num(0);
    is->duplicatesCount_ = num(1);
    is->fieldsSize_      = num(2);
    is->duplicatesSize_  = num(3);
    auto* ds             = new fdb5::TocDbStats();
    ds->dbCount_         = num(4);
    ds->tocRecordsCount_ = num(5);
    ds->tocFileSize_     = num(6);
    ds->schemaFileSize_  = num(7);
    ds->ownedFilesSize_  = num(8);
    ds->adoptedFilesSize_ = num(9);
    ds->indexFilesSize_   = num(10);
    ds->ownedFilesCount_  = num(11);
    ds->adoptedFilesCount_ = num(12);
    ds->indexFilesCount_   = num(13);
    auto itext = [](const fdb5::TocIndexStats& x) {
        std::ostringstream o;
        o << x.fieldsCount_ << " " << x.duplicatesCount_ << " " << x.fieldsSize_ << " " << x.duplicatesSize_;
        return o.str();
    };
    auto dtext = [](const fdb5::TocDbStats& x) {
        std::ostringstream o;
        o << x.dbCount_ << " " << x.tocRecordsCount_ << " " << x.tocFileSize_ << " " << x.schemaFileSize_ << " " << x.ownedFilesSize_ << " " << x.adoptedFilesSize_ << " " << x.indexFilesSize_ << " "
          << x.ownedFilesCount_ << " " << x.adoptedFilesCount_ << " " << x.indexFilesCount_;
        return o.str();
    };
    auto large = [](std::initializer_list<size_t> l) { return *std::max_element(l.begin(), l.end()) > UINT32_MAX ? ", with a count of 2^32 or more," : ""; };
    std::string il = large({is->fieldsCount_, is->duplicatesCount_});
    std::string dl = large({ds->dbCount_, ds->tocRecordsCount_, ds->ownedFilesCount_, ds->adoptedFilesCount_, ds->indexFilesCount_});
    fdb5::IndexStats I(is);
    fdb5::DbStats D(ds);
    roundTrip(ctx, "statistics of an index" + il, itext(*is), [&](eckit::Stream& s) { s << I; },
              [&](eckit::Stream& s) {
                  auto* p = eckit::Reanimator<fdb5::IndexStatsContent>::reanimate(s);
                  fdb5::IndexStats d(p);
                  return Decoded{itext(dynamic_cast<fdb5::TocIndexStats&>(*p)), encoded(d)};
              });
    roundTrip(ctx, "statistics of a database" + dl, dtext(*ds), [&](eckit::Stream& s) { s << D; },
              [&](eckit::Stream& s) {
                  auto* p = eckit::Reanimator<fdb5::DbStatsContent>::reanimate(s);
                  fdb5::DbStats d(p);
                  return Decoded{dtext(dynamic_cast<fdb5::TocDbStats&>(*p)), encoded(d)};
              });
    auto report = [](const fdb5::StatsElement& e) {
        std::ostringstream o;
        e.indexStatistics.report(o);
        e.dbStatistics.report(o);
        return o.str();
    };
    fdb5::StatsElement e(I, D);
    roundTrip(ctx, "element of statistics" + (il.empty() ? dl : il), report(e), [&](eckit::Stream& s) { s << e; },
              [&](eckit::Stream& s) {
                  fdb5::StatsElement d(s);
                  return Decoded{report(d), encoded(d)};
              });
}

//--------------------------------------------------------------------------------------------------------------- requests

void toolRequests(mc::Ctx& ctx, const Req& r, bool all) {
    metkit::mars::MarsRequest m(ctx.idx % 2 ? "retrieve" : "list");
    for (auto& x : r) {
        m.values(x.first, x.second);
    }
    auto txt = [](const fdb5::FDBToolRequest& q) {
        std::string t = q.request().verb() + (q.all() ? " all " : " ");
        for (auto& p : q.request().params()) {
            t += p + "=" + join(q.request().values(p), "/") + ",";
        }
        return t;
    };
    std::string want = m.verb() + (all ? " all " : " ");
    std::set<std::string> names;
    for (auto& p : m.params()) {
        want += p + "=";
        for (auto& x : r) {
            if (x.first == p) {
                want += join(x.second, "/");
            }
        }
        want += ",";
    }
    fdb5::FDBToolRequest q(m, all, {});
    roundTrip(ctx, "request", want, [&](eckit::Stream& s) { s << q; },
              [&](eckit::Stream& s) {
                  fdb5::FDBToolRequest d(s);
                  return Decoded{txt(d), encoded(d)};
              });
}

void controls(mc::Ctx& ctx) {
    using CI = fdb5::ControlIdentifier;
    static const CI ids[] = {CI::List, CI::Retrieve, CI::Archive, CI::Wipe, CI::UniqueRoot};
    for (int m = 0; m < 32; ++m) {
        fdb5::ControlIdentifiers c;
        std::string want;
        for (int i = 0; i < 5; ++i) {
            if (m >> i & 1) {
                c |= ids[i];
                want += std::to_string(1 << i) + " ";
            }
        }
        auto txt = [&](const fdb5::ControlIdentifiers& x) {
            std::string t;
            for (auto i : x) {
                t += std::to_string(int(i)) + " ";
            }
            for (int i = 0; i < 5; ++i) {
                if (x.enabled(ids[i]) == bool(m >> i & 1)) {
                    t += "!" + std::to_string(i);
                }
            }
            return t;
        };
        roundTrip(ctx, "control identifiers", want, [&](eckit::Stream& s) { s << c; },
                  [&](eckit::Stream& s) {
                      fdb5::ControlIdentifiers d(s);
                      return Decoded{txt(d), encoded(d)};
                  });
        for (auto& u : uris()) {
            for (auto& v : SHORT) {
                fdb5::ControlElement e;
                e.key.push("class", v);
                e.location           = u;
                e.controlIdentifiers = c;
                roundTrip(ctx, "control element", text(e.key) + text(u) + want, [&](eckit::Stream& s) { s << e; },
                          [&](eckit::Stream& s) {
                              fdb5::ControlElement d(s);
                              return Decoded{text(d.key) + text(d.location) + txt(d.controlIdentifiers), encoded(d)};
                          });
            }
        }
    }
    for (auto a : {fdb5::ControlAction::None, fdb5::ControlAction::Disable, fdb5::ControlAction::Enable}) {
        roundTrip(ctx, "control action", std::to_string(int(a)), [&](eckit::Stream& s) { s << a; },
                  [&](eckit::Stream& s) {
                      fdb5::ControlAction d;
                      s >> d;
                      return Decoded{std::to_string(int(d)), encoded(d)};
                  });
    }
    // file copies of a move
    for (auto& a : uris()) {
        for (auto& b : SHORT) {
            fdb5::FileCopy f(a.path(), eckit::PathName("/to/" + b, false), "name" + b);
            auto txt = [](const fdb5::FileCopy& x) {
                std::ostringstream o;
                o << x;
                return o.str();
            };
            roundTrip(ctx, "copy of a file", txt(f), [&](eckit::Stream& s) { f.encode(s); },
                      [&](eckit::Stream& s) {
                          fdb5::FileCopy d(s);
                          Bytes e;
                          d.encode(e);
                          return Decoded{txt(d), e.s};
                      });
        }
    }
}

/// Which connections a client and a server support and prefer: what they agree on
void negotiation(mc::Ctx& ctx) {
    using fdb5::remote::RemoteConfiguration;
    struct Side {
        std::vector<int> n;
        int prefer;  // -1: does not say
    };
    std::vector<Side> sides;
    for (auto& n : std::vector<std::vector<int>>{{1}, {2}, {1, 2}, {}}) {
        for (int p = -1; p < 2; ++p) {
            sides.push_back({n, p});
        }
    }
    auto make = [](const Side& x) {
        eckit::LocalConfiguration c;
        if (!x.n.empty()) {
            c.set("supportedConnections", x.n);
        }
        if (x.prefer >= 0) {
            c.set("preferSingleConnection", bool(x.prefer));
        }
        return RemoteConfiguration(c);
    };
    for (auto& c : sides) {
        for (auto& v : sides) {
            auto names = [](const Side& x) {
                std::string t;
                for (int i : x.n) {
                    t += std::to_string(i);
                }
                return (t.empty() ? "-" : t) + (x.prefer < 0 ? "" : x.prefer ? " prefers one" : " prefers two");
            };
            std::vector<int> cn = c.n.empty() ? std::vector<int>{1, 2} : c.n, sn = v.n.empty() ? std::vector<int>{1, 2} : v.n, both;
            for (int i : cn) {
                if (std::count(sn.begin(), sn.end(), i)) {
                    both.push_back(i);
                }
            }
            std::string want = "refused";
            if (!both.empty()) {
                int n = both.back();
                if (both.size() == 2 && c.prefer >= 0) {
                    n = c.prefer ? 1 : 2;
                }
                want = n == 1 ? "one" : "two";
            }
            auto agree = [](RemoteConfiguration a, RemoteConfiguration b) -> std::string {
                try {
                    return RemoteConfiguration::common(a, b).singleConnection() ? "one" : "two";
                }
                catch (eckit::Exception&) {
                    return "refused";
                }
            };
            auto C = make(c), S = make(v);
            if (auto g = agree(C, S); g != want) {
                ctx.fail("client and server agree on something else", "client " + names(c) + ", server " + names(v) + ": " + g + " instead of " + want);
            }
            roundTrip(ctx, "configuration of a connection", want, [&](eckit::Stream& s) { s << C << S; },
                      [&](eckit::Stream& s) {
                          RemoteConfiguration d(s), e(s);
                          Bytes b;
                          b << d << e;
                          return Decoded{agree(d, e), b.s};
                      });
        }
    }
    // headers of messages
    for (uint32_t id : {0u, 1u, 77u, 0x7fffffffu}) {
        for (bool control : {false, true}) {
            for (uint32_t req : {0u, 1u, 0xffffffffu}) {
                for (uint32_t size : {0u, 1u, 0xffffffffu}) {
                    fdb5::remote::MessageHeader h(fdb5::remote::Message::Archive, control, id, req, size), g;
                    memcpy(static_cast<void*>(&g), &h, sizeof h);
                    if (g.control() != control || g.clientID() != id || g.requestID != req || g.payloadSize != size || g.message != fdb5::remote::Message::Archive || sizeof h != 36) {
                        ctx.fail("header of a message differs", std::to_string(id));
                    }
                    ctx.count("message headers");
                }
            }
        }
    }
}

//---------------------------------------------------------------------------------------------------------------- schemas

const char* SCHEMAS[] = {
    "[ class, date [ levtype [ step, param ]]]",
    "date: Date; step: Step; param: Param;\n[ class=od/rd, expver, date? [ levtype=!ml, type- [ step, levelist?1, param: First3 ]]]",
    "time: Time;\n[ a, b? [ c, d [ e ]] [ c=1, x [ y?z ]]]\n[ a=2, q [ r [ s, t- ]]]",
    "[ a-7, b=1 [ c?, [ d, e?, f: Integer ]]]",
    "[ class=od, stream=oper/dcda, domain? [ type, levtype [ step, levelist?, param ]]]\n[ class=rd, stream [ type=fc [ step ] ] [ type [ number, step ]]]",
};
void schemas(mc::Ctx& ctx, int i) {
    auto dump = [](const fdb5::Schema& s) {
        std::ostringstream o;
        s.dump(o);
        return o.str();
    };
    std::unique_ptr<fdb5::Schema> sp;
    try {
        std::istringstream in(SCHEMAS[i]);
        sp = std::make_unique<fdb5::Schema>(in);
    }
    catch (std::exception&) {
        ctx.count("texts that are no schema");
        return;
    }
    roundTrip(ctx, "schema", dump(*sp), [&](eckit::Stream& s) { s << *sp; },
              [&](eckit::Stream& s) {
                  std::unique_ptr<fdb5::Schema> d(eckit::Reanimator<fdb5::Schema>::reanimate(s));
                  return Decoded{dump(*d), encoded(*d)};
              });
    // what it says of itself is a schema, the same
    std::istringstream again(dump(*sp));
    fdb5::Schema t(again);
    if (dump(t) != dump(*sp)) {
        ctx.fail("a schema read from its own text differs", dump(t));
    }
}

//------------------------------------------------------------------------------------------------------- URI stores, B-trees

void uriStores(mc::Ctx& ctx, unsigned mask) {
    eckit::PathName dir("/r/a:b", false);
    auto all = uris();
    all.resize(7);  // files
    all.emplace_back("file", eckit::PathName("/r/a:b/:odd.data", false));
    std::vector<eckit::URI> in;
    fdb5::UriStore st(dir);
    std::string want;
    for (size_t i = 0; i < all.size(); ++i) {
        if (mask >> i & 1) {
            auto id = st.insert(all[i]);
            if (id != st.insert(all[i]) || id != in.size()) {
                ctx.fail("a URI is numbered otherwise", text(all[i]));
            }
            in.push_back(all[i]);
            want += all[i].path().asString() + "|" + all[i].scheme() + " ";
        }
    }
    auto txt = [&](const fdb5::UriStore& x) {
        std::string t;
        for (size_t i = 0; i < x.paths().size(); ++i) {
            t += x.get(i).path().asString() + "|" + x.get(i).scheme() + " ";
        }
        return t;
    };
    auto bytes = [](const fdb5::UriStore& x) {
        Bytes b;
        x.encode(b);
        return b.s;
    };
    roundTrip(ctx, "paths of an index", want, [&](eckit::Stream& s) { st.encode(s); },
              [&](eckit::Stream& s) {
                  fdb5::UriStore d(dir, s);
                  return Decoded{txt(d), bytes(d)};
              });
    // those in the directory itself move with it
    Bytes b(bytes(st));
    fdb5::UriStore moved(eckit::PathName("/elsewhere/c", false), b);
    std::string t;
    for (auto& u : in) {
        std::string p = u.path().asString();
        if (u.path().dirName() == dir) {
            p = "/elsewhere/c/" + std::string(u.path().baseName().asString());
        }
        t += p + "|file ";
    }
    if (txt(moved) != t) {
        ctx.fail("paths of an index that was moved differ", show(txt(moved)) + " instead of " + show(t));
    }
}

/// Entries of an index file: all are found, and visited in order, also after more have been added
void btrees(mc::Ctx& ctx, const std::string& type, size_t width, int pattern) {
    ctx.describe = type + ", pattern " + std::to_string(pattern);
    std::vector<std::string> names;
    switch (pattern) {
        case 0:
            for (auto& v : VALUES) {
                names.push_back(v.substr(0, width) );
            }
            break;
        case 1:
            for (int c = 1; c < 256; ++c) {
                names.push_back(std::string(1, char(c)));
                names.push_back(std::string(1, char(c)) + "x");
            }
            break;
        case 2:
            for (size_t n = 1; n <= width; ++n) {
                names.push_back(std::string(n, 'k'));
            }
            break;
        default:
            for (int i = 0; i < (pattern == 3 ? 5000 : 40000); ++i) {
                names.push_back("s" + std::to_string(i * 7919 % 100003) + ":p");
            }
    }
    std::sort(names.begin(), names.end());
    names.erase(std::unique(names.begin(), names.end()), names.end());
    std::string path = ctx.dir + "/x.index";
    writeFile(path, "");
    fdb5::UriStore uris(eckit::PathName(ctx.dir));
    struct Want {
        long long uri, off, len;
    };
    std::map<std::string, Want> want;
    auto number = [](size_t i, int k) { return NUMBERS[(i + k) % NUMBERS.size()] + (long long)i; };
    auto check  = [&](const fdb5::BTreeIndex& t, const std::string& when) {
        auto txt = [](long long a, long long b, long long c) { return std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c); };
        for (auto& x : want) {
            fdb5::FieldRef r;
            if (!t.get(x.first, r)) {
                ctx.fail("an entry of an index is not found", when + ": " + show(x.first));
                return;
            }
            if (auto g = txt(r.uriId(), r.offset(), r.length()), w = txt(x.second.uri, x.second.off, x.second.len); g != w) {
                ctx.fail("an entry of an index differs", when + ": " + show(x.first) + ": " + g + " instead of " + w);
                return;
            }
        }
        struct V : fdb5::BTreeIndexVisitor {
            std::vector<std::string> seen;
            void visit(const std::string& k, const fdb5::FieldRef& r) override {
                seen.push_back(k + "=" + std::to_string(r.uriId()) + " " + std::to_string((long long)r.offset()) + " " + std::to_string((long long)r.length()));
            }
        } v;
        t.visit(v);
        std::vector<std::string> w;
        for (auto& x : want) {
            w.push_back(x.first + "=" + txt(x.second.uri, x.second.off, x.second.len));
        }
        auto g = v.seen;
        std::sort(g.begin(), g.end());
        std::sort(w.begin(), w.end());
        if (g != w) {
            std::vector<std::string> lost;
            std::set_difference(w.begin(), w.end(), g.begin(), g.end(), std::back_inserter(lost));
            ctx.fail("the entries of an index are not all visited", when + ": " + std::to_string(g.size()) + " of " + std::to_string(w.size()) + ", without " + (lost.empty() ? "?" : show(lost[0])));
        }
        fdb5::FieldRef r;
        if (!want.count("absent") && t.get("absent", r)) {
            ctx.fail("an entry is found that does not exist", when);
        }
        ctx.count("index entries read back", want.size());
    };
    for (int round = 0; round < 3; ++round) {
        {
            std::unique_ptr<fdb5::BTreeIndex> t(fdb5::BTreeIndexFactory::build(type, path, false, 0));
            for (size_t i = 0; i < names.size(); ++i) {
                // the third round replaces
                if (round < 2 ? int(i % 2) != round : i % 3) {
                    continue;
                }
                long long u = i % 5, off = number(i, round), len = number(i, round + 3) + 1;
                eckit::URI uri("file", eckit::PathName(ctx.dir + "/d" + std::to_string(u)));
                fdb5::Field f(std::make_shared<fdb5::TocFieldLocation>(uri, eckit::Offset(off), eckit::Length(len), fdb5::Key()), 1);
                fdb5::FieldRef r(uris, f);
                bool known = want.count(names[i]);
                bool was   = t->set(names[i], r);
                if (known != was) {
                    ctx.fail("an entry replaces one that was not there, or does not", show(names[i]));
                }
                want[names[i]] = {(long long)r.uriId(), off, len};
                if (uris.get(r.uriId()).path() != uri.path()) {
                    ctx.fail("an entry refers to another file", show(names[i]));
                }
            }
            check(*t, "as written");
            t->flush();
        }
        std::unique_ptr<fdb5::BTreeIndex> t(fdb5::BTreeIndexFactory::build(type, path, true, 0));
        check(*t, "read again");
        t->preload();
        check(*t, "read again, preloaded");
    }
}

//-------------------------------------------------------------------------------------------------------------- databases

/// A database written in several sessions, each in the given format version: the same as of the model
void versions(mc::Ctx& ctx, const State& st, const std::vector<int>& perSession) {
    auto& u      = *st.u;
    Setup s      = st.setup;
    s.dir        = ctx.dir;
    s.schema     = u.schema;
    ctx.describe = s.describe() + "\n" + st.program + "\nversions";
    for (int v : perSession) {
        ctx.describe += " " + std::to_string(v);
    }
    s.create();
    Model m;
    m.u       = &u;
    m.subtocs = s.subtocs;
    int n     = 0;
    for (int v : perSession) {
        Setup w   = s;
        w.version = v;
        auto c    = mc::runChild([&]() {
            w.apply();
            build(w, u, st.program, m.nextVersion);
            return std::string();
        });
        if (!c.ok) {
            ctx.fail("archiving fails", "version " + std::to_string(v) + ": " + c.status() + c.out + c.log);
            return;
        }
        effect(m, st.program);
        ++n;
    }
    auto want = answers(m, true);
    for (int v : {0, 1}) {
        Setup r   = s;
        r.version = v;  // what a reader would write does not matter
        auto c    = mc::runChild([&]() {
            r.apply();
            return answers(r, u, true);
        });
        if (!c.ok || c.out != want) {
            ctx.fail("a database is not read as it was written", (c.ok ? c.out : c.status() + c.out + c.log) + "\ninstead of\n" + want);
            return;
        }
    }
    ctx.count("databases read back");
    ctx.distinct(std::to_string(std::hash<std::string>()(want)));
}

//---------------------------------------------------------------------------------------------------------- former databases

struct Golden {
    int version;
    bool subtocs, separate;
    int universe;
    std::string name() const { return "v" + std::to_string(version) + (subtocs ? "-subtocs" : "") + (separate ? "-stores" : "") + "-u" + std::to_string(universe); }
    std::string program() const { return universe == 1 ? "A0 A1 F A0 C A2 F A1 C" : "A0 A1 F A3 A0 F C A1 A2 F"; }
    Setup setup() const {
        Setup s;
        s.version       = version;
        s.subtocs       = subtocs;
        s.separateStore = separate;
        s.schema        = u().schema;
        return s;
    }
    const Universe& u() const { return *Universe::every()[universe]; }
};
std::vector<Golden> goldens() {
    std::vector<Golden> r;
    for (int v = 1; v <= 3; ++v) {
        for (int sub = 0; sub < 2; ++sub) {
            for (int u = 0; u < 3; ++u) {
                r.push_back({v, bool(sub), false, u});
            }
        }
    }
    return r;
}
std::string goldenDir() {
    const char* v = getenv("C16_GOLDEN");
    return v ? v : std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/golden";
}
/// They are moved to wherever the check runs: paths within are relative
void former(mc::Ctx& ctx, const Golden& g) {
    ctx.describe = g.name() + "\n" + g.program();
    Setup s      = g.setup();
    s.version    = 0;
    s.dir        = ctx.dir;
    s.create();
    auto cmd = "tar -xzf '" + goldenDir() + "/" + g.name() + ".tar.gz' -C '" + ctx.dir + "'";
    if (system(cmd.c_str()) != 0) {
        ctx.fail("no database from former times", g.name());
        return;
    }
    Model m;
    m.u       = &g.u();
    m.subtocs = g.subtocs;
    effect(m, g.program());
    auto want = answers(m, true);
    auto read = [&]() {
        return mc::runChild([&]() {
            s.apply();
            return answers(s, g.u(), true);
        });
    };
    auto c = read();
    if (!c.ok || c.out != want) {
        ctx.fail("a database from former times is not read", (c.ok ? c.out : c.status() + c.out + c.log) + "\ninstead of\n" + want);
        return;
    }
    // and can be added to
    c = mc::runChild([&]() {
        s.apply();
        build(s, g.u(), "A0 A2 F", m.nextVersion);
        return std::string();
    });
    effect(m, "A0 A2 F");
    want    = answers(m, true);
    auto c2 = read();
    if (!c.ok || !c2.ok || c2.out != want) {
        ctx.fail("a database from former times is not added to", c.status() + c2.out + "\ninstead of\n" + want);
    }
    ctx.count("databases from former times");
}

void writeGoldens() {
    for (auto& g : goldens()) {
        Setup s  = g.setup();
        s.dir    = mc::scratch() + "/" + g.name();
        eckit::PathName(s.dir).mkdir();
        s.create();
        mc::runChild([&]() {
            s.apply();
            build(s, g.u(), g.program());
            return std::string();
        });
        auto cmd = "tar -czf '" + goldenDir() + "/" + g.name() + ".tar.gz' -C '" + s.dir + "' root0";
        if (system(cmd.c_str()) != 0) {
            exit(2);
        }
    }
}

}  // namespace

int main(int argc, char** argv) {
    if (argc > 1 && std::string(argv[1]) == "--write-golden") {
        mc::init(1, argv, "C16", 150, 3600);
        writeGoldens();
        return 0;
    }
    mc::init(argc, argv, "C16", 150, 3600);
    const bool big = mc::opts.thorough;

    // Keys: blocks of 200
    for (int n = 0; n <= (big ? 4 : 3); ++n) {
        auto& vals   = n == 4 ? SHORT : VALUES;
        uint64_t tot = 1;
        for (int i = 0; i < n; ++i) {
            tot *= vals.size();
        }
        mc::sweep("keys-of-" + std::to_string(n), (tot + 199) / 200, [&](mc::Ctx& ctx) {
            keys(ctx, n, vals, ctx.idx * 200, 200, [&](const fdb5::Key& k) { oneKey(ctx, k); });
        });
    }
    // Axes: two or three keywords, each with any subset of some values
    {
        std::vector<std::string> pool(VALUES.begin(), VALUES.end());
        if (!big) {
            pool = {"", "0", "od", "\xc3\xbc", std::string(300, 'v')};
        }
        else {
            pool.resize(7);
            pool.push_back(std::string(300, 'v'));
        }
        uint64_t n = 1u << pool.size();
        mc::sweep("axes", n, [&](mc::Ctx& ctx) {
            auto sub = [&](uint64_t mask) {
                std::vector<std::string> v;
                for (size_t i = 0; i < pool.size(); ++i) {
                    if (mask >> i & 1) {
                        v.push_back(pool[i]);
                    }
                }
                return v;
            };
            for (uint64_t b = 0; b < n; ++b) {
                oneAxis(ctx, {{"class", sub(ctx.idx)}, {"\xc3\xbc", sub(b)}});
                if (b < 4 || big) {
                    oneAxis(ctx, {{"b", sub(b)}, {"class", sub(ctx.idx)}, {"levelist", sub(ctx.idx ^ b)}});
                }
            }
            if (ctx.idx == 0) {
                std::vector<std::string> many;
                for (int i = 0; i < 3000; ++i) {
                    many.push_back(std::to_string(i));
                }
                oneAxis(ctx, {{"step", many}});
            }
        });
    }
    auto U = uris();
    mc::sweep("locations", U.size() * NUMBERS.size(), [&](mc::Ctx& ctx) {
        for (auto len : NUMBERS) {
            for (int k = 0; k < 3; ++k) {
                oneLocation(ctx, U[ctx.idx / NUMBERS.size()], NUMBERS[ctx.idx % NUMBERS.size()], len, k);
                oneFullUri(ctx, U[ctx.idx / NUMBERS.size()], NUMBERS[ctx.idx % NUMBERS.size()], len, k);
            }
        }
    });
    mc::sweep("list-elements", U.size(), [&](mc::Ctx& ctx) {
        auto& u = U[ctx.idx];
        std::vector<fdb5::Key> ks;
        for (auto& v : SHORT) {
            fdb5::Key k;
            k.push("class", v);
            ks.push_back(k);
            k.push("b", v);
            ks.push_back(k);
        }
        for (int level = 1; level <= (u.scheme() == "toc" ? 2 : 3); ++level) {
            for (auto number : NUMBERS) {
                for (auto& a : ks) {
                    for (auto& b : level > 1 ? ks : std::vector<fdb5::Key>(1)) {
                        for (auto& c : level > 2 ? ks : std::vector<fdb5::Key>(1)) {
                            oneElement(ctx, a, b, c, level, u, number);
                        }
                    }
                }
            }
        }
    });
    {
        size_t k   = few(big).size();
        uint64_t n = 1;
        for (size_t i = 0; i < k; ++i) {
            n *= 6;
        }
        mc::sweep("wipe-states", n, [&](mc::Ctx& ctx) {
            std::vector<int> where;
            for (uint64_t x = ctx.idx, i = 0; i < k; ++i, x /= 6) {
                where.push_back(x % 6);
            }
            wipeStates(ctx, where, big);
        });
        mc::sweep("wipe-elements", 10, [&](mc::Ctx& ctx) {
            for (unsigned m = 0; m < 1u << U.size(); m += big ? 1 : 5) {
                wipeElements(ctx, ctx.idx, m);
            }
        });
    }
    mc::sweep("statistics", 2 * NUMBERS.size(), [&](mc::Ctx& ctx) { statistics(ctx, ctx.idx / 2, ctx.idx % 2 == 0); });
    {
        // each keyword absent, or with one or several values
        std::vector<std::vector<std::string>> vals{{}, {"od"}, {"\xc3\xbc"}, {"1", "2", "3"}, {std::string(300, 'v')}, {"a b", "x/y"}};
        mc::sweep("requests", vals.size() * vals.size(), [&](mc::Ctx& ctx) {
            for (size_t c = 0; c < vals.size(); ++c) {
                Req r;
                auto add = [&](const char* w, size_t i) {
                    if (i) {
                        r.push_back({w, vals[i]});
                    }
                };
                add("class", ctx.idx % vals.size());
                add("step", ctx.idx / vals.size());
                add("domain", c);
                toolRequests(ctx, r, false);
                toolRequests(ctx, r, true);
            }
        });
    }
    mc::sweep("controls", 1, controls);
    mc::sweep("connections", 1, negotiation);
    mc::sweep("schemas", sizeof SCHEMAS / sizeof *SCHEMAS, [&](mc::Ctx& ctx) { schemas(ctx, ctx.idx); });
    mc::sweep("paths-of-indexes", 1 << 8, [&](mc::Ctx& ctx) { uriStores(ctx, ctx.idx); });
    {
        std::vector<std::pair<std::string, size_t>> types{{"BTreeIndex", 32}, {"BTreeIndex64", 64}, {"PointDBIndex", 32}, {"BTreeIndex_32_65536_FieldRefFull", 32}};
        int patterns = big ? 5 : 4;
        mc::sweep("index-files", types.size() * patterns, [&](mc::Ctx& ctx) {
            auto& t = types[ctx.idx / patterns];
            btrees(ctx, t.first, t.second, ctx.idx % patterns);
        });
    }
    auto g = goldens();
    mc::sweep("former-databases", g.size(), [&](mc::Ctx& ctx) { former(ctx, g[ctx.idx]); });
    {
        auto st = states(big);
        std::vector<std::vector<int>> mixes{{1}, {2}, {3}, {1, 3}, {3, 1}, {2, 1}, {1, 2, 3}, {3, 2, 1}};
        if (big) {
            mixes = {{1}, {2}, {3}};
            for (int a = 1; a <= 3; ++a) {
                for (int b = 1; b <= 3; ++b) {
                    mixes.push_back({a, b});
                    for (int c = 1; c <= 3; ++c) {
                        mixes.push_back({a, b, c});
                    }
                }
            }
        }
        mc::sweep("format-versions", st.size() * mixes.size(), [&](mc::Ctx& ctx) { versions(ctx, st[ctx.idx / mixes.size()], mixes[ctx.idx % mixes.size()]); });
        mc::Evidence e;
        e.level = "exploration";
        e.rule  = "a scenario is a block of objects of one kind (or an index file, or a database); each object is encoded, decoded and compared, and encoded again";
        return mc::finish(e);
    }
}
