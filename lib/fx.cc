#include "fx.h"

#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/ResourceMgr.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/io/DataHandle.h"

#include "fdb5/database/FieldLocation.h"

namespace fs = std::filesystem;

namespace eckit {
class ConfigCmd {  // a friend of ResourceMgr
public:
    void set(const std::string& n, const std::string& v) { ResourceMgr::instance().set(n, v); }
};
}  // namespace eckit

namespace fx {

std::string join(const std::vector<std::string>& v, const std::string& sep) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) {
        r += (i ? sep : "") + v[i];
    }
    return r;
}

std::string str(const KV& kv) {
    std::vector<std::string> v;
    for (const auto& p : kv) {
        if (!p.second.empty()) {
            v.push_back(p.first + "=" + p.second);
        }
    }
    std::sort(v.begin(), v.end());
    return join(v, ",");
}

KV parseKV(const std::string& s) {
    KV kv;
    std::istringstream in(s);
    std::string t;
    while (std::getline(in, t, ',')) {
        auto p = t.find('=');
        if (p != std::string::npos) {
            kv.push_back({t.substr(0, p), t.substr(p + 1)});
        }
    }
    return kv;
}

std::string canon(const std::string& s) {
    return str(parseKV(s));
}

Req parseReq(const std::string& s) {
    Req r;
    for (const auto& p : parseKV(s)) {
        std::vector<std::string> vals;
        std::istringstream in(p.second);
        std::string t;
        while (std::getline(in, t, '/')) {
            vals.push_back(t);
        }
        r.push_back({p.first, vals});
    }
    return r;
}

std::string str(const Req& r) {
    std::vector<std::string> v;
    for (const auto& p : r) {
        v.push_back(p.first + "=" + join(p.second, "/"));
    }
    return join(v, ",");
}

fdb5::Key key(const KV& kv) {
    fdb5::Key k;
    for (const auto& p : kv) {
        k.set(p.first, p.second);
    }
    return k;
}

static const Spellings* spellings = nullptr;
static unsigned spellTurn         = 0;

Spelt::Spelt(const Spellings& s, unsigned turn) {
    spellings = &s;
    spellTurn = turn;
}
Spelt::~Spelt() {
    spellings = nullptr;
}

metkit::mars::MarsRequest mars(const Req& r, const std::string& verb) {
    metkit::mars::MarsRequest m(verb);
    unsigned turn = spellTurn;
    for (const auto& p : r) {
        auto vals = p.second;
        if (spellings) {
            auto k = spellings->find(p.first);
            for (auto& v : vals) {
                if (k != spellings->end() && k->second.count(v)) {
                    auto& alt = k->second.at(v);
                    auto i    = turn++ % (alt.size() + 1);
                    if (i) {
                        v = alt[i - 1];
                    }
                }
            }
        }
        m.values(p.first, vals);
    }
    return m;
}

fdb5::FDBToolRequest tool(const Req& r) {
    return fdb5::FDBToolRequest(mars(r), r.empty());
}

Req reqOf(const KV& kv) {
    Req r;
    for (const auto& p : kv) {
        r.push_back({p.first, {p.second}});
    }
    return r;
}

bool matches(const KV& f, const Req& r) {
    for (const auto& p : r) {
        bool ok = false;
        for (const auto& q : f) {
            if (q.first == p.first) {
                ok = std::find(p.second.begin(), p.second.end(), q.second) != p.second.end();
            }
        }
        if (!ok) {
            return false;
        }
    }
    return true;
}

//----------------------------------------------------------------------------------------------------------------------

const char* Setup::defaultSchema() {
    return "[ class, expver\n  [ type\n    [ step, param ]]]\n";
}

void Setup::create() const {
    fs::create_directories(dir);
    for (int i = 0; i < roots; ++i) {
        fs::create_directories(root(i));
    }
    if (separateStore) {
        fs::create_directories(storeRoot());
    }
    writeFile(dir + "/schema", schema);
}

void Setup::apply() const {
    eckit::ConfigCmd m;
    m.set("fdbBufferSize", "65536");
    if (version) {
        m.set("fdbSerialisationVersion", std::to_string(version));
    }
    if (maxDBs) {
        m.set("fdbMaxNbDBsOpen", std::to_string(maxDBs));
    }
    for (const auto& kv : resources) {
        m.set(kv.first, kv.second);
    }
}

std::string Setup::text() const {
    if (!configText.empty()) {
        return configText;
    }
    std::ostringstream s;
    s << "---\ntype: local\nengine: toc\nschema: " << dir << "/schema\nspaces:\n- handler: Default\n";
    s << (separateStore ? "  catalogueRoots:\n" : "  roots:\n");
    for (int i = 0; i < roots; ++i) {
        s << "  - path: " << root(i) << "\n";
    }
    if (separateStore) {
        s << "  storeRoots:\n  - path: " << storeRoot() << "\n";
    }
    s << extra;
    return s.str();
}

fdb5::Config Setup::config() const {
    eckit::YAMLConfiguration y(text());
    eckit::LocalConfiguration u;
    if (subtocs) {
        u.set("useSubToc", true);
    }
    for (const auto& kv : user) {
        if (kv.second == "true" || kv.second == "false") {
            u.set(kv.first, kv.second == "true");
        }
        else {
            u.set(kv.first, kv.second);
        }
    }
    return fdb5::Config(y, u);
}

std::string Setup::describe() const {
    std::ostringstream s;
    s << (subtocs ? "subtocs " : "one-toc ") << (separateStore ? "separate-store " : "") << "v" << version << " maxDBs=" << maxDBs;
    for (const auto& kv : resources) {
        s << " " << kv.first << "=" << kv.second;
    }
    for (const auto& kv : user) {
        s << " " << kv.first << "=" << kv.second;
    }
    return s.str();
}

//----------------------------------------------------------------------------------------------------------------------

std::string payload(int f, int v) {
    std::ostringstream s;
    s << "<" << f << ":" << v << ">";
    size_t fill = 11 + (f * 7 + v * 13) % 37;
    for (size_t i = 0; i < fill; ++i) {
        s << char('a' + (f * 5 + v * 3 + i) % 26);
    }
    s << "</" << f << ":" << v << ">";
    return s.str();
}

std::string identify(const std::string& b) {
    int f, v;
    if (sscanf(b.c_str(), "<%d:%d>", &f, &v) == 2 && b == payload(f, v)) {
        return std::to_string(f) + ":" + std::to_string(v);
    }
    // a sequence of fields?
    std::string out;
    size_t p = 0;
    while (p < b.size()) {
        if (sscanf(b.c_str() + p, "<%d:%d>", &f, &v) != 2) {
            break;
        }
        std::string e = payload(f, v);
        if (b.compare(p, e.size(), e) != 0) {
            break;
        }
        out += (out.empty() ? "" : "+") + std::to_string(f) + ":" + std::to_string(v);
        p += e.size();
    }
    if (p == b.size()) {
        return out;
    }
    return "damaged(" + std::to_string(b.size()) + " bytes: " + b.substr(0, 60) + ")";
}

std::string slurp(eckit::DataHandle& h, size_t chunk) {
    std::string r;
    std::vector<char> buf(chunk);
    h.openForRead();
    for (;;) {
        long n = h.read(buf.data(), (long)chunk);
        if (n <= 0) {
            if (n < 0) {
                h.close();
                throw std::runtime_error("read returned " + std::to_string(n));
            }
            break;
        }
        r.append(buf.data(), n);
    }
    h.close();
    return r;
}

std::vector<Elem> list(fdb5::FDB& fdb, const Req& r, Mode mode, int level, bool data) {
    std::vector<Elem> out;
    auto m = mode == Dedup ? fdb5::ListMode::Deduplicate : mode == Full ? fdb5::ListMode::Full : fdb5::ListMode::OnlyDuplicates;
    std::vector<fdb5::ListElement> els;
    {
        auto it = fdb.list(tool(r), m, level);
        fdb5::ListElement el;
        while (it.next(el)) {
            els.push_back(el);
        }
    }
    // (only now, so that the producer's and our file-system operations do not mix)
    for (auto& el : els) {
        Elem e;
        std::string all;
        for (int i = 0; i < 3; ++i) {
            std::vector<std::string> v;
            for (const auto& kv : el.keys()[i]) {
                if (!kv.second.empty()) {
                    v.push_back(kv.first + "=" + kv.second);
                }
            }
            std::sort(v.begin(), v.end());
            e.k[i] = join(v, ",");
            if (!e.k[i].empty()) {
                all += (all.empty() ? "" : ",") + e.k[i];
            }
        }
        e.key = canon(all);
        if (el.hasLocation()) {
            e.offset = el.location().offset();
            e.length = el.location().length();
            e.uri    = el.location().uri().asRawString();
            if (data) {
                try {
                    std::unique_ptr<eckit::DataHandle> h(el.location().dataHandle());
                    e.bytes = identify(slurp(*h));
                }
                catch (std::exception& x) {
                    e.bytes = std::string("unreadable(") + x.what() + ")";
                }
            }
        }
        out.push_back(e);
    }
    return out;
}

std::string retrieve(fdb5::FDB& fdb, const Req& r) {
    std::unique_ptr<eckit::DataHandle> h(fdb.retrieve(mars(r)));
    return identify(slurp(*h));
}
std::string retrieve(fdb5::FDB& fdb, const KV& f) {
    return retrieve(fdb, reqOf(f));
}

std::map<std::string, long long> tree(const std::string& dir) {
    std::map<std::string, long long> r;
    if (!fs::exists(dir)) {
        return r;
    }
    for (const auto& e : fs::recursive_directory_iterator(dir)) {
        std::string p = e.path().string().substr(dir.size() + 1);
        if (e.is_directory()) {
            r[p + "/"] = -1;
        }
        else {
            r[p] = (long long)fs::file_size(e.path());
        }
    }
    return r;
}

std::map<std::string, std::string> contents(const std::string& dir) {
    std::map<std::string, std::string> r;
    for (const auto& kv : tree(dir)) {
        r[kv.first] = kv.second < 0 ? "" : readFile(dir + "/" + kv.first);
    }
    return r;
}

void copyTree(const std::string& from, const std::string& to) {
    fs::copy(from, to, fs::copy_options::recursive);
}

std::string readFile(const std::string& p) {
    std::ifstream in(p, std::ios::binary);
    std::ostringstream s;
    s << in.rdbuf();
    return s.str();
}
void writeFile(const std::string& p, const std::string& s) {
    std::ofstream out(p, std::ios::binary);
    out << s;
}

}  // namespace fx
