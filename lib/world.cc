#include "world.h"

#include <algorithm>
#include <sstream>

#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/StatusIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"

#include "mc.h"

using CI = fdb5::ControlIdentifier;

namespace fx {

std::string fv(int f, int v) {
    return std::to_string(f) + ":" + std::to_string(v);
}

KV Universe::all(int f) const {
    KV r;
    for (auto& part : fields[f]) {
        r.insert(r.end(), part.begin(), part.end());
    }
    return r;
}

int Universe::find(const std::string& k) const {
    for (size_t f = 0; f < fields.size(); ++f) {
        if (str(all(f)) == k) {
            return f;
        }
    }
    return -1;
}

const Universe& Universe::plain() {
    static const Universe u = [] {
        Universe u;
        u.schema = "[ class, expver\n  [ type\n    [ step, param ]]]\n";
        auto add = [&](const char* c, const char* e, const char* t, const char* s, const char* p) {
            u.fields.push_back({KV{{"class", c}, {"expver", e}}, KV{{"type", t}}, KV{{"step", s}, {"param", p}}});
        };
        add("od", "1", "an", "0", "t");
        add("od", "1", "an", "6", "u");
        add("od", "1", "ana", "0", "t");
        add("odx", "1", "an", "0", "t");
        add("od", "12", "an", "6", "t");
        add("od", "1", "an", "0", "u");
        return u;
    }();
    return u;
}

const Universe& Universe::mixed() {
    static const Universe u = [] {
        Universe u;
        u.schema =
            "[ class=od, expver\n  [ type\n    [ step, param ]]]\n"
            "[ class=odx, expver\n  [ type, stream?\n    [ param, number, step? ]]]\n";
        auto add = [&](KV a, KV b, KV c) { u.fields.push_back({a, b, c}); };
        add({{"class", "od"}, {"expver", "1"}}, {{"type", "an"}}, {{"step", "0"}, {"param", "t"}});
        add({{"class", "od"}, {"expver", "1"}}, {{"type", "an"}}, {{"step", "6"}, {"param", "t"}});
        add({{"class", "odx"}, {"expver", "1"}}, {{"type", "an"}}, {{"param", "t"}, {"number", "0"}});
        add({{"class", "odx"}, {"expver", "1"}}, {{"type", "an"}, {"stream", "s"}}, {{"param", "t"}, {"number", "0"}, {"step", "0"}});
        add({{"class", "odx"}, {"expver", "1"}}, {{"type", "an"}, {"stream", "s"}}, {{"param", "t"}, {"number", "0"}, {"step", "6"}});
        add({{"class", "odx"}, {"expver", "1"}}, {{"type", "an"}}, {{"param", "t"}, {"number", "0"}, {"step", "0"}});
        u.fallback[5] = 2;
        return u;
    }();
    return u;
}

const Universe& Universe::typed() {
    static const Universe u = [] {
        Universe u;
        u.schema = "time: Time; step: Step; latitude: Double;\n[ class, time\n  [ type, number\n    [ step, latitude ]]]\n";
        auto add = [&](const char* c, const char* t, const char* y, const char* n, const char* s, const char* l) {
            u.fields.push_back({KV{{"class", c}, {"time", t}}, KV{{"type", y}, {"number", n}}, KV{{"step", s}, {"latitude", l}}});
        };
        add("od", "0000", "an", "1", "0", "500");
        add("od", "0000", "an", "1", "6", "0.5");
        add("od", "0000", "fc", "1", "0", "500");
        add("rd", "0000", "an", "1", "0", "500");
        add("od", "1200", "an", "2", "6", "500");
        add("od", "0000", "an", "1", "0", "0.5");
        u.spell["class"]    = {{"od", {"OD", "Od"}}, {"rd", {"RD"}}};
        u.spell["time"]     = {{"0000", {"0", "00", "00:00"}}, {"1200", {"12", "12:00"}}, {"0600", {"6", "06"}}};
        u.spell["type"]     = {{"an", {"AN"}}, {"fc", {"Fc"}}};
        u.spell["step"]     = {{"0", {"0h", "00"}}, {"6", {"6h", "360m"}}};
        u.spell["latitude"] = {{"500", {"500.0", "5e2"}}, {"0.5", {"0.50", "5e-1"}}};
        u.unknown           = {{"time", "0600"}, {"step", "12"}, {"latitude", "7"}};
        return u;
    }();
    return u;
}

std::map<int, int> Model::visible() const {
    std::map<int, int> r;
    for (auto& p : indexes) {
        for (auto& e : p.entries) {
            r[e.first] = e.second;
        }
    }
    return r;
}

std::vector<std::pair<int, int>> Model::all() const {
    std::vector<std::pair<int, int>> r;
    for (auto& p : indexes) {
        r.insert(r.end(), p.entries.begin(), p.entries.end());
    }
    return r;
}

void Model::removeIndex(const std::string& index) {
    indexes.erase(std::remove_if(indexes.begin(), indexes.end(), [&](const Physical& p) { return p.index == index; }), indexes.end());
}
void Model::removeDB(const std::string& db) {
    indexes.erase(std::remove_if(indexes.begin(), indexes.end(), [&](const Physical& p) { return p.db == db; }), indexes.end());
}

std::set<std::string> Model::dbs() const {
    std::set<std::string> r;
    for (auto& p : indexes) {
        r.insert(p.db);
    }
    return r;
}

static bool has(const KV& kv, const std::string& k, const std::vector<std::string>& vals) {
    for (auto& p : kv) {
        if (p.first == k) {
            return std::find(vals.begin(), vals.end(), p.second) != vals.end();
        }
    }
    return false;
}
static bool keyword(const KV& kv, const std::string& k) {
    for (auto& p : kv) {
        if (p.first == k) {
            return true;
        }
    }
    return false;
}

bool Model::dbMatches(const std::string& db, const Req& r) const {
    KV kv = parseKV(db);
    for (auto& p : r) {
        if (keyword(kv, p.first) && !has(kv, p.first, p.second)) {
            return false;
        }
    }
    return true;
}

bool Model::indexMatches(const Physical& ph, const Req& r) const {
    KV kv = parseKV(ph.db);
    for (auto& p : parseKV(ph.index.substr(ph.index.find('|') + 1))) {
        kv.push_back(p);
    }
    for (auto& p : r) {
        if (keyword(kv, p.first)) {
            if (!has(kv, p.first, p.second)) {
                return false;
            }
            continue;
        }
        bool some = false;
        for (auto& e : ph.entries) {
            some |= has(u->fields[e.first][2], p.first, p.second);
        }
        if (!some) {
            return false;
        }
    }
    return true;
}

void build(const Setup& s, const Universe& u, const std::string& program, int v) {
    std::map<int, std::unique_ptr<fdb5::FDB>> fdbs;
    int writer = 0;
    std::istringstream in(program);
    std::string w;
    while (in >> w) {
        if (w[0] == 'w') {
            writer = atoi(w.c_str() + 1);
            continue;
        }
        auto& fdb = fdbs[writer];
        if (w[0] == 'C') {
            fdb.reset();
            continue;
        }
        if (!fdb) {
            fdb.reset(new fdb5::FDB(s.config()));
        }
        if (w[0] == 'F') {
            fdb->flush();
        }
        else {
            int f            = atoi(w.c_str() + 1);
            std::string data = payload(f, v++);
            fdb->archive(key(u.all(f)), data.data(), data.size());
        }
    }
    for (auto& fdb : fdbs) {
        if (fdb.second) {
            fdb.second->flush();
            fdb.second.reset();
        }
    }
}

void effect(Model& m, const std::string& program) {
    struct Writer {
        // per index, in the order of their keys, as they are flushed
        std::map<std::string, Physical> open, whole;
        int session = 0;
    };
    std::map<int, Writer> writers;
    int writer = 0, sessions = 0;
    for (auto& p : m.indexes) {
        sessions = std::max(sessions, p.session);
    }
    auto step = [&](const std::string& w) {
        auto& x = writers[writer];
        if (!x.session) {
            x.session = ++sessions;
        }
        if (w[0] == 'A') {
            int f        = atoi(w.c_str() + 1);
            auto& p      = x.open[m.u->index(f)];
            p.db         = m.u->db(f);
            p.index      = m.u->index(f);
            p.session    = x.session;
            p.entries[f] = m.nextVersion++;
            return;
        }
        for (auto& o : x.open) {
            if (m.subtocs) {
                auto& p   = x.whole[o.first];
                p.db      = o.second.db;
                p.index   = o.second.index;
                p.session = x.session;
                for (auto& e : o.second.entries) {
                    p.entries[e.first] = e.second;
                }
            }
            else {
                m.indexes.push_back(o.second);
            }
        }
        x.open.clear();
        if (w[0] == 'C') {
            for (auto& o : x.whole) {
                m.indexes.push_back(o.second);
            }
            x.whole.clear();
            x.session = 0;
        }
    };
    std::istringstream in(program);
    std::string w;
    while (in >> w) {
        if (w[0] == 'w') {
            writer = atoi(w.c_str() + 1);
        }
        else {
            step(w);
        }
    }
    for (auto& x : writers) {
        writer = x.first;
        step("F");
        step("C");
    }
}

void Model::purge(const Req& r) {
    std::set<int> seen;
    for (size_t i = indexes.size(); i-- > 0;) {
        auto& p = indexes[i];
        if (!dbMatches(p.db, r)) {
            continue;
        }
        bool visible = false;
        for (auto& e : p.entries) {
            visible |= seen.insert(e.first).second;
        }
        if (!visible) {
            indexes.erase(indexes.begin() + i);
        }
    }
}

std::set<std::string> Model::indexFiles() const {
    std::set<std::string> r;
    for (auto& p : indexes) {
        r.insert(p.index + "#" + std::to_string(p.session));
    }
    return r;
}

std::vector<Req> requests(const Domain& d) {
    std::vector<Req> r{{}};
    for (auto& k : d) {
        std::vector<Req> n;
        for (auto& q : r) {
            n.push_back(q);
            for (auto& vals : k.second) {
                Req x = q;
                x.push_back({k.first, vals});
                n.push_back(x);
            }
        }
        r.swap(n);
    }
    return r;
}

Domain domain(const Universe& u, bool unknown) {
    Domain d;
    std::map<std::string, std::set<std::string>> vals;
    std::vector<std::string> order;
    for (size_t f = 0; f < u.size(); ++f) {
        for (auto& p : u.all(f)) {
            if (!vals.count(p.first)) {
                order.push_back(p.first);
            }
            vals[p.first].insert(p.second);
        }
    }
    for (auto& k : order) {
        std::vector<std::vector<std::string>> v;
        for (auto& x : vals[k]) {
            v.push_back({x});
        }
        if (vals[k].size() > 1) {
            v.push_back(std::vector<std::string>(vals[k].begin(), vals[k].end()));
        }
        if (unknown) {
            auto z = u.unknown.find(k);
            v.push_back({z == u.unknown.end() ? "zz" : z->second});
        }
        d.push_back({k, v});
    }
    return d;
}

std::vector<std::string> listing(fdb5::FDB& fdb, const Universe& u, const Req& r, Mode mode) {
    std::vector<std::string> out;
    for (auto& e : list(fdb, r, mode)) {
        int f, v;
        if (sscanf(e.bytes.c_str(), "%d:%d", &f, &v) == 2 && e.bytes == fv(f, v) && f < (int)u.size() && u.find(e.key) == f) {
            out.push_back(e.bytes);
        }
        else {
            out.push_back("!" + e.key + " has " + e.bytes);
        }
    }
    std::sort(out.begin(), out.end());
    return out;
}

std::vector<std::string> listing(const Setup& s, const Universe& u, const Req& r, Mode mode) {
    fdb5::FDB fdb(s.config());
    return listing(fdb, u, r, mode);
}

static std::string text(const std::vector<std::string>& l, const std::vector<std::string>& full, const std::vector<std::string>& got) {
    return "list: " + join(l, " ") + (full.empty() ? "" : "; full: " + join(full, " ")) + "; retrieve: " + join(got, " ");
}

std::string answers(const Setup& s, const Universe& u, bool full) {
    std::vector<std::string> l, fl, got;
    fdb5::FDB fdb(s.config());
    try {
        l = listing(fdb, u, {}, Dedup);
    }
    catch (std::exception& e) {
        l = {std::string("exception ") + e.what()};
    }
    if (full) {
        try {
            fl = listing(fdb, u, {}, Full);
        }
        catch (std::exception& e) {
            fl = {std::string("exception ") + e.what()};
        }
        fl.insert(fl.begin(), ">");
    }
    for (size_t f = 0; f < u.size(); ++f) {
        std::string r;
        try {
            r = retrieve(fdb, u.all(f));
        }
        catch (std::exception& e) {
            r = std::string("exception ") + e.what();
        }
        if (!r.empty()) {
            got.push_back(r.rfind(std::to_string(f) + ":", 0) == 0 && r.find('+') == std::string::npos ? r : "!" + std::to_string(f) + " gives " + r);
        }
    }
    return text(l, fl, got);
}

std::string answers(const Model& m, bool full) {
    std::vector<std::string> l, fl;
    std::vector<std::string> got;
    auto vis = m.visible();
    for (auto& e : vis) {
        l.push_back(fv(e.first, e.second));
        got.push_back(fv(e.first, e.second));
    }
    for (auto& e : m.u->fallback) {
        if (!vis.count(e.first) && vis.count(e.second)) {
            got.push_back("!" + std::to_string(e.first) + " gives " + fv(e.second, vis[e.second]));
        }
    }
    std::sort(l.begin(), l.end());
    if (full) {
        for (auto& e : m.all()) {
            fl.push_back(fv(e.first, e.second));
        }
        std::sort(fl.begin(), fl.end());
        fl.insert(fl.begin(), ">");
    }
    return text(l, fl, got);
}

std::string dirOf(const std::string& db) {
    std::vector<std::string> v;
    for (auto& p : parseKV(db)) {
        v.push_back(p.second);
    }
    return join(v, ":");
}


Result wipe(const Setup& s, const Req& r, bool doit, bool unsafe) {
    auto c = mc::runChild([&]() {
        s.apply();
        fdb5::FDB fdb(s.config());
        auto it = fdb.wipe(tool(r), doit, false, unsafe);
        fdb5::WipeElement e;
        std::string out;
        while (it.next(e)) {
            bool del = e.type() == fdb5::CATALOGUE || e.type() == fdb5::CATALOGUE_INDEX || e.type() == fdb5::STORE ||
                       e.type() == fdb5::STORE_AUX || e.type() == fdb5::CATALOGUE_CONTROL;
            for (auto& u : e.uris()) {
                out += (del ? "D " : "K ") + u.path().asString() + "\n";
            }
        }
        return out;
    });
    if (!c.ok && c.code != 3) {
        return {false, "!" + c.status() + c.log};
    }
    return {c.ok, c.out};
}

Result control(const Setup& s, const Req& r, bool enable, const fdb5::ControlIdentifiers& ids) {
    auto c = mc::runChild([&]() {
        s.apply();
        fdb5::FDB fdb(s.config());
        auto it = fdb.control(tool(r), enable ? fdb5::ControlAction::Enable : fdb5::ControlAction::Disable, ids);
        fdb5::ControlElement e;
        int n = 0;
        while (it.next(e)) {
            ++n;
        }
        return std::to_string(n);
    });
    return {c.ok, c.status() + c.out};
}

std::string statusOf(const Setup& s) {
    return mc::runChild([&]() {
               s.apply();
               fdb5::FDB fdb(s.config());
               auto it = fdb.status(tool({}));
               fdb5::StatusElement e;
               std::vector<std::string> l;
               while (it.next(e)) {
                   std::string t = e.location.path().baseName().asString();
                   for (CI id : {CI::List, CI::Retrieve, CI::Archive, CI::Wipe, CI::UniqueRoot}) {
                       t += e.controlIdentifiers.enabled(id) ? "+" : "-";
                   }
                   l.push_back(t);
               }
               std::sort(l.begin(), l.end());
               return join(l, " ");
           }).out;
}

/// Effect of a confirmed wipe on the model; databases it removes altogether go into `gone`, indexes into `goneIdx`
void Model::wipe(const Req& r, std::set<std::string>& gone, std::set<std::string>& goneIdx) {
    Model& m = *this;
    std::map<std::string, bool> whole;
    std::set<std::string> indexes;
    for (auto& p : m.indexes) {
        if (!m.dbMatches(p.db, r)) {
            continue;
        }
        KV idx   = parseKV(p.index.substr(p.index.find('|') + 1));
        KV db    = parseKV(p.db);
        bool all = true;
        for (auto& q : r) {
            bool inDB = std::any_of(db.begin(), db.end(), [&](auto& kv) { return kv.first == q.first; });
            if (!inDB && !matches(idx, {q})) {
                all = false;
            }
        }
        if (!whole.count(p.db)) {
            whole[p.db] = true;
        }
        if (all) {
            indexes.insert(p.index);
        }
        else {
            whole[p.db] = false;
        }
    }
    for (auto& w : whole) {
        if (w.second) {
            gone.insert(w.first);
        }
    }
    for (auto& i : indexes) {
        goneIdx.insert(i);
        m.removeIndex(i);
    }
}

std::string seen(const Setup& s, const Universe& u) {
    auto c = mc::runChild([&]() {
        s.apply();
        return answers(s, u, true);
    });
    return c.ok ? c.out : "!" + c.status() + c.out + c.log;
}

std::map<std::string, std::string> files(const Setup& s) {
    auto r = contents(s.root());
    if (s.separateStore) {
        for (auto& kv : contents(s.storeRoot())) {
            r["store/" + kv.first] = kv.second;
        }
    }
    return r;
}

std::string changes(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
    std::string r;
    for (auto& kv : a) {
        auto it = b.find(kv.first);
        if (it == b.end()) {
            r += " -" + kv.first;
        }
        else if (it->second != kv.second) {
            r += " *" + kv.first;
        }
    }
    for (auto& kv : b) {
        if (!a.count(kv.first)) {
            r += " +" + kv.first;
        }
    }
    return r;
}

std::string programOf(const std::vector<int>& fs, int pattern) {
    std::string p;
    switch (pattern) {
        case 0:
            for (int f : fs) {
                p += "A" + std::to_string(f) + " ";
            }
            return p + "F C";
        case 1:
            for (int f : fs) {
                p += "A" + std::to_string(f) + " F ";
            }
            return p + "C";
        case 2:
            return programOf(fs, 0) + " " + programOf({fs.rbegin(), fs.rend()}, 0);
        default:
            for (size_t i = 0; i < fs.size(); ++i) {
                p += "A" + std::to_string(fs[i]) + (i % 2 ? " F " : " ");
            }
            for (size_t i = fs.size(); i-- > 0;) {
                if (fs[i] % 2 == 0) {
                    p += "A" + std::to_string(fs[i]) + " A" + std::to_string(fs[i]) + " ";
                }
            }
            p += "F C ";
            for (size_t i = 0; i < fs.size(); i += 2) {
                p += "A" + std::to_string(fs[i]) + " ";
            }
            return p + "F C";
    }
}

std::vector<State> states(bool thorough) {
    std::vector<State> states;
    for (auto* u : Universe::every()) {
        for (int subset = 0; subset < 64; ++subset) {
            if (!thorough && u == &Universe::typed() && subset != 63 && subset % 13 != 6) {
                continue;
            }
            if (!thorough && subset != 63 && __builtin_popcount(subset) > 2 && subset % 7) {
                continue;
            }
            std::vector<int> fs;
            for (int f = 0; f < 6; ++f) {
                if (subset >> f & 1) {
                    fs.push_back(f);
                }
            }
            for (int pattern = 0; pattern < 4; ++pattern) {
                for (int layout = 0; layout < 3; ++layout) {
                    if (!thorough && (subset + pattern) % 3 != layout || (subset + pattern) % 4 == 3 && subset != 63) {
                        continue;
                    }
                    State st;
                    st.u                 = u;
                    st.program           = programOf(fs, pattern);
                    st.setup.subtocs     = layout == 1;
                    st.setup.separateStore = layout == 2;
                    states.push_back(st);
                }
            }
        }
    }
    return states;
}

}  // namespace fx
