// C15: every key resolves through the schema deterministically and invertibly.
//
// All schemas of a bounded grammar x all field descriptions over a small universe of keywords and values, against a
// reference matcher: where a description is placed, that no two descriptions are placed together, that the place can be
// read back and is reached by a request; the same for the schema after it has been printed and parsed, and after it has
// been sent through a stream. Values of every type and their spellings. Some schemas with real databases.
#include <algorithm>
#include <optional>
#include <sstream>

#include "eckit/os/BackTrace.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/io/Buffer.h"
#include "fdb5/database/ReadVisitor.h"
#include "fdb5/database/WriteVisitor.h"
#include "fdb5/rules/Rule.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/types/Type.h"
#include "fdb5/types/TypesFactory.h"
#include "fdb5/types/TypesRegistry.h"
#include "mc.h"
#include "fx.h"

using namespace fx;

// (exceptions are frequent here)
namespace eckit {
std::string BackTrace::dump() {
    return "";
}
}  // namespace eckit

namespace {

//------------------------------------------------------------------------------------------------------------- reference

enum Kind { Always, Value, Any, Not, NotAny, Opt, OptDef, Hidden, HiddenDef };
const Kind kinds[] = {Always, Value, Any, Not, NotAny, Opt, OptDef, Hidden, HiddenDef};

struct Pred {
    char kw;
    Kind kind;
    std::string text() const {
        static const char* t[] = {"", "=1", "=2/3", "=!1", "=!2/3", "?", "?1", "-", "-1"};
        return std::string(1, kw) + t[kind];
    }
    bool accepts(int v) const {
        switch (kind) {
            case Value:
                return v == 1;
            case Any:
                return v == 2;
            case Not:
                return v != 1;
            case NotAny:
                return v != 2;
            default:
                return true;
        }
    }
    bool hidden() const { return kind == Hidden || kind == HiddenDef; }
    bool required() const { return kind < Opt; }
};
using Level = std::vector<Pred>;
struct IndexRule {
    Level index, datum;
};
struct DbRule {
    Level db;
    std::vector<IndexRule> rules;
};
using Sch = std::vector<DbRule>;

std::string text(const Level& l) {
    std::string r;
    for (auto& p : l) {
        r += (r.empty() ? "" : ", ") + p.text();
    }
    return r;
}
std::string text(const Sch& s) {
    std::string r;
    for (auto& d : s) {
        r += "[ " + text(d.db);
        for (auto& i : d.rules) {
            r += " [ " + text(i.index) + " [ " + text(i.datum) + " ]]";
        }
        r += " ]\n";
    }
    return r;
}

const char keywords[] = "abcdefgh";
using Field           = std::array<int, 8>;  ///< value of each keyword; 0: absent
std::string text(const Field& f) {
    std::string r;
    for (int i = 0; i < 8; ++i) {
        if (f[i]) {
            r += (r.empty() ? "" : ",") + std::string(1, keywords[i]) + "=" + std::to_string(f[i]);
        }
    }
    return r;
}
fdb5::Key keyOf(const Field& f) {
    fdb5::Key k;
    for (int i = 0; i < 8; ++i) {
        if (f[i]) {
            k.push(std::string(1, keywords[i]), std::to_string(f[i]));
        }
    }
    return k;
}

using Part = std::vector<std::pair<char, int>>;  ///< keyword, value (0: empty)
std::string text(const Part& p) {
    std::string r;
    for (auto& [k, v] : p) {
        r += std::string(1, k) + "=" + (v ? std::to_string(v) : "") + ",";
    }
    return r;
}

struct NoField {};  ///< a keyword is needed that the description does not have

/// The part of a description that a level takes; nothing if it does not accept it
std::optional<Part> take(const Level& l, const Field& f) {
    size_t n = 0;
    for (int v : f) {
        n += v != 0;
    }
    if (n < l.size()) {
        return {};
    }
    Part r;
    for (auto& p : l) {
        int v = f[p.kw - 'a'];
        if (p.hidden()) {
            v = 0;
        }
        else if (!v) {
            if (p.kind == Value || p.kind == Any) {
                return {};
            }
            if (p.required()) {
                throw NoField();
            }
        }
        else if (!p.accepts(v)) {
            return {};
        }
        r.push_back({p.kw, v});
    }
    return r;
}
/// Is it a level of this part?
bool describes(const Level& l, const Part& part) {
    for (auto& p : l) {
        auto it = std::find_if(part.begin(), part.end(), [&](auto& x) { return x.first == p.kw; });
        if (it == part.end()) {
            if (p.kind == Value || p.kind == Any) {
                return false;
            }
        }
        else if (!it->second) {
            if (p.kind == Value || p.kind == Any) {
                return false;
            }
        }
        else if (!p.accepts(it->second)) {
            return false;
        }
    }
    return true;
}

struct Place {
    Part db, index, datum;
    int rule = 0, sub = 0;  ///< of the schema
    std::string str() const { return text(db) + "|" + text(index) + "|" + text(datum); }
};

/// Where it belongs: the first rule that takes it. Nothing: it is refused.
std::optional<Place> resolve(const Sch& s, const Field& f) {
    try {
        for (auto& rule : s) {
            auto db = take(rule.db, f);
            if (!db) {
                continue;
            }
            // within a database, the rule is that of the database
            size_t own = 0;
            while (!describes(s[own].db, *db)) {
                ++own;
            }
            auto& subs = s[own].rules;
            for (size_t i = 0; i < subs.size(); ++i) {
                auto index = take(subs[i].index, f);
                if (!index) {
                    continue;
                }
                auto datum = take(subs[i].datum, f);
                if (!datum) {
                    continue;
                }
                Place p{*db, *index, *datum, (int)own, (int)i};
                for (int k = 0; k < 8; ++k) {
                    auto has = [&](const Part& x) {
                        return std::any_of(x.begin(), x.end(), [&](auto& kv) { return kv.first == keywords[k]; });
                    };
                    if (f[k] && !has(p.db) && !has(p.index) && !has(p.datum)) {
                        return {};  // a keyword would be lost
                    }
                }
                return p;
            }
        }
    }
    catch (NoField&) {
    }
    return {};
}

//------------------------------------------------------------------------------------------------------------------ real

std::string ordered(const fdb5::Key& k) {
    std::string r;
    for (auto& n : k.names()) {
        r += n + "=" + k.get(n) + ",";
    }
    return r;
}

std::vector<fdb5::Key> previous;
class Recorder : public fdb5::WriteVisitor {
public:
    Recorder(const fdb5::Schema& s, const fdb5::Key& field) : WriteVisitor(previous), schema_(s), field_(field) {}
    bool selectDatabase(const fdb5::Key& k, const fdb5::Key&) override {
        db = k;
        return true;
    }
    bool selectIndex(const fdb5::Key& k) override {
        index = k;
        return true;
    }
    bool createIndex(const fdb5::Key&, size_t) override { return true; }
    bool selectDatum(const fdb5::Key& k, const fdb5::Key& f) override {
        f.validateKeys(field_);
        datum = k;
        full  = f;
        ++places;
        return true;
    }
    const fdb5::Schema& databaseSchema() const override { return schema_; }
    void print(std::ostream&) const override {}
    fdb5::Key db, index, datum, full;
    int places = 0;
    std::string str() const { return ordered(db) + "|" + ordered(index) + "|" + ordered(datum); }

private:
    const fdb5::Schema& schema_;
    const fdb5::Key& field_;
};

class Reader : public fdb5::ReadVisitor {
public:
    explicit Reader(const fdb5::Schema& s) : schema_(s) {}
    bool selectDatabase(const fdb5::Key& k, const fdb5::Key&) override {
        db = ordered(k);
        return true;
    }
    bool selectIndex(const fdb5::Key& k) override {
        index = ordered(k);
        return true;
    }
    bool selectDatum(const fdb5::Key& k, const fdb5::Key&) override {
        places.insert(db + "|" + index + "|" + ordered(k));
        return true;
    }
    void deselectDatabase() override {}
    const fdb5::Schema& databaseSchema() const override { return schema_; }
    void print(std::ostream&) const override {}
    std::string db, index;
    std::set<std::string> places;

private:
    const fdb5::Schema& schema_;
};

/// Where the code places it; empty: refused
std::string place(const fdb5::Schema& s, const fdb5::Key& k, Recorder& v) {
    try {
        s.expand(k, v);
    }
    catch (std::exception& e) {
        return "";
    }
    if (!v.rule()) {
        return "";
    }
    return v.places == 1 ? v.str() : std::to_string(v.places) + " places";
}

std::string values(const fdb5::Key& k) {
    return k.valuesToString();
}

std::string nonEmpty(const fdb5::Key& k) {
    std::string r;
    for (auto& n : k.names()) {
        if (!k.get(n).empty()) {
            r += n + "=" + k.get(n) + ",";
        }
    }
    return r;
}

struct Copies {
    fdb5::Schema original, printed, sent;
    std::string dump;
};

/// All fields over the keywords, given the schema
void check(mc::Ctx& ctx, const Sch& s, const std::string& kws) {
    std::string t = text(s);
    ctx.describe  = t;
    Copies c;
    bool stop = false;
    auto bad  = [&](const std::string& what, const std::string& detail) {
        ctx.fail(what + ": " + t, detail);
        stop = true;
    };
    try {
        std::istringstream in(t);
        c.original.load(in);
        std::ostringstream out;
        c.original.dump(out);
        c.dump = out.str();
    }
    catch (std::exception& e) {
        return bad("a schema is refused", e.what());
    }
    try {
        std::istringstream in(c.dump);
        c.printed.load(in);
    }
    catch (std::exception& e) {
        return bad("a printed schema is refused", c.dump + ": " + e.what());
    }
    eckit::Buffer b(4096);
    eckit::ResizableMemoryStream to(b);
    to << c.original;
    eckit::MemoryStream from(b);
    std::unique_ptr<fdb5::Schema> sent(eckit::Reanimator<fdb5::Schema>::reanimate(from));
    for (auto* x : {&c.printed, sent.get()}) {
        std::ostringstream out;
        x->dump(out);
        if (out.str() != c.dump) {
            return bad(x == sent.get() ? "a sent schema differs" : "a printed schema differs", c.dump + " -> " + out.str());
        }
    }
    std::map<std::string, std::pair<Field, Place>> taken;
    Field f{};
    size_t n = 1;
    for (size_t i = 0; i < kws.size(); ++i) {
        n *= 3;
    }
    for (size_t x = 0; x < n; ++x) {
        size_t y = x;
        for (char k : kws) {
            f[k - 'a'] = y % 3;
            y /= 3;
        }
        ctx.count("descriptions");
        auto key      = keyOf(f);
        auto expected = resolve(s, f);
        Recorder v(c.original, key);
        std::string got = place(c.original, key, v), want = expected ? expected->str() : "";
        if (got != want) {
            return bad("misplaced", text(f) + " is placed at '" + got + "' instead of '" + want + "'");
        }
        Recorder v2(c.printed, key), v3(*sent, key);
        std::string p2 = place(c.printed, key, v2), p3 = place(*sent, key, v3);
        if (p2 != got) {
            return bad("misplaced by the printed schema", text(f) + " is placed at '" + p2 + "' instead of '" + got + "' with " + c.dump);
        }
        if (p3 != got) {
            return bad("misplaced by the sent schema", text(f) + " is placed at '" + p3 + "' instead of '" + got + "'");
        }
        if (!expected) {
            ctx.count("refused");
            continue;
        }
        ctx.count("placed");
        // the parts make up the description
        if (ordered(v.full) != ordered(v.db) + ordered(v.index) + ordered(v.datum)) {
            return bad("the key differs from its parts", text(f) + ": " + ordered(v.full) + " instead of " + got);
        }
        auto rest = f;
        for (auto* part : {&expected->db, &expected->index, &expected->datum}) {
            for (auto& [k, value] : *part) {
                rest[k - 'a'] = 0;
            }
        }
        // no other at this place
        auto where = ordered(v.db) + "|" + ordered(v.index) + "|" + values(v.datum);
        Field seen{};  // hidden keywords are not part of it
        for (auto* part : {&expected->db, &expected->index, &expected->datum}) {
            for (auto& [k, value] : *part) {
                seen[k - 'a'] = value;
            }
        }
        auto [it, fresh] = taken.emplace(where, std::pair{seen, *expected});
        // (the rule is found again by the index's key: one before it may describe that key, too)
        auto& rules   = s[expected->rule].rules;
        bool shadowed = false;
        for (int i = 0; i < expected->sub; ++i) {
            shadowed = shadowed || describes(rules[i].index, expected->index);
        }
        const char* shadow = "a description is placed by a rule that is not found again: an earlier rule describes the same index key";
        if (!fresh && it->second.first != seen) {
            if (shadowed) {
                ctx.fail(shadow, t + text(it->second.first) + " and " + text(f) + " are at one place");
            }
            else {
                bad("two descriptions at one place", text(it->second.first) + " and " + text(f) + " at " + where);
            }
        }
        // and back
        std::string back, detail;
        try {
            auto& datum = c.original.matchingRule(v.db, v.index);
            back        = nonEmpty(datum.makeKey(values(v.datum)));
        }
        catch (std::exception& e) {
            back = e.what();
        }
        if (back != nonEmpty(v.datum)) {
            if (shadowed) {
                ctx.fail(shadow, t + text(f) + " is read back as " + back);
            }
            else {
                bad("read back differently", text(f) + ": " + back + " instead of " + nonEmpty(v.datum));
            }
        }
        auto db = c.original.matchDatabase(values(v.db));
        if (!db || ordered(*db) != ordered(v.db)) {
            bad("the database's name is read differently", text(f) + ": " + (db ? ordered(*db) : "none") + " instead of " + ordered(v.db));
        }
        // and found by its description
        metkit::mars::MarsRequest r("retrieve");
        for (int i = 0; i < 8; ++i) {
            if (f[i]) {
                r.setValue(std::string(1, keywords[i]), std::to_string(f[i]));
            }
        }
        Reader reader(c.original);
        try {
            c.original.expand(r, reader);
        }
        catch (std::exception& e) {
            bad("cannot be requested", text(f) + ": " + e.what());
        }
        if (!reader.places.count(got)) {
            std::string all;
            for (auto& p : reader.places) {
                all += " " + p;
            }
            bad("is not looked for where it is", text(f) + " at " + got + ", only at" + all);
        }
        if (stop) {
            return;
        }
    }
}

/// The same with a real database: what is listed afterwards
void archiveAll(mc::Ctx& ctx, const Sch& s, const std::string& kws) {
    std::string t = text(s);
    ctx.describe  = t;
    ctx.distinct(t);
    std::vector<Field> fields;
    Field f{};
    size_t n = 1;
    for (size_t i = 0; i < kws.size(); ++i) {
        n *= 3;
    }
    std::map<std::string, int> latest;
    std::map<std::string, std::string> names;
    for (size_t x = 0; x < n; ++x) {
        size_t y = x;
        for (char k : kws) {
            f[k - 'a'] = y % 3;
            y /= 3;
        }
        auto p = resolve(s, f);
        if (p) {
            std::string key, name;
            for (auto* part : {&p->db, &p->index, &p->datum}) {
                for (auto& [k, value] : *part) {
                    if (value) {
                        key += (key.empty() ? "" : ",") + std::string(1, k) + "=" + std::to_string(value);
                    }
                    if (part == &p->db) {
                        name += std::to_string(value) + ":";
                    }
                }
            }
            for (int i = 0; i < p->sub; ++i) {
                if (describes(s[p->rule].rules[i].index, p->index)) {
                    ctx.count("schemas_with_rules_not_found_again");
                    return;  // (reported by the other sweeps)
                }
            }
            auto [it, fresh] = names.emplace(name, text(p->db));
            if (!fresh && it->second != text(p->db)) {
                ctx.count("schemas_with_ambiguous_names_of_databases");
            }
            latest[canon(key)] = fields.size();  // (descriptions that differ in hidden keywords are one)
        }
        fields.push_back(f);
    }
    std::set<std::string> expected;
    for (auto& [key, i] : latest) {
        expected.insert(key + " " + std::to_string(i) + ":1");
    }
    Setup st;
    st.dir    = ctx.dir;
    st.schema = t;
    st.create();
    auto c = mc::runChild([&]() {
        st.apply();
        std::ostringstream out;
        {
            fdb5::FDB fdb(st.config());
            for (size_t i = 0; i < fields.size(); ++i) {
                auto data = payload(i, 1);
                bool ok   = true;
                try {
                    fdb.archive(keyOf(fields[i]), data.data(), data.size());
                }
                catch (std::exception& e) {
                    ok = false;
                }
                if (ok != bool(resolve(s, fields[i]))) {
                    out << text(fields[i]) << (ok ? " is archived" : " is refused") << "\n";
                }
            }
            fdb.flush();
        }
        fdb5::FDB fdb(st.config());
        std::set<std::string> got;
        for (auto& e : list(fdb, {}, Full)) {
            if (!got.insert(e.str()).second) {
                out << e.str() << " is listed twice\n";
            }
        }
        for (auto& x : got) {
            if (!expected.count(x)) {
                out << x << " is listed\n";
            }
        }
        for (auto& x : expected) {
            if (!got.count(x)) {
                out << x << " is not listed\n";
            }
        }
        return out.str();
    });
    ctx.count("archived", expected.size());
    if (!c.ok || !c.out.empty()) {
        ctx.fail("with a database: " + t, c.ok ? c.out : c.status() + " " + c.out + c.log.substr(0, 1000));
    }
}

//----------------------------------------------------------------------------------------------------------------- types

/// The spellings of one value
struct Spellings {
    std::string normal;                ///< as it is recorded
    std::vector<std::string> archive;  ///< spellings with which it may be archived: each is refused, or resolves to the one place
    std::vector<std::string> ask;      ///< further spellings with which it may be asked for (values apart: /)
    std::string units;                 ///< of the last of `archive` (stepunits)
};
struct TypeCase {
    std::string type;
    std::vector<Spellings> values;
    bool normalAgain = true;         ///< the normal form is itself a value
    std::string recordedAs = "k";    ///< the keyword under which it is recorded
    std::string keyword    = "k";
    std::string label      = "";  ///< of the case, if not the type
};
const std::vector<TypeCase>& typeCases() {
    static const std::vector<TypeCase> t = {
        {"", {{"an", {"an", "AN", "An"}}, {"fc", {"fc"}}, {"a-n", {"a-n"}}, {"a.n", {"a.n"}}, {"a n", {"a n", "A N"}}}},
        {"Default", {{"an", {"an", "AN"}}, {"fc", {"fc"}}}},
        {"Integer", {{"7", {"7"}}, {"70", {"70"}}, {"-7", {"-7"}}, {"0", {"0"}}}},
        {"Double",
         {{"1", {"1", "1.0", "1e0", "1.00", "+1"}},
          {"0", {"0", "0.0", "-0"}},
          {"0.5", {"0.5", ".5", "5e-1", "00.50"}},
          {"-1.5", {"-1.5", "-1.50"}},
          {"1000000", {"1000000", "1e6"}},
          {"1234567", {"1234567", "1234567.0"}},
          {"1234568", {"1234568"}},
          {"", {"1234567.25"}},
          {"", {"1234567.5", "1234567.50"}},
          {"", {"123.4567", "123.45670"}},
          {"", {"123.4568"}},
          {"", {"0.1234567"}},
          {"", {"0.1234568"}},
          {"0.3", {"0.3", "0.30"}},
          {"0.1", {"0.1"}},
          {"", {"1e20"}},
          {"", {"1e-7", "0.0000001"}}}},
        {"Time",
         {{"0000", {"0000", "0", "00", "00:00", "00:00:00", "000000"}},
          {"0600", {"0600", "6", "06", "600", "6:00", "06:00", "060000"}},
          {"1200", {"1200", "12", "12:00"}},
          {"1830", {"1830", "18:30", "183000"}},
          {"1801", {"1801", "18:01"}},
          {"0118", {"0118", "118", "1:18"}}}},
        {"Step",
         {{"0", {"0", "00", "0-0"}},
          {"6", {"6", "06", "6-6", "6h", "360m"}},
          {"0-3", {"0-3", "0-03"}},
          {"30m", {"30m"}, {}, ""},
          {"1h30m", {"1h30m", "90m", "90"}, {}, "m"},
          {"12", {"12", "12"}, {}, "h"},
          {"24", {"24", "1d"}},
          {"48", {"48", "2"}, {}, "D"},
          {"24-48", {"24-48", "1d-2d"}},
          {"10s", {"10s", "10"}, {}, "s"}}, true, "step", "step"},
        {"Date", {{"20200101", {"20200101"}, {"2020-01-01"}}, {"20200110", {"20200110"}, {"2020-01-10"}}, {"20191231", {"20191231"}}}},
        {"Expver", {{"0001", {"0001", "1", "01"}, {"!1", "!01"}}, {"0010", {"0010", "10"}, {"!10"}}, {"abcd", {"abcd", "ABCD"}}, {"00ab", {"00ab", "ab"}, {"!ab"}}}},
        {"Date", {{"20200101", {"20200101", "2020-01-01"}}}, true, "k", "k", "dates with dashes"},
        {"Integer", {{"7", {"7", "007"}}}, true, "k", "k", "integers with leading zeros"},
        {"Grid", {{"1+1", {"1+1"}, {"1/1"}}, {"1+2", {"1+2"}, {"1/2"}}, {"o1280", {"o1280"}}, {"av", {"av"}}, {"1.5+1.5", {"1.5+1.5"}, {"1.5/1.5"}}}},
        {"First3", {{"abc", {"abc", "abcd", "abcde"}}, {"abd", {"abd", "abdc"}}, {"ab", {"ab"}}}},
        {"ClimateMonthly",
         {{"1", {"1", "01", "jan", "20200101", "20210131"}, {}}, {"12", {"12", "dec", "20201231"}}, {"2", {"2", "feb", "20200229"}}, {"10", {"10", "oct"}}}},
        {"ClimateDaily",
         {{"0101", {"20200101", "2020-01-01", "jan-1", "20190101"}, {"!jan-1"}}, {"1231", {"20201231"}}, {"0110", {"20200110", "jan-10"}, {"!jan-10"}}, {"1001", {"20201001"}}},
         false},
        {"Year", {{"2020", {"20200101"}, {"2020-01-01"}}, {"2020", {"20201231"}}, {"2021", {"20210101"}}}, false, "year", "date"},
        {"Month", {{"1", {"20200101"}, {"2020-01-01"}}, {"1", {"20210131"}}, {"12", {"20201201"}}, {"10", {"20201001"}}}, false, "month", "date"},
        {"MonthOfDate", {{"01", {"20200101"}, {"2020-01-01"}}, {"01", {"20210131"}}, {"12", {"20201201"}}, {"10", {"20201001"}}}, false, "month", "date"},
        {"YearMonth", {{"202001", {"20200101", "2020-01-31"}}, {"202012", {"20201201"}}, {"202010", {"20201001"}}}, false},
        {"Param", {{"130", {"130"}}, {"131.140", {"131.140"}}}, true, "param", "param"},
        {"ParamID", {{"130", {"130"}}, {"131.140", {"131.140"}}}, true, "param", "param"},
    };
    return t;
}

/// All values of a type in all their spellings, at one level of the keys
void spellings(mc::Ctx& ctx, const TypeCase& t, int level, bool shared) {
    bool renamed   = t.recordedAs != t.keyword;  ///< (what it is made from is recorded, too)
    std::string kw = t.keyword + (t.type.empty() || shared ? "" : ":" + t.type);
    Setup st;
    st.dir    = ctx.dir;
    st.schema = (shared && !t.type.empty() ? t.keyword + ": " + t.type + ";\n" : "") + "[ class, expver" + (level == 0 ? ", " + kw : "") + " [ type" +
                (level == 1 ? ", " + kw : "") + " [ levtype" + (level == 2 ? ", " + kw : renamed ? ", " + t.keyword + ":Date" : "") + " ]]]\n";
    st.create();
    ctx.describe = st.schema;
    ctx.distinct(st.schema);
    auto c = mc::runChild([&]() {
        st.apply();
        std::vector<std::string> out;
        auto say = [&](const std::string& what, const std::string& detail) { out.push_back(what + "\t" + detail); };
        auto key = [&](const std::string& v, const std::string& units) {
            fdb5::Key k;
            for (auto& [n, x] : KV{{"class", "od"}, {"expver", "0001"}, {"type", "an"}, {"levtype", "sfc"}}) {
                k.push(n, x);
            }
            k.push(t.keyword, v);
            if (!units.empty()) {
                k.push("stepunits", units);
            }
            return k;
        };
        auto request = [&](std::string v) {
            Req r{{"class", {"od"}}, {"expver", {"0001"}}, {"type", {"an"}}, {"levtype", {"sfc"}}};
            r.push_back({t.keyword, mc::split(v, '/')});
            return r;
        };
        // in normal form
        auto* type = fdb5::TypesFactory::build(t.type.empty() ? "Default" : t.type, t.keyword);
        std::map<std::string, std::string> normal;
        for (auto& v : t.values) {
            for (auto& a : v.archive) {
                if (!v.units.empty() && &a == &v.archive.back()) {
                    continue;
                }
                std::string n;
                try {
                    n = type->toKey(a);
                }
                catch (std::exception& e) {
                    say("a value has no normal form", t.type + " " + a + ": " + e.what());
                    continue;
                }
                if (t.type == "Expver") {
                    continue;  // (archived in one form only)
                }
                if (!v.normal.empty() && n != v.normal) {
                    say("another normal form", t.type + " " + a + " -> " + n + " instead of " + v.normal);
                }
                if (auto [it, fresh] = normal.emplace(n, v.archive[0]); !fresh && it->second != v.archive[0] && !renamed) {
                    say("two values have one normal form", t.type + " " + a + " and " + it->second + " -> " + n);
                }
                if (t.normalAgain) {
                    try {
                        if (type->toKey(n) != n) {
                            say("the normal form of a normal form is another", t.type + " " + a + " -> " + n + " -> " + type->toKey(n));
                        }
                    }
                    catch (std::exception& e) {
                        say("a normal form is refused", t.type + " " + a + " -> " + n + ": " + e.what());
                    }
                }
            }
        }
        size_t rounds = 0;
        for (auto& v : t.values) {
            rounds = std::max(rounds, v.archive.size());
        }
        std::vector<int> version(t.values.size(), 0);
        for (size_t round = 0; round < rounds; ++round) {
            {
                fdb5::FDB fdb(st.config());
                for (size_t i = 0; i < t.values.size(); ++i) {
                    auto& v = t.values[i];
                    if (round >= v.archive.size()) {
                        continue;
                    }
                    auto units = round + 1 == v.archive.size() ? v.units : "";
                    auto data  = payload(i, round + 1);
                    fdb5::Key k = key(v.archive[round], units), told;
                    fdb.registerArchiveCallback([&](const fdb5::Key& x, const void*, size_t, std::future<std::shared_ptr<const fdb5::FieldLocation>>) { told = x; });
                    try {
                        fdb.archive(k, data.data(), data.size());
                    }
                    catch (eckit::UserError& e) {
                        if (round == 0) {
                            say("a normal value is refused", t.type + " " + v.archive[0] + ": " + e.what());
                        }
                        continue;
                    }
                    version[i] = round + 1;
                    for (auto& n : told.names()) {
                        if (told.find(n).second == false) {
                            say("the archive callback's key is broken", t.type + " " + v.archive[round] + ": " + n);
                        }
                    }
                }
                fdb.flush();
            }
            fdb5::FDB fdb(st.config());
            std::string when = " in round " + std::to_string(round);
            std::map<int, int> seen;
            for (auto& e : list(fdb, {}, Dedup)) {
                int f, v;
                if (sscanf(e.bytes.c_str(), "%d:%d", &f, &v) != 2) {
                    say("listed with other data", e.str());
                    continue;
                }
                if (seen[f]++) {
                    say("one value in two places", t.type + " " + t.values[f].archive[0] + when);
                }
                if (v != version[f]) {
                    say("a value in another place, or one that was refused", t.type + " " + t.values[f].archive[0] + when + ": " + e.str());
                }
                std::string want = t.recordedAs + "=" + t.values[f].normal;
                if (!t.values[f].normal.empty() && ("," + e.key + ",").find("," + want + ",") == std::string::npos) {
                    say("recorded as another value", t.type + " " + t.values[f].archive[round < t.values[f].archive.size() ? round : 0] + ": " + e.key + " without " + want);
                }
            }
            for (size_t i = 0; i < t.values.size(); ++i) {
                auto& v = t.values[i];
                if (seen[i] == 0) {
                    say("two values in one place", t.type + " " + v.archive[0] + when + " is not listed any more");
                    continue;
                }
                auto ask = v.archive;
                if (!v.units.empty()) {
                    ask.pop_back();
                }
                for (auto& a : v.ask) {
                    ask.push_back(a);
                }
                for (auto& a : ask) {
                    if (a[0] == '!' || std::find(ask.begin(), ask.end(), "!" + a) != ask.end()) {
                        continue;
                    }
                    try {
                        auto got = retrieve(fdb, request(a));
                        if (got != std::to_string(i) + ":" + std::to_string(version[i])) {
                            say("a value is not found by its spelling", t.type + " " + v.archive[0] + " as " + a + ": " + (got.empty() ? "nothing" : got));
                        }
                    }
                    catch (std::exception& e) {
                        say("a value cannot be asked for", t.type + " " + v.archive[0] + " as " + a + ": " + e.what());
                    }
                }
            }
        }
        return join(out, "\n");
    });
    if (!c.ok) {
        ctx.fail("a type ends the process: " + t.type, c.status() + " " + c.out + c.log.substr(0, 1000));
        return;
    }
    std::set<std::string> once;
    for (auto& l : mc::split(c.out, '\n')) {
        auto f = mc::split(l, '\t');
        if (f.size() == 2 && once.insert(t.label.empty() ? f[0] : "").second) {
            ctx.fail(t.label.empty() ? f[0] + ": " + t.type + " in level " + std::to_string(level) : "a spelling is another value: " + t.label, c.out.substr(0, 3000));
        }
    }
    if (ctx.idx % 13 == 4) {
        ctx.sample(st.schema);
    }
    for (auto& v : t.values) {
        ctx.count("spellings", v.archive.size());
    }
}

std::vector<Level> singles(char k) {
    std::vector<Level> r;
    for (auto x : kinds) {
        r.push_back({{k, x}});
    }
    return r;
}
std::vector<Level> pairs(char k, char l, const std::vector<Kind>& first, const std::vector<Kind>& second) {
    std::vector<Level> r;
    for (auto x : first) {
        for (auto y : second) {
            r.push_back({{k, x}, {l, y}});
        }
    }
    return r;
}
std::vector<Level> operator+(std::vector<Level> a, const std::vector<Level>& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

}  // namespace

int main(int argc, char** argv) {
    mc::init(argc, argv, "C15", 150, 3600);
    bool th = mc::opts.thorough;
    std::vector<Kind> every(std::begin(kinds), std::end(kinds));

    // every combination of predicates
    {
        auto db = singles('a') + pairs('a', 'b', every, every), idx = singles('c') + pairs('c', 'd', every, every);
        auto datum = th ? singles('e') + pairs('e', 'f', every, every) : singles('e') + pairs('e', 'f', {Always, OptDef}, {Not, Opt});
        size_t few = th ? idx.size() : 18;
        if (!th) {
            idx = singles('c') + pairs('c', 'd', {Always, Any, Opt}, {Value, OptDef, Hidden});
        }
        mc::sweep("one rule", db.size() * few, [&](mc::Ctx& ctx) {
            for (auto& d : datum) {
                if (ctx.failed()) {
                    return;
                }
                check(ctx, {{db[ctx.idx / few], {{idx[ctx.idx % few], d}}}}, "abcdef");
            }
            ctx.distinct(ctx.describe);
        }, 300);
    }
    // rules after one another
    auto rulesOf = [&](const std::vector<Level>& index, const std::vector<Level>& datum) {
        std::vector<IndexRule> r;
        for (auto& i : index) {
            for (auto& d : datum) {
                r.push_back({i, d});
            }
        }
        return r;
    };
    auto subs = th ? rulesOf(singles('b') + singles('c') + pairs('b', 'c', {Always, Value, Opt}, {Always, Any, Not, OptDef}),
                             singles('d') + std::vector<Level>{{{'e', Always}}, {{'e', Any}}, {{'d', Always}, {'e', Opt}}, {{'d', Value}, {'e', Not}}})
                   : rulesOf({{{'b', Always}}, {{'b', Value}}, {{'b', Not}}, {{'b', OptDef}}, {{'c', Always}}, {{'b', Any}, {'c', Opt}}, {{'b', Always}, {'c', NotAny}}},
                             {{{'d', Always}}, {{'d', Any}}, {{'d', Opt}}, {{'e', Always}}, {{'d', Value}, {'e', Not}}});
    mc::sweep("two index rules", subs.size() * subs.size(), [&](mc::Ctx& ctx) {
        check(ctx, {{{{'a', Always}}, {subs[ctx.idx / subs.size()], subs[ctx.idx % subs.size()]}}}, "abcde");
        ctx.distinct(ctx.describe);
    }, 300);
    std::vector<DbRule> dbs;
    for (auto& d : th ? singles('a') + pairs('a', 'b', {Always, Value, Opt}, {Always, Any, Not, OptDef, Hidden}) + singles('b')
                      : singles('a') + pairs('a', 'b', {Value, Opt}, {Always, Not, OptDef})) {
        for (auto& i : rulesOf({{{'c', Always}}, {{'c', Value}}, {{'c', Not}}}, {{{'d', Always}}, {{'d', Opt}, {'e', Any}}})) {
            dbs.push_back({d, {i}});
        }
    }
    mc::sweep("two database rules", dbs.size() * dbs.size(), [&](mc::Ctx& ctx) {
        check(ctx, {dbs[ctx.idx / dbs.size()], dbs[ctx.idx % dbs.size()]}, "abcde");
        ctx.distinct(ctx.describe);
    }, 300);

    // with real databases
    std::vector<Sch> real;
    for (auto& d : std::vector<std::vector<Level>>{{{{'a', Always}}},
                                                   {{{'a', Always}, {'b', Opt}}},
                                                   {{{'a', Opt}, {'b', OptDef}}},
                                                   {{{'a', Value}, {'b', Always}}, {{'a', Not}, {'b', Opt}}},
                                                   {{{'a', Value}, {'b', Value}, {'c', Any}}, {{'a', Always}, {'b', Opt}}},
                                                   {{{'a', Value}, {'b', Hidden}}, {{'a', Any}}},
                                                   {{{'b', Any}, {'a', Always}}, {{'a', NotAny}, {'b', Not}}},
                                                   {{{'a', Always}, {'b', Value}}, {{'a', Always}, {'f', Opt}}}}) {
        for (auto& i : std::vector<std::vector<IndexRule>>{{{{{'c', Always}}, {{'d', Always}}}},
                                                           {{{{'c', Opt}}, {{'d', Opt}, {'e', Always}}}},
                                                           {{{{'c', Value}}, {{'d', Any}, {'e', OptDef}}}, {{{'c', Not}}, {{'e', Always}}}},
                                                           {{{{'c', Value}, {'e', Opt}}, {{'d', Always}}}, {{{'c', Any}}, {{'e', Not}, {'d', Opt}}}},
                                                           {{{{'c', Value}}, {{'d', Always}}}, {{{'c', Opt}, {'e', Any}}, {{'d', OptDef}}}}}) {
            Sch s;
            for (auto& level : d) {
                s.push_back({level, i});
            }
            real.push_back(s);
        }
    }
    mc::sweep("with databases", real.size(), [&](mc::Ctx& ctx) { archiveAll(ctx, real[ctx.idx], "abcde"); });

    // values and their spellings
    struct Typed {
        int type, level;
        bool shared;
    };
    std::vector<Typed> typed;
    for (size_t i = 0; i < typeCases().size(); ++i) {
        auto& t = typeCases()[i];
        for (int level = 0; level < 3; ++level) {
            for (bool shared : {false, true}) {
                bool param = t.type.substr(0, 5) == "Param";           // (needs the values that there are)
                bool alone = t.recordedAs == t.keyword;
                if ((!param || level == 2) && (alone || (level < 2 && !shared)) && !(shared && t.type.empty())) {
                    typed.push_back({(int)i, level, shared});
                }
            }
        }
    }
    mc::sweep("types", typed.size(), [&](mc::Ctx& ctx) {
        auto& t = typed[ctx.idx];
        spellings(ctx, typeCases()[t.type], t.level, t.shared);
    });

    mc::Evidence e;
    e.rule        = "schemas x all descriptions of fields; distinct_nontrivial counts distinct schemas";
    e.assumptions = {"values do not contain : or characters that mean something in schemas"};
    return mc::finish(e);
}
