/// Small worlds: a universe of fields, stored states built from archive programs, and a reference model of both.
#pragma once
#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "fdb5/api/helpers/ControlIterator.h"
#include "fx.h"

namespace fx {

struct Universe {
    std::string schema;
    std::vector<std::array<KV, 3>> fields;  ///< database, index and datum parts
    KV all(int f) const;
    std::string db(int f) const { return str(fields[f][0]); }
    std::string index(int f) const { return str(fields[f][0]) + "|" + str(fields[f][1]); }
    size_t size() const { return fields.size(); }
    int find(const std::string& canonicalKey) const;  ///< -1: none
    /// Retrieval ignores an optional keyword none of whose values occur in the index (Rule::findMatchingKeys): what
    /// the retrieval of a field yields when it is not there
    std::map<int, int> fallback;

    Spellings spell;                             ///< other spellings of values, for requests
    std::map<std::string, std::string> unknown;  ///< a value that does not occur, by keyword (else zz)

    /// 3 databases, 4 indexes, 6 fields; values that are prefixes of each other
    static const Universe& plain();
    /// Databases under different rules: with other keywords, another order, and optional ones
    static const Universe& mixed();
    /// Keywords with types, whose values can be spelled in several ways
    static const Universe& typed();
    static std::vector<const Universe*> every() { return {&plain(), &mixed(), &typed()}; }
};

/// An index as one process has written it: between two flushes, or, with sub-tocs, while it was open
struct Physical {
    std::string db, index;
    std::map<int, int> entries;  ///< field -> version
    int session = 0;             ///< of which FDB, from its first archive to its closure
};

struct Model {
    const Universe* u = nullptr;
    bool subtocs      = false;
    std::vector<Physical> indexes;  ///< oldest first
    int nextVersion = 1;

    std::map<int, int> visible() const;             ///< field -> version
    std::vector<std::pair<int, int>> all() const;   ///< (field, version) of each entry
    void removeIndex(const std::string& index);
    void removeDB(const std::string& db);
    /// A confirmed wipe; databases it removes altogether go into `gone`, indexes into `goneIdx`
    void wipe(const Req& r, std::set<std::string>& gone, std::set<std::string>& goneIdx);
    void wipe(const Req& r) {
        std::set<std::string> a, b;
        wipe(r, a, b);
    }

    /// A purge of the databases that match: indexes go that hold nothing visible
    void purge(const Req& r);
    std::set<std::string> indexFiles() const;

    /// Does the index match the request, at index level (datum keywords: some value of each occurs in it)?
    bool indexMatches(const Physical& p, const Req& r) const;
    bool dbMatches(const std::string& db, const Req& r) const;
    std::set<std::string> dbs() const;
};

/// Carry out an archive program ("A0 A1 F C A0": archive the next version of a field, flush, close; w1: another FDB) in this process
void build(const Setup& s, const Universe& u, const std::string& program, int firstVersion = 1);
/// ... and its effect in the model
void effect(Model& m, const std::string& program);

/// Names of the keywords of a universe's requests, with the values to enumerate
using Domain = std::vector<std::pair<std::string, std::vector<std::vector<std::string>>>>;
std::vector<Req> requests(const Domain& d);
/// Domain of a universe: each keyword absent, each value, all values, and a value that does not occur
Domain domain(const Universe& u, bool unknownValues = true);

/// "f:v" of each element in a full/de-duplicated listing, sorted; anything wrong as "!..."
std::vector<std::string> listing(const Setup& s, const Universe& u, const Req& r, Mode mode);
std::vector<std::string> listing(fdb5::FDB& fdb, const Universe& u, const Req& r, Mode mode);
/// What a reader sees of the whole store: listing and retrieval of every field; equal for equal contents
std::string answers(const Setup& s, const Universe& u, bool full = false);
/// The same from the model
std::string answers(const Model& m, bool full = false);

std::string fv(int f, int v);

/// Directory of a database, given its key
std::string dirOf(const std::string& db);

struct Result {
    bool ok;
    std::string out;
};
/// Each in a process of its own. Wipe: lines "D path" (deleted) or "K path"
Result wipe(const Setup& s, const Req& r, bool doit, bool unsafe);
Result control(const Setup& s, const Req& r, bool enable, const fdb5::ControlIdentifiers& ids);
/// "dir+-+++ ...": list, retrieve, archive, wipe, unique root
std::string statusOf(const Setup& s);

/// answers(), from a process of its own
std::string seen(const Setup& s, const Universe& u);
/// Contents of the files of the roots (store/... for a separate store)
std::map<std::string, std::string> files(const Setup& s);
/// What differs: -lost +new *changed
std::string changes(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b);

/// A stored state
struct State {
    Setup setup;
    const Universe* u;
    std::string program;
};
/// Archive these fields in one of 4 ways: in one flush, one by one, twice, rewritten in part
std::string programOf(const std::vector<int>& fields, int pattern);
/// Subsets of the universes x ways of archiving them x layouts
std::vector<State> states(bool thorough);

}  // namespace fx
