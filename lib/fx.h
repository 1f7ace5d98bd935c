/// Helpers to drive FDB from the checks: configurations, fields, requests, and reading everything back.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"

namespace fx {

using KV  = std::vector<std::pair<std::string, std::string>>;
using Req = std::vector<std::pair<std::string, std::vector<std::string>>>;

std::string str(const KV& kv);          ///< a=1,b=2 sorted by keyword
std::string canon(const std::string&);  ///< of such a string: sorted by keyword, empty values dropped
KV parseKV(const std::string& s);
Req parseReq(const std::string& s);     ///< a=1/2,b=3
std::string str(const Req& r);
fdb5::Key key(const KV& kv);
metkit::mars::MarsRequest mars(const Req& r, const std::string& verb = "retrieve");
fdb5::FDBToolRequest tool(const Req& r);
Req reqOf(const KV& kv);

/// Within its lifetime, requests are spelled in other ways than the canonical one: keyword -> value -> spellings
using Spellings = std::map<std::string, std::map<std::string, std::vector<std::string>>>;
struct Spelt {
    Spelt(const Spellings& s, unsigned turn);
    ~Spelt();
};

/// Does a field (all keywords) satisfy a request?
bool matches(const KV& field, const Req& r);

/// How the FDB under test is set up
struct Setup {
    std::string dir;                       ///< scratch directory
    std::string schema = defaultSchema();  ///< text
    int roots          = 1;
    bool separateStore = false;  ///< catalogue and store in different roots
    bool subtocs       = false;
    int version        = 0;      ///< TOC serialisation version (0: default)
    long maxDBs        = 0;      ///< limit on databases an archiver keeps open (0: default)
    std::map<std::string, std::string> resources;
    std::map<std::string, std::string> user;  ///< user configuration
    std::string configText;                   ///< instead of the generated one
    std::string extra;                        ///< further lines of configuration

    static const char* defaultSchema();
    /// Create directories, write the schema. Once per scenario.
    void create() const;
    /// Apply resources; once per process, before FDB is used.
    void apply() const;
    fdb5::Config config() const;
    std::string text() const;
    std::string root(int i = 0) const { return dir + "/root" + std::to_string(i); }
    std::string storeRoot() const { return separateStore ? dir + "/store0" : root(); }
    std::string describe() const;
};

/// Contents of version `v` of field number `f`: recognisable, and of a length that varies with both
std::string payload(int f, int v);
/// Inverse: "f:v", or "damaged(...)"
std::string identify(const std::string& bytes);

/// All bytes of a handle (opened, read to the end with the given chunk size, closed)
std::string slurp(eckit::DataHandle& h, size_t chunk = 4096);

enum Mode { Dedup, Full, OnlyDuplicates };

struct Elem {
    std::string key;  ///< canonical combined key
    std::string k[3];
    std::string uri;
    long long offset = 0, length = 0;
    std::string bytes;  ///< identify() of the field's data, if asked for
    std::string str() const { return key + " " + bytes; }
};
std::vector<Elem> list(fdb5::FDB& fdb, const Req& r, Mode mode, int level = 3, bool data = true);

/// Retrieve one field; identify() of the bytes, or "" if there is none
std::string retrieve(fdb5::FDB& fdb, const KV& field);
std::string retrieve(fdb5::FDB& fdb, const Req& r);

/// All files below a directory: relative path -> size (directories end with '/', size -1)
std::map<std::string, long long> tree(const std::string& dir);
/// Contents of all files below a directory
std::map<std::string, std::string> contents(const std::string& dir);
void copyTree(const std::string& from, const std::string& to);
std::string readFile(const std::string& path);
void writeFile(const std::string& path, const std::string& s);

std::string join(const std::vector<std::string>& v, const std::string& sep);
template <class C>
std::string joinSet(const C& c, const std::string& sep = " ") {
    return join(std::vector<std::string>(c.begin(), c.end()), sep);
}

}  // namespace fx
