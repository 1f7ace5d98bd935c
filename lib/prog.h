/// Small writer programs, shared by the crash, fault and schedule checks.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "fx.h"

namespace fx {

/// Fields 0 and 1 share an index; 2 is in another index of the same database; 3 is in another database.
const std::vector<KV>& progFields();

/// A program: words separated by blanks. "A0" archives the next version of field 0, "F" flushes, "C" closes the FDB
/// (the next operation opens another).
struct Step {
    char kind;
    int f;
    int v;
};
/// Versions are numbered from `firstVersion` up, over all steps, so that a higher number is always a later archival
std::vector<Step> program(const std::string& text, int firstVersion = 1);

class Runner {
public:
    explicit Runner(const Setup& s) : setup_(s) {}
    void step(const Step& s);
    fdb5::FDB& fdb();
    void close() { fdb_.reset(); }

private:
    const Setup& setup_;
    std::unique_ptr<fdb5::FDB> fdb_;
};

/// What a reader sees: for each field, the version by de-duplicated list and by retrieve, and all versions in the full
/// list; as text, one line each: "L f:v", "R f f:v", "D f:v", "X ..." for what is none of these
std::string observe(const Setup& s, bool retrieveToo = true);

struct Seen {
    std::vector<int> list[8];   ///< versions of field f in the de-duplicated list
    std::vector<int> full[8];   ///< and in the full list
    int retrieved[8];           ///< version; 0 absent
    std::vector<std::string> bad;  ///< anything damaged, foreign, or failing
    std::string str() const;
};
Seen parseObserved(const std::string& text);

}  // namespace fx
