/// Crash and fault injection at the n-th file-system operation of a process.
#pragma once
#include <string>
#include <vector>

#include "shim.h"

namespace faults {

struct Plan {
    enum Kind { NONE, CRASH, TORN, FAIL, SHORT } kind = NONE;
    long at       = -1;     ///< index of the operation, among those counted
    size_t len    = 0;      ///< TORN / SHORT: bytes transferred
    int err       = 0;      ///< FAIL
    bool sticky   = false;  ///< FAIL: later operations of the same kind on the same file fail as well
    int lose      = 0;      ///< CRASH/TORN: 0 keep unsynchronised data, -1 lose all of it, n>0: lose that of the n-th file
    std::string str() const;
};

enum Which { MUTATING, ALL, DISK };  ///< DISK: everything but STAT, SEEK and CLOSE

struct Rec {
    int op;
    std::string path;
    size_t len;
    int flags;
    std::string str() const;
};

/// Start counting the operations under `root` in this process, and carry out the plan.
void arm(const std::string& root, const Plan& plan, Which which);
void disarm();
/// Operations counted so far
std::vector<Rec> trace();
long counted();
/// Has the planned operation been reached?
bool struck();

std::string encode(const std::vector<Rec>& t);
std::vector<Rec> decode(const std::string& s);

/// A page shared between a scenario and its children, to note progress in
struct Progress {
    volatile long step;
    volatile long struck;
    volatile long values[64];
};
Progress* shared();
Progress* fresh();  ///< to be called by a scenario before it forks its children

}  // namespace faults
