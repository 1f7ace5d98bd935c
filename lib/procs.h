/// Processes under a controlled scheduler: one of them runs at a time, and is suspended and resumed only before
/// file-system operations below a given directory.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "mc.h"
#include "shim.h"

namespace sched {

struct Segment {
    int p;
    long n;  ///< operations it carries out before the next segment's process runs; <0: until it ends
};
std::string str(const std::vector<Segment>& s);

struct Op {
    int p, op;
    std::string path, path2;  ///< below the root
};

struct Run {
    std::vector<mc::Child> procs;
    std::vector<Op> trace;  ///< operations that count, in the order they were carried out
    std::vector<long> ops;  ///< by process
    bool deadlock = false;
    std::string text() const;  ///< the trace, abbreviated
};

/// Which operations count, and are preceded by a point where the process may be suspended (a function without state)
using Visible = bool (*)(const shim::Event&);

/// Run the processes by the schedule; once it is exhausted those left run to their end, lowest first
Run run(const std::string& root, const std::vector<std::function<std::string()>>& procs, const std::vector<Segment>& schedule,
        Visible visible, int timeoutSeconds = 30);

/// In a process: a clock that advances with the operations of all of them
long now();

}  // namespace sched
