/// Threads under a controlled scheduler: of the threads of a child process one runs at a time; before each operation on
/// a mutex, condition variable, thread or the like the scheduler decides which goes on.
///
/// threads.cc interposes the pthread functions (and what of libstdc++ does not use them) for the whole process, so it is
/// linked only into the checks that need it. Outside of run() they pass straight through.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "mc.h"

namespace threads {

struct Decision {
    int options = 0;      ///< threads that could go on
    int chosen  = 0;      ///< which of them did; 0 is the thread that was running, if it can
    bool current = false;  ///< the thread that was running could go on: another choice is a preemption
    bool shared  = true;   ///< what it was about to operate on is used by other threads, too, at some time of this run
    bool foreign = false;  ///< (with Options::classify) it is another library's lock, taken within that library
    uint64_t obj = 0;      ///< what it was about to operate on
    int thread   = 0;
    std::string what;
    void* pc = nullptr;  ///< the instruction, for memory
};

struct Outcome {
    mc::Child child;
    bool deadlock = false;
    std::vector<Decision> decisions;
    std::string trace;  ///< thread:operation ...
    std::string blocked;  ///< at a deadlock: what each thread waits for
    long points = 0;
    bool truncated = false;  ///< too many decisions to record: not explored beyond
    std::vector<void*> places;  ///< recorded
    std::string fault;          ///< memory used after its release, if noticed
};

struct Options {
    bool unlockPoints = true;   ///< a point after each unlock
    bool filePoints   = false;  ///< before each file-system operation below the tracked directory
    /// With the sources instrumented (memory.cc): record which instructions access memory that threads share without a
    /// common lock or another order, or take those found before as points
    bool record             = false;
    bool classify           = false;
    int perPlace            = 3;  ///< the first so many times each thread comes there
    std::vector<void*> places;
    int timeout       = 30;
    size_t maxDecisions = 20000;
};

/// Run fn in a forked process with the decisions given (beyond them: the default)
Outcome run(const std::function<std::string()>& fn, const std::vector<int>& prefix, const Options& o = {});

/// Within run(): a point at which another thread may go on
void point(const char* what, void* obj = nullptr, void* pc = nullptr);

/// Explore all schedules that begin with the prefix, and deviate from the default only at or after position `from`, with
/// at most `bound` preemptions in all (and `freeBound` deviations where the running thread cannot go on)
struct Explored {
    long runs = 0, decisions = 0, points = 0, longest = 0;
    bool stopped = false;
};
Explored explore(const std::function<std::string()>& fn, const std::vector<int>& prefix, int bound, int freeBound, const Options& o,
                 const std::function<bool(const Outcome&)>& judge, long maxRuns = 1L << 40);

std::vector<int> choices(const Outcome& o, size_t upTo);
std::string str(const std::vector<int>& choices);

}  // namespace threads
