/// Exploration engine: parallel enumeration of scenarios, child processes, violations, replay and evidence.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace mc {

//------------------------------------------------------------------------------------------------------------- options

struct Options {
    std::string property;
    std::string tier = "quick";
    bool thorough    = false;
    int seed         = 1;
    int jobs         = 8;
    double budget    = 0;  ///< seconds for the whole run; what has not been reached then is not explored (and said so)
    std::string replay;    ///< replay file to run again
    std::string only;      ///< sweep to run
};
extern Options opts;

/// Parse arguments and the environment, initialise eckit. To be called first.
void init(int argc, char** argv, const char* property, double quickBudget = 150, double thoroughBudget = 3600);

/// A scratch directory of this run (removed at the end)
const std::string& scratch();

double now();

//-------------------------------------------------------------------------------------------------------------- children

struct Child {
    bool ok      = false;  ///< ran to its end
    bool timeout = false;
    int sig      = 0;      ///< killed by this signal
    int code     = 0;      ///< or exit code
    std::string out;       ///< what the function returned, or the exception's message if code == 3
    std::string log;       ///< tail of what it printed
    std::string status() const;
};

/// Run a function in a forked process.
Child runChild(const std::function<std::string()>& fn, int timeoutSeconds = 60);

/// Split/join for the results of children
std::vector<std::string> split(const std::string& s, char sep);

//------------------------------------------------------------------------------------------------------------- scenarios

class Ctx {
public:
    uint64_t idx = 0;
    int worker   = 0;
    std::string dir;  ///< an empty directory of this scenario, at a path never used before

    /// Report a violation. The signature identifies it (for known findings); the detail says it in words.
    void fail(const std::string& signature, const std::string& detail);
    /// Note that this scenario has exercised a case; counted once over the run
    void distinct(const std::string& what);
    void count(const char* counter, uint64_t n = 1);
    void sample(const std::string& text);
    bool failed() const { return failed_; }
    /// Description of the scenario, written into the replay file
    std::string describe;

    bool failed_ = false;
    std::string sig_, detail_;
    std::vector<std::pair<std::string, std::string>> fails_;
};

using Scenario = std::function<void(Ctx&)>;

/// Run scenarios 0..n-1. Each in a worker process; a scenario that crashes or hangs its worker is a violation.
/// With freshWorkers each scenario gets a new worker process.
/// Returns the number of scenarios completed.
uint64_t sweep(const std::string& name, uint64_t n, const Scenario& fn, int timeoutSeconds = 120);

/// A sweep whose size is discovered as it goes: fn(idx) may append work through Ctx... (see Frontier)
/// Values measured by the workers are summed over the run.
uint64_t counter(const char* name);
void addCounter(const char* name, uint64_t n);

/// Report a violation found outside a sweep
void violation(const std::string& signature, const std::string& detail);
bool anyViolation();

//--------------------------------------------------------------------------------------------------------------- choices

/// Depth-first enumeration of all sequences of choices: run the program repeatedly, each run asks choose(n) at each
/// of its choice points; next() moves to the next unexplored sequence.
class Chooser {
public:
    Chooser() = default;
    explicit Chooser(std::vector<int> prefix) : seq_(std::move(prefix)), fixed_(seq_.size()) {}
    int choose(int n);
    bool next();  ///< false when all have been explored
    void rewind() { pos_ = 0; }
    const std::vector<int>& sequence() const { return seq_; }
    std::string str() const;

private:
    std::vector<int> seq_;
    std::vector<int> width_;
    size_t pos_   = 0;
    size_t fixed_ = 0;
};

//-------------------------------------------------------------------------------------------------------------- evidence

struct Evidence {
    std::string level = "exploration";
    std::string rule;
    std::vector<std::string> assumptions;
    std::map<std::string, std::string> extra;  ///< raw JSON values added to coverage
};

/// Write the evidence file and return the exit code of the check.
int finish(const Evidence& e);

std::string jsonString(const std::string& s);

/// True once the time budget has been used up
bool overBudget();

}  // namespace mc
