/// A long-lived process under test, driven by commands.
#pragma once
#include <functional>
#include <sys/types.h>
#include <memory>
#include <stdexcept>
#include <string>

namespace mc {

class Session {
public:
    using Handler = std::function<std::string(const std::string& cmd)>;
    /// Fork a process; `start` is run in it and returns the handler of its commands.
    explicit Session(const std::function<Handler()>& start);
    ~Session();  ///< kills the process
    Session(const Session&)            = delete;
    Session& operator=(const Session&) = delete;

    /// Run a command. Throws Broken if the process died or did not answer in time; the answer "EXC..." stands for an
    /// exception thrown by the handler.
    std::string operator()(const std::string& cmd, int timeoutSeconds = 60);
    void send(const std::string& cmd);
    std::string receive(int timeoutSeconds = 60);
    /// End the process normally: destroys the handler first. Returns false if it crashed or hung.
    bool quit(int timeoutSeconds = 60);
    void killNow();
    pid_t pid() const { return pid_; }
    std::string log() const;

    struct Broken : std::runtime_error {
        using std::runtime_error::runtime_error;
    };

private:
    pid_t pid_ = -1;
    int to_ = -1, from_ = -1, log_ = -1;
};

}  // namespace mc
