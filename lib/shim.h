/// Interposition of the file-system calls (system calls and stdio) made by the code under test.
///
/// The definitions in shim.cc are exported by the check's executable and so take precedence over libc's for every
/// shared library of the process. Without a hook, or for paths outside the tracked root, they pass straight through.
#pragma once
#include <cstddef>
#include <string>

namespace shim {

enum Op {
    OPEN, CREATE, CLOSE, READ, WRITE, SEEK, SYNC, TRUNC, RENAME, UNLINK, RMDIR, MKDIR, STAT, OPENDIR, LOCK, LINK, OTHER
};
const char* opName(int op);

struct Event {
    int op;
    int fd            = -1;
    const char* path  = "";       ///< absolute path of the file
    const char* path2 = nullptr;  ///< destination, for RENAME and LINK
    size_t len        = 0;        ///< bytes to be written or read
    long off          = -1;       ///< for positioned reads and writes
    int flags         = 0;        ///< open flags
    bool trylock      = false;    ///< LOCK: do not block (set by the caller of the hook's request)
    const void* data  = nullptr;  ///< WRITE: the bytes
};

struct Action {
    enum Kind { PASS, FAIL, SHORT, KILL, KILL_AFTER } kind = PASS;
    int err    = 0;  ///< FAIL: errno
    size_t len = 0;  ///< SHORT / KILL_AFTER: bytes actually transferred
};

/// Called before each tracked operation; its action is then applied.
using Hook = Action (*)(Event&);
/// Called after each tracked operation with its result (may be null)
using Post = void (*)(Event&, long result, int err);

extern Hook hook;
extern Post post;

/// Track paths at or below this directory (absolute, without trailing '/').
void track(const std::string& root);
const std::string& tracked();

/// Is a blocking fcntl lock request implemented by repeated tries, calling the hook (LOCK event) each time?
extern bool spinLocks;

/// Disable all hooks in the current thread while alive
struct Off {
    Off();
    ~Off();
};

/// Stream sockets this process connects: reads and writes on them, in place of the calls
struct Sockets {
    virtual void connected(int fd)                                                   = 0;
    virtual void closed(int fd)                                                      = 0;
    virtual bool io(int fd, bool write, char* buf, size_t len, long& result, int& err) = 0;  ///< false: pass
};
extern Sockets* sockets;

/// Kill this process the hard way (as by SIGKILL)
[[noreturn]] void die();

}  // namespace shim
