#pragma once
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "eckit/config/YAMLConfiguration.h"
#include "eckit/io/DataHandle.h"
#include "eckit/runtime/Main.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/api/helpers/PurgeIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/StatusIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/IndexAxis.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"

namespace demo {

using KV = std::vector<std::pair<std::string, std::string>>;

inline KV kv(const std::string& s) {
    KV r;
    std::istringstream in(s);
    std::string w;
    while (std::getline(in, w, ',')) {
        auto p = w.find('=');
        r.push_back({w.substr(0, p), w.substr(p + 1)});
    }
    return r;
}
inline fdb5::Key key(const std::string& s) {
    fdb5::Key k;
    for (auto& p : kv(s)) {
        k.push(p.first, p.second);
    }
    return k;
}
/// class=od,step=0/6
inline metkit::mars::MarsRequest request(const std::string& s) {
    metkit::mars::MarsRequest r("retrieve");
    for (auto& p : kv(s)) {
        std::vector<std::string> v;
        std::istringstream in(p.second);
        std::string w;
        while (std::getline(in, w, '/')) {
            v.push_back(w);
        }
        r.values(p.first, v);
    }
    return r;
}
inline fdb5::FDBToolRequest tool(const std::string& s) {
    return fdb5::FDBToolRequest(request(s), s.empty(), {});
}

inline void spit(const std::string& p, const std::string& s) {
    std::ofstream(p) << s;
}
inline bool exists(const std::string& p) {
    return ::access(p.c_str(), F_OK) == 0;
}

struct Store {
    std::string dir;
    std::string more;
    Store(const std::string& d, const std::string& schema = "[ class, expver\n  [ type\n    [ step, param ]]]\n") : dir(d) {
        ::mkdir(dir.c_str(), 0777);
        ::mkdir((dir + "/root").c_str(), 0777);
        spit(dir + "/schema.txt", schema);
    }
    std::string root() const { return dir + "/root"; }
    fdb5::Config config(bool subtocs = false) const {
        std::string y = "---\ntype: local\nengine: toc\nschema: " + dir + "/schema.txt\nspaces:\n- handler: Default\n  roots:\n  - path: " + root() + "\n" + more;
        eckit::YAMLConfiguration user(std::string("useSubToc: ") + (subtocs ? "true" : "false") + "\n");
        return fdb5::Config(eckit::YAMLConfiguration(y), user).expandConfig();
    }
};

inline void archive(fdb5::FDB& fdb, const std::string& k, const std::string& data) {
    fdb.archive(key(k), data.data(), data.size());
}
inline std::string slurp(eckit::DataHandle& h) {
    std::string r;
    char buf[1000];
    h.openForRead();
    long n;
    while ((n = h.read(buf, sizeof(buf))) > 0) {
        r.append(buf, n);
    }
    h.close();
    return r;
}
inline std::string retrieve(fdb5::FDB& fdb, const std::string& req) {
    std::unique_ptr<eckit::DataHandle> h(fdb.retrieve(request(req)));
    return slurp(*h);
}
/// "key=data" of each element, sorted
inline std::vector<std::string> list(fdb5::FDB& fdb, const std::string& req, fdb5::ListMode mode = fdb5::ListMode::Deduplicate) {
    std::vector<std::string> r;
    auto it = fdb.list(tool(req), mode);
    fdb5::ListElement e;
    while (it.next(e)) {
        std::ostringstream o;
        o << e.combinedKey() << "=";
        std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle());
        r.push_back(o.str() + slurp(*h));
    }
    std::sort(r.begin(), r.end());
    return r;
}

/// In a process of its own; exit code (or 128+signal)
inline int child(const std::function<int()>& f) {
    std::cout.flush();
    pid_t p = fork();
    if (p == 0) {
        int rc = 99;
        try {
            rc = f();
        }
        catch (std::exception& e) {
            std::cout << "exception: " << e.what() << std::endl;
        }
        std::cout.flush();
        ::_exit(rc);
    }
    int st;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

inline int fail(const std::string& what) {
    std::cout << "FAILED: " << what << std::endl;
    return 1;
}

int run(const std::string& dir);

}  // namespace demo

int main(int argc, char** argv) {
    setenv("FDB_HOME", argv[1], 1);
    setenv("HOME", argv[1], 1);
    eckit::Main::initialise(argc, argv);
    try {
        return demo::run(argv[1]);
    }
    catch (std::exception& e) {
        std::cout << "exception: " << e.what() << std::endl;
        return 98;
    }
}
