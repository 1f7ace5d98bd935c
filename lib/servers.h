/// Catalogue and store servers of the FDB under test, as processes of their own.
#pragma once
#include <string>
#include <vector>

#include "fx.h"

namespace fx {

/// A server process (with all it forks); killed by the destructor
class Server {
public:
    Server(const std::string& name, const Setup& s, const std::string& yaml, int port);
    ~Server();
    Server(const Server&)            = delete;
    Server& operator=(const Server&) = delete;
    void kill();
    void restart();
    bool alive();
    int port() const { return port_; }
    pid_t pid() const { return pid_; }
    std::string log() const;

private:
    pid_t pid_ = -1;
    int port_;
    std::string ended_, name_, yaml_;
    Setup setup_;
    void start();
    std::string logFile_;
};

/// A port nobody listens on; different in each worker
int freePort(int worker);

/// Wait until somebody listens
bool listening(int port, double seconds = 20);

struct Cluster {
    bool single = false, threaded = false;
    int stores       = 1;
    bool sharedRoots = false;  ///< the stores keep their data where the catalogue is
    bool local       = false;  ///< the first store serves data archived locally, too
    std::string dir;           ///< of the setup
    std::string describe() const;
};

/// Servers of a cluster, over the roots of a setup (catalogue: root, stores: store0, store1...)
class Servers {
public:
    Servers(const Setup& s, const Cluster& c, int worker);
    ~Servers();
    /// Configuration of a client
    fdb5::Config client(int port = 0) const;
    std::string clientText(int port = 0) const;
    int cataloguePort() const { return cat_; }
    int storePort(int i) const { return ports_[i]; }
    std::string logs() const;
    pid_t cataloguePid() const { return servers_.back()->pid(); }
    pid_t storePid(int i) const { return servers_[i]->pid(); }
    /// Start those again that are gone, on the same ports
    void restart();
    Server& catalogue() { return *servers_.back(); }
    Server& store(int i) { return *servers_[i]; }
    /// Make clients use other ports (a proxy's) for the stores: set before construction
    static std::vector<int> advertisedStores;

private:
    Setup setup_;
    Cluster c_;
    int cat_ = 0;
    std::vector<int> ports_;
    std::vector<std::unique_ptr<Server>> servers_;
};

}  // namespace fx
