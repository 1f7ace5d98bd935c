#include "servers.h"

#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <sstream>
#include <stdexcept>

#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/YAMLConfiguration.h"
#include "fdb5/remote/FdbServer.h"
#include "mc.h"

namespace fx {

namespace {
struct Base : fdb5::remote::FdbServerBase {
    void go() { doRun(); }
    void hookUnique() override {}
};

sockaddr_in loopback(int port) {
    sockaddr_in a{};
    a.sin_family      = AF_INET;
    a.sin_port        = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return a;
}
}  // namespace

int freePort(int worker) {
    static int next = -1;
    const int width = 1200, first = 10000 + (worker % 16) * width;
    if (next < 0) {
        next = (getpid() * 37) % width;
    }
    for (int tries = 0; tries < width; ++tries) {
        int port = first + (next++ % width);
        int fd   = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        auto a   = loopback(port);
        a.sin_addr.s_addr = INADDR_ANY;
        bool ok  = ::bind(fd, (sockaddr*)&a, sizeof a) == 0;
        ::close(fd);
        if (ok) {
            return port;
        }
    }
    throw std::runtime_error("no free port");
}

bool listening(int port, double seconds) {
    // (without connecting: the servers would take it for a client)
    double end = mc::now() + seconds;
    char want[16];
    snprintf(want, sizeof want, ":%04X ", port);
    for (;;) {
        for (const char* f : {"/proc/net/tcp", "/proc/net/tcp6"}) {
            FILE* in = fopen(f, "r");
            if (!in) {
                continue;
            }
            char line[512];
            bool found = false;
            while (!found && fgets(line, sizeof line, in)) {
                char local[64], remote[64];
                unsigned st;
                if (sscanf(line, " %*d: %63s %63s %x", local, remote, &st) == 3 && st == 0x0A) {
                    char* c = strrchr(local, ':');
                    found   = c && strtol(c + 1, nullptr, 16) == port;
                }
            }
            fclose(in);
            if (found) {
                return true;
            }
        }
        if (mc::now() > end) {
            return false;
        }
        usleep(2000);
    }
}

Server::Server(const std::string& name, const Setup& s, const std::string& yaml, int port) :
    port_(port), name_(name), yaml_(yaml), setup_(s) {
    start();
}

void Server::restart() {
    kill();
    // (what it forked dies with it, but not at once)
    for (int i = 0; i < 400 && listening(port_, 0); ++i) {
        usleep(5000);
    }
    start();
}

void Server::start() {
    const Setup& s   = setup_;
    std::string conf = s.dir + "/" + name_ + ".yaml";
    logFile_         = s.dir + "/" + name_ + ".log";
    writeFile(conf, yaml_);
    fflush(nullptr);
    pid_ = fork();
    if (pid_ == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int log = ::open(logFile_.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0666);
        dup2(log, 1);
        dup2(log, 2);
        setenv("FDB5_CONFIG_FILE", conf.c_str(), 1);
        int rc = 0;
        try {
            s.apply();
            Base b;
            b.go();
        }
        catch (std::exception& e) {
            fprintf(stderr, "server ends: %s\n", e.what());
            rc = 3;
        }
        ::syscall(SYS_exit_group, rc);
    }
    setpgid(pid_, pid_);
    if (!listening(port_)) {
        std::string l = log();
        kill();
        throw std::runtime_error("server " + name_ + " does not start: " + l);
    }
}

Server::~Server() {
    kill();
}

bool Server::alive() {
    int st;
    if (pid_ > 0 && waitpid(pid_, &st, WNOHANG) != 0) {
        ended_ = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit code " + std::to_string(WEXITSTATUS(st));
        ::kill(-pid_, SIGKILL);
        pid_ = -1;
    }
    return pid_ > 0;
}

void Server::kill() {
    if (pid_ > 0) {
        ::kill(-pid_, SIGKILL);
        ::kill(pid_, SIGKILL);
        int st;
        waitpid(pid_, &st, 0);
        pid_ = -1;
    }
}

std::string Server::log() const {
    std::string l;
    try {
        l = readFile(logFile_);
    }
    catch (std::exception&) {
    }
    // (without backtraces)
    std::string out, line;
    std::istringstream in(l);
    while (std::getline(in, line)) {
        if (!line.empty() && line[0] != '(' && line[0] != '+' && line.compare(0, 2, "0x") != 0) {
            out += line.substr(0, 300) + "\n";
        }
    }
    return (ended_.empty() ? "" : "ended: " + ended_ + "\n") + (out.size() > 3000 ? out.substr(out.size() - 3000) : out);
}

std::string Cluster::describe() const {
    std::ostringstream s;
    s << (single ? "one connection" : "two connections") << (threaded ? ", threads" : ", processes");
    if (stores > 1) {
        s << ", " << stores << " stores";
    }
    if (sharedRoots) {
        s << ", shared roots";
    }
    if (local) {
        s << ", local data served";
    }
    return s.str();
}

std::vector<int> Servers::advertisedStores;

Servers::Servers(const Setup& s, const Cluster& c, int worker) : setup_(s), c_(c) {
    for (int i = 0; i < c.stores; ++i) {
        int port        = freePort(worker);
        std::string dir = c.sharedRoots ? s.root() : s.dir + "/store" + std::to_string(i);
        std::filesystem::create_directories(dir);
        std::ostringstream y;
        y << "---\ntype: store\nserverPort: " << port << "\nserverThreaded: " << (c.threaded ? "true" : "false") << "\n";
        if (c.single) {
            y << "supportedConnections: [1]\n";
        }
        y << "schema: " << s.dir << "/schema\n";
        y << "spaces:\n- handler: Default\n  roots:\n  - path: " << dir << "\n";
        servers_.emplace_back(new Server("storeserver" + std::to_string(i), s, y.str(), port));
        ports_.push_back(port);
    }
    cat_ = freePort(worker);
    std::ostringstream y;
    y << "---\ntype: catalogue\nserverPort: " << cat_ << "\nserverThreaded: " << (c.threaded ? "true" : "false") << "\n";
    if (c.single) {
        y << "supportedConnections: [1]\n";
    }
    y << "stores:\n";
    for (int i = 0; i < c.stores; ++i) {
        int p = i < (int)advertisedStores.size() ? advertisedStores[i] : ports_[i];
        y << "- default: \"localhost:" << p << "\"\n";
        if (c.local && i == 0) {
            y << "  serveLocalData: true\n";
        }
    }
    y << "schema: " << s.dir << "/schema\n";
    y << "spaces:\n- handler: Default\n";
    if (c.sharedRoots || c.local) {
        y << "  roots:\n  - path: " << s.root() << "\n";
    }
    else {
        y << "  roots:\n  - path: " << s.root() << "\n";
    }
    servers_.emplace_back(new Server("catalogueserver", s, y.str(), cat_));
}

Servers::~Servers() {}

void Servers::restart() {
    for (auto& s : servers_) {
        s->restart();
    }
}

std::string Servers::clientText(int port) const {
    std::ostringstream y;
    y << "---\ntype: remote\nstore: remote\nengine: remote\nhost: localhost\nport: " << (port ? port : cat_) << "\n";
    if (c_.single) {
        y << "supportedConnections: [1]\n";
    }
    return y.str();
}

fdb5::Config Servers::client(int port) const {
    eckit::YAMLConfiguration y(clientText(port));
    return fdb5::Config(y);
}

std::string Servers::logs() const {
    std::string r;
    for (auto& s : servers_) {
        r += "--- server\n" + s->log() + "\n";
    }
    return r;
}

}  // namespace fx
