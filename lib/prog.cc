#include "prog.h"

#include <sstream>

#include "mc.h"

namespace fx {

const std::vector<KV>& progFields() {
    static const std::vector<KV> f = {
        {{"class", "od"}, {"expver", "1"}, {"type", "an"}, {"step", "0"}, {"param", "x"}},
        {{"class", "od"}, {"expver", "1"}, {"type", "an"}, {"step", "0"}, {"param", "y"}},
        {{"class", "od"}, {"expver", "1"}, {"type", "fc"}, {"step", "0"}, {"param", "x"}},
        {{"class", "od"}, {"expver", "2"}, {"type", "an"}, {"step", "0"}, {"param", "x"}},
    };
    return f;
}

std::vector<Step> program(const std::string& text, int first) {
    std::vector<Step> r;
    std::istringstream in(text);
    std::string w;
    int v = first;
    while (in >> w) {
        Step s{w[0], 0, 0};
        if (w[0] == 'A') {
            s.f = w[1] - '0';
            s.v = v++;
        }
        r.push_back(s);
    }
    return r;
}

fdb5::FDB& Runner::fdb() {
    if (!fdb_) {
        fdb_.reset(new fdb5::FDB(setup_.config()));
    }
    return *fdb_;
}

void Runner::step(const Step& s) {
    switch (s.kind) {
        case 'A': {
            std::string data = payload(s.f, s.v);
            fdb().archive(key(progFields()[s.f]), data.data(), data.size());
            break;
        }
        case 'F':
            fdb().flush();
            break;
        case 'C':
            fdb_.reset();
            break;
    }
}

std::string observe(const Setup& s, bool retrieveToo) {
    const auto& fields = progFields();
    std::map<std::string, int> byKey;
    for (size_t f = 0; f < fields.size(); ++f) {
        byKey[str(fields[f])] = f;
    }
    std::ostringstream out;
    fdb5::FDB fdb(s.config());
    for (int full = 0; full < 2; ++full) {
        try {
            for (auto& e : list(fdb, {}, full ? Full : Dedup)) {
                auto it = byKey.find(e.key);
                int f, v;
                if (it == byKey.end() || sscanf(e.bytes.c_str(), "%d:%d", &f, &v) != 2 || f != it->second ||
                    e.bytes.find('+') != std::string::npos) {
                    out << "X " << (full ? "full " : "") << "list: " << e.key << " -> " << e.bytes << "\n";
                }
                else {
                    out << (full ? "D " : "L ") << f << " " << v << "\n";
                }
            }
        }
        catch (std::exception& e) {
            out << "X " << (full ? "full " : "") << "list: exception: " << e.what() << "\n";
        }
    }
    if (retrieveToo) {
        for (size_t f = 0; f < fields.size(); ++f) {
            try {
                std::string r = retrieve(fdb, fields[f]);
                int g, v;
                if (r.empty()) {}
                else if (sscanf(r.c_str(), "%d:%d", &g, &v) != 2 || g != (int)f || r.find('+') != std::string::npos) {
                    out << "X retrieve: " << str(fields[f]) << " -> " << r << "\n";
                }
                else {
                    out << "R " << f << " " << v << "\n";
                }
            }
            catch (std::exception& e) {
                out << "X retrieve: " << str(fields[f]) << ": exception: " << e.what() << "\n";
            }
        }
    }
    return out.str();
}

Seen parseObserved(const std::string& text) {
    Seen s;
    for (int& r : s.retrieved) {
        r = 0;
    }
    for (auto& line : mc::split(text, '\n')) {
        int f, v;
        if (line[0] == 'X') {
            s.bad.push_back(line.substr(2));
        }
        else if (sscanf(line.c_str() + 2, "%d %d", &f, &v) == 2) {
            if (line[0] == 'L') {
                s.list[f].push_back(v);
            }
            else if (line[0] == 'D') {
                s.full[f].push_back(v);
            }
            else {
                s.retrieved[f] = v;
            }
        }
    }
    return s;
}

std::string Seen::str() const {
    std::ostringstream o;
    for (int f = 0; f < 8; ++f) {
        if (!list[f].empty() || retrieved[f]) {
            o << "f" << f << " list=";
            for (int v : list[f]) {
                o << v << ",";
            }
            o << " retrieve=" << retrieved[f] << "; ";
        }
    }
    for (auto& b : bad) {
        o << b << "; ";
    }
    return o.str();
}

}  // namespace fx
