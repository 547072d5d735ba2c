// small helpers shared by the harnesses: arguments, statistics, JSON output of byte strings
#ifndef VERIF_HUTIL_HPP
#define VERIF_HUTIL_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <unistd.h>
#include <utility>
#include <vector>
namespace hu {
struct Args {
    std::string                        out      = "out.ndjson";
    std::string                        statFile = "stats.txt";
    unsigned long long                 seed     = 1;
    bool                               thorough = false;
    std::map<std::string, std::string> kv;
    Args(int argc, char **argv) {
        for (int i = 1; i < argc; ++i) {
            std::string s = argv[i];
            auto        p = s.find('=');
            if (p == std::string::npos) kv[s] = "1";
            else kv[s.substr(0, p)] = s.substr(p + 1);
        }
        if (kv.count("out")) out = kv["out"];
        if (kv.count("stats")) statFile = kv["stats"];
        if (kv.count("seed")) seed = std::strtoull(kv["seed"].c_str(), nullptr, 10);
        thorough = kv.count("tier") && kv["tier"] == "thorough";
    }
    std::string str(const char *k, const char *d) const {
        auto it = kv.find(k);
        return it == kv.end() ? d : it->second;
    }
    long num(const char *k, long d) const {
        auto it = kv.find(k);
        return it == kv.end() ? d : std::atol(it->second.c_str());
    }
    void stat(const char *k, long v) const {
        if (auto *f = std::fopen(statFile.c_str(), "a")) {
            std::fprintf(f, "%s %ld\n", k, v);
            std::fclose(f);
        }
    }
};
inline std::string bytes(std::string_view s) { // JSON array of byte codes
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (i) r += ",";
        r += std::to_string(static_cast<unsigned>(static_cast<unsigned char>(s[i])));
    }
    return r + "]";
}
inline std::string opt(const std::optional<std::string> &s) { // [] or [[...]]
    return s ? "[" + bytes(*s) + "]" : "[]";
}
// the record being produced: on a crash inside the code under test the input stays visible in <file>.cur
struct Current {
    int fd;
    explicit Current(const std::string &out);
    void set(const std::string &s) const;
};
} // namespace hu
#include <fcntl.h>
namespace hu {
inline Current::Current(const std::string &out) : fd(::open((out + ".cur").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644)) {}
inline void Current::set(const std::string &s) const {
    std::string t = s;
    t.resize(std::max<std::size_t>(t.size(), 4000), ' ');
    t += "\n";
    if (::pwrite(fd, t.data(), t.size(), 0) < 0) std::_Exit(75);
}
} // namespace hu
#endif
