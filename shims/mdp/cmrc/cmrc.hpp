// stand-in for CMakeRC: no embedded resources
#ifndef VERIF_FAKE_CMRC
#define VERIF_FAKE_CMRC
#include <stdexcept>
#include <string>
namespace cmrc {
struct file {
    const char *begin() const { return ""; }
    const char *end() const { return begin(); }
    std::size_t size() const { return 0; }
};
struct directory_entry {
    bool        is_file() const { return false; }
    bool        is_directory() const { return false; }
    std::string filename() const { return {}; }
};
struct directory_iterator {
    const directory_entry *begin() const { return nullptr; }
    const directory_entry *end() const { return nullptr; }
};
struct embedded_filesystem {
    bool               is_file(const std::string &) const { return false; }
    bool               is_directory(const std::string &) const { return false; }
    bool               exists(const std::string &) const { return false; }
    file               open(const std::string &) const { throw std::runtime_error("no embedded resources"); }
    directory_iterator iterate_directory(const std::string &) const { return {}; }
};
} // namespace cmrc
#define CMRC_DECLARE(libid)                                                                                             \
    namespace cmrc {                                                                                                    \
    namespace libid {                                                                                                   \
    inline cmrc::embedded_filesystem get_filesystem() { return {}; }                                                    \
    }                                                                                                                   \
    }                                                                                                                   \
    static_assert(true)
#endif
