// Generated archives: settings and units, the same description for the library and for the models.
#ifndef SPEC_HPP
#define SPEC_HPP
#include "api.hpp"
#include <optional>

namespace spec {
using pbt::Ctx;
typedef std::optional<std::string> opt;

struct UnitSpec { std::string lang, src; opt filename, version, timestamp; };
struct ArchiveSpec {
    size_t options = 0;
    int tabstop = 0;
    bool solitary = false, hash = true;
    opt url, version, srcEncoding, xmlEncoding, language;
    std::optional<std::pair<std::string, std::string>> pi;
    std::vector<std::pair<std::string, std::string>> ns;
    std::vector<UnitSpec> units;
};

struct Want {                      // what to generate
    int minUnits = 1, maxUnits = 4;
    bool encodings = true;         // vary the XML encoding
    bool namespaces = true, pi = true, attributes = true;
    bool sources = true;           // varied source text; otherwise tiny sources
    int scale = 1;
};
ArchiveSpec make(Ctx& c, const Want& w = Want());
std::string describe(const ArchiveSpec& s);
srcml_archive* create(const ArchiveSpec& s);                                   // set up, not opened
srcml_unit* unit(srcml_archive* a, const UnitSpec& u, int* status = nullptr);  // created and parsed
int fill(srcml_archive* a, const ArchiveSpec& s);                              // parse and write every unit; first bad status
std::string toMemory(const ArchiveSpec& s, int* status = nullptr);

// private directory of the case, removed at the end
struct Scratch {
    std::string dir;
    Scratch();
    ~Scratch();
    std::string path(const std::string& name) const { return dir + "/" + name; }
};

} // namespace spec
#endif
