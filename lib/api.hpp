// Thin helpers over the public libsrcml API and an independent XML reading (libxml2 tree).
#ifndef API_HPP
#define API_HPP
#include <srcml.h>
#include "pbt.hpp"
#include "gen.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <string>
#include <vector>

namespace api {
using pbt::Ctx;

std::string str(const char* p);                 // NULL becomes "(null)"
extern const char* SRC_NS;
extern const char* CPP_NS;
extern const char* OMP_NS;
extern const char* POS_NS;
extern const char* DIFF_NS;

struct Parsed {
    int status = -1;
    std::string srcml, outer, inner, hash, language, encoding, filename;
    int loc = -1;
};

struct Opts {
    size_t options = 0;            // options to enable (public ones)
    size_t disable = 0;
    int tabstop = 0;               // 0: default
    std::string src_encoding;      // archive
    std::string filename, version, timestamp, url;   // empty: unset
    bool hash = true;
    std::vector<std::pair<std::string, std::string>> ns;
    std::vector<std::pair<std::string, std::string>> macros;
};

srcml_archive* archive(const Opts& o);          // created and set up, not opened
// parse one piece of source from memory in a fresh archive
Parsed parse(const std::string& src, const std::string& lang, const Opts& o = Opts());
// whole srcML document (solitary or archive of one) of the source
std::string document(const std::string& src, const std::string& lang, const Opts& o = Opts(), bool solitary = true);
// source back from a srcML document, unit number k
bool unparse(const std::string& doc, std::string& src, int k = 0, int* status = nullptr);

// ---- XML
struct Doc {
    xmlDocPtr d = nullptr;
    std::string error;
    explicit Doc(const std::string& s);
    ~Doc() { if (d) xmlFreeDoc(d); }
    Doc(const Doc&) = delete;
    bool ok() const { return d != nullptr; }
    xmlNodePtr root() const { return d ? xmlDocGetRootElement(d) : nullptr; }
};
std::string nsOf(xmlNodePtr n);
std::string nameOf(xmlNodePtr n);
std::string attr(xmlNodePtr n, const char* name, bool* has = nullptr);
bool isSrc(xmlNodePtr n, const char* name);
// text of the unit with srcML escape elements turned into their characters
std::string textOf(xmlNodePtr n);
// canonical dump of a node: {uri}name, sorted attributes, text; without namespace declarations
std::string canon(xmlNodePtr n, bool dropPositions = false);
std::string canonDoc(const std::string& s, bool dropPositions = false);     // "(ill-formed)" when it cannot be read
std::vector<xmlNodePtr> units(xmlNodePtr root);     // the unit elements: children of an archive, or the root itself
bool conv(const char* to, const char* from, const std::string& in, std::string& out);   // strict: false when anything cannot be converted
std::string lf(const std::string& s);               // CR and CRLF to LF
int lineCount(const std::string& s);
std::string sha1(const std::string& s);
void quietXml();

std::string readFile(const std::string& f);
void writeFile(const std::string& f, const std::string& s);

} // namespace api
#endif
