#include "spec.hpp"
#include <filesystem>
#include <unistd.h>

namespace spec {

static opt maybe(Ctx& c, int num, int den) { if (!c.chance(num, den)) return {}; return gen::attrValue(c); }

ArchiveSpec make(Ctx& c, const Want& w) {
    ArchiveSpec s;
    for (size_t o : { SRCML_OPTION_POSITION, SRCML_OPTION_CPP, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_STORE_ENCODING })
        if (c.chance(1, 4)) s.options |= o;
    if (c.chance(1, 8)) s.options |= SRCML_OPTION_NO_XML_DECL;
    if (c.chance(1, 4)) s.tabstop = c.range(1, 9);
    s.hash = !c.chance(1, 4);
    s.srcEncoding = "UTF-8";
    if (w.encodings && c.chance(1, 4)) s.xmlEncoding = c.pick({ "UTF-8", "ISO-8859-1", "UTF-16", "UTF-16LE", "US-ASCII", "ISO-8859-15" });
    if (s.xmlEncoding && *s.xmlEncoding != "UTF-8") s.options &= ~(size_t) SRCML_OPTION_NO_XML_DECL;   // without a declaration it could not be read back
    if (w.attributes) {
        s.url = maybe(c, 1, 3);
        s.version = maybe(c, 1, 3);
    }
    if (w.pi && c.chance(1, 6)) s.pi = std::make_pair(std::string(c.pick({ "xml-stylesheet", "srcml", "p-i" })), std::string(c.pick({ "href=\"a.css\"", "type='text/xsl' href=\"b.xsl\"", "data", "a b  c" })));
    if (w.namespaces) {
        int n = c.chance(1, 3) ? c.range(1, 3) : 0;
        static const std::vector<std::pair<std::string, std::string>> NS = {
            { "ext", "http://example.org/ext" }, { "x", "urn:x" }, { "a-b", "http://example.org/?a=1&b=2" }, { "s", api::SRC_NS }, { "pre", api::CPP_NS }, { "p", api::POS_NS } };
        for (int i = 0; i < n; ++i) {
            auto p = c.pick(NS);
            bool dup = false;
            for (auto& q : s.ns) dup = dup || q.first == p.first;
            if (!dup) s.ns.push_back(p);
        }
    }
    int n = c.range(w.minUnits, w.maxUnits);
    s.solitary = n == 1 && c.boolean();
    for (int i = 0; i < n; ++i) {
        UnitSpec u;
        u.lang = gen::language(c);
        u.src = w.sources ? gen::source(c, u.lang, w.scale) : gen::word(c) + ";\n";
        if (w.attributes) { u.filename = maybe(c, 1, 2); u.version = maybe(c, 1, 4); u.timestamp = maybe(c, 1, 4); }
        s.units.push_back(u);
    }
    return s;
}

static std::string show(const char* n, const opt& o) { return o ? std::string(" ") + n + "=" + pbt::quote(*o) : ""; }

std::string describe(const ArchiveSpec& s) {
    std::string d = "archive options " + std::to_string(s.options) + " tabstop " + std::to_string(s.tabstop) + (s.solitary ? " solitary" : "") + (s.hash ? "" : " nohash");
    d += show("url", s.url) + show("version", s.version) + show("src-encoding", s.srcEncoding) + show("xml-encoding", s.xmlEncoding) + show("language", s.language);
    if (s.pi) d += " pi " + s.pi->first + " " + s.pi->second;
    for (auto& n : s.ns) d += " xmlns:" + n.first + "=" + n.second;
    for (auto& u : s.units) d += "\n  unit " + u.lang + show("filename", u.filename) + show("version", u.version) + show("timestamp", u.timestamp) + "\n" + u.src;
    return d;
}

srcml_archive* create(const ArchiveSpec& s) {
    srcml_archive* a = srcml_archive_create();
    for (int b = 0; b < 7; ++b) if (s.options & (1u << b)) srcml_archive_enable_option(a, 1u << b);
    if (s.tabstop) srcml_archive_set_tabstop(a, s.tabstop);
    if (s.hash) srcml_archive_enable_hash(a); else srcml_archive_disable_hash(a);
    if (s.srcEncoding) srcml_archive_set_src_encoding(a, s.srcEncoding->c_str());
    if (s.xmlEncoding) srcml_archive_set_xml_encoding(a, s.xmlEncoding->c_str());
    if (s.language) srcml_archive_set_language(a, s.language->c_str());
    if (s.url) srcml_archive_set_url(a, s.url->c_str());
    if (s.version) srcml_archive_set_version(a, s.version->c_str());
    if (s.pi) srcml_archive_set_processing_instruction(a, s.pi->first.c_str(), s.pi->second.c_str());
    for (auto& n : s.ns) srcml_archive_register_namespace(a, n.first.c_str(), n.second.c_str());
    if (s.solitary) srcml_archive_enable_solitary_unit(a); else srcml_archive_disable_solitary_unit(a);
    return a;
}

srcml_unit* unit(srcml_archive* a, const UnitSpec& s, int* status) {
    srcml_unit* u = srcml_unit_create(a);
    srcml_unit_set_language(u, s.lang.c_str());
    if (s.filename) srcml_unit_set_filename(u, s.filename->c_str());
    if (s.version) srcml_unit_set_version(u, s.version->c_str());
    if (s.timestamp) srcml_unit_set_timestamp(u, s.timestamp->c_str());
    int st = srcml_unit_parse_memory(u, s.src.data(), s.src.size());
    if (status) *status = st;
    return u;
}

int fill(srcml_archive* a, const ArchiveSpec& s) {
    int bad = 0;
    for (auto& us : s.units) {
        int st = 0;
        srcml_unit* u = unit(a, us, &st);
        if (!st) st = srcml_archive_write_unit(a, u);
        srcml_unit_free(u);
        if (st && !bad) bad = st;
    }
    return bad;
}

std::string toMemory(const ArchiveSpec& s, int* status) {
    srcml_archive* a = create(s);
    char* buf = nullptr; size_t size = 0;
    int st = srcml_archive_write_open_memory(a, &buf, &size);
    if (!st) st = fill(a, s);
    srcml_archive_close(a);
    srcml_archive_free(a);
    std::string r = buf ? std::string(buf, size) : "";
    if (buf) srcml_memory_free(buf);
    if (status) *status = st;
    return r;
}

Scratch::Scratch() {
    const char* root = getenv("VERIF_SCRATCH");
    std::string t = std::string(root && *root ? root : "/tmp") + "/verif-case-XXXXXX";
    char* d = mkdtemp(t.data());
    dir = d ? d : "";
    if (dir.empty()) { perror("mkdtemp"); _exit(3); }
}
Scratch::~Scratch() { std::error_code ec; if (dir.find("/verif-case-") != std::string::npos) std::filesystem::remove_all(dir, ec); }

} // namespace spec
