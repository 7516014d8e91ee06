// srcml(): one call translates a file to srcML, or srcML to a file, as the library set up the same way does step by step.
#include "spec.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt; using namespace api; typedef std::string S; typedef std::optional<S> opt;

struct G { opt src, xml, lang, filename, url, version, timestamp; long options = -1; int tab = 0; size_t eol = 0; std::vector<std::pair<S, S>> ext, ns; std::optional<std::pair<S, S>> pi; };
static const char* p(const opt& o) { return o ? o->c_str() : nullptr; }

static S value(Ctx& c) { return gen::attrValue(c); }
static G draw(Ctx& c, S& d) {
    G g; auto say = [&](const S& s) { d += "  " + s + "\n"; };
    if (c.chance(1, 4)) { g.src = c.pick({ "UTF-8", "ISO-8859-1", "UTF-16" }); say("src encoding " + *g.src); }
    if (c.chance(1, 6)) { g.xml = c.pick({ "UTF-8", "ISO-8859-1", "US-ASCII" }); say("xml encoding " + *g.xml); }
    if (c.chance(1, 4)) { g.lang = c.chance(1, 5) ? S("xml") : gen::language(c); say("language " + *g.lang); }
    if (c.chance(1, 4)) { g.filename = value(c); say("filename " + quote(*g.filename)); }
    if (c.chance(1, 4)) { g.url = value(c); say("url " + quote(*g.url)); }
    if (c.chance(1, 4)) { g.version = value(c); say("version " + quote(*g.version)); }
    if (c.chance(1, 4)) { g.timestamp = value(c); say("timestamp " + quote(*g.timestamp)); }
    if (c.chance(1, 3)) { static const size_t O[] = { SRCML_OPTION_POSITION, SRCML_OPTION_CPP, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_NO_XML_DECL }; g.options = 0; for (size_t o : O) if (c.chance(1, 4)) g.options |= o; say("options " + std::to_string(g.options)); }
    if (c.chance(1, 5)) { g.tab = c.range(1, 9); say("tabstop " + std::to_string(g.tab)); }
    if (c.chance(1, 3)) { g.eol = c.pick(std::vector<size_t>{ SOURCE_OUTPUT_EOL_AUTO, SOURCE_OUTPUT_EOL_LF, SOURCE_OUTPUT_EOL_CR, SOURCE_OUTPUT_EOL_CRLF }); say("eol " + std::to_string(g.eol)); }
    if (c.chance(1, 4)) { S e = c.pick({ "foo", "xml", "c", "srcml", "x" }), l = gen::language(c); g.ext.push_back({ e, l }); say("extension " + e + " " + l); }
    if (c.chance(1, 6)) { g.ns.push_back({ c.pick({ "s", "x" }), c.pick({ SRC_NS, "urn:x", CPP_NS }) }); say("namespace " + g.ns[0].first + " " + g.ns[0].second); }
    if (c.chance(1, 8)) { g.pi = { { "target", "a data" } }; say("processing instruction"); }
    return g;
}
static void global(Ctx& c, const G& g) {
    auto ok = [&](int s, const char* w) { c.check(s == 0, S("status of ") + w); };
    if (g.src) ok(srcml_set_src_encoding(p(g.src)), "src encoding");
    if (g.xml) ok(srcml_set_xml_encoding(p(g.xml)), "xml encoding");
    if (g.lang) ok(srcml_set_language(p(g.lang)), "language");
    if (g.filename) ok(srcml_set_filename(p(g.filename)), "filename");
    if (g.url) ok(srcml_set_url(p(g.url)), "url");
    if (g.version) ok(srcml_set_version(p(g.version)), "version");
    if (g.timestamp) ok(srcml_set_timestamp(p(g.timestamp)), "timestamp");
    if (g.options >= 0) ok(srcml_set_options(g.options), "options");
    if (g.tab) ok(srcml_set_tabstop(g.tab), "tabstop");
    if (g.eol) ok(srcml_set_eol(g.eol), "eol");
    for (auto& e : g.ext) ok(srcml_register_file_extension(e.first.c_str(), e.second.c_str()), "extension");
    for (auto& n : g.ns) ok(srcml_register_namespace(n.first.c_str(), n.second.c_str()), "namespace");
    if (g.pi) ok(srcml_set_processing_instruction(g.pi->first.c_str(), g.pi->second.c_str()), "processing instruction");
}
static S showGlobal() {
    return str(srcml_get_src_encoding()) + "|" + str(srcml_get_xml_encoding()) + "|" + str(srcml_get_language()) + "|" + str(srcml_get_filename()) + "|" + str(srcml_get_url()) + "|" + str(srcml_get_version()) + "|" + str(srcml_get_timestamp()) + "|" + std::to_string(srcml_get_options()) + "|" + std::to_string(srcml_get_tabstop()) + "|" + std::to_string(srcml_get_eol()) + "|" + str(srcml_get_hash()) + "|" + std::to_string(srcml_get_namespace_size());
}
static srcml_archive* local(const G& g) {
    srcml_archive* a = srcml_archive_create();
    if (g.src) srcml_archive_set_src_encoding(a, p(g.src));
    if (g.xml) srcml_archive_set_xml_encoding(a, p(g.xml));
    if (g.lang) srcml_archive_set_language(a, p(g.lang));
    if (g.url) srcml_archive_set_url(a, p(g.url));
    if (g.version) srcml_archive_set_version(a, p(g.version));
    if (g.options >= 0) srcml_archive_set_options(a, g.options);
    if (g.tab) srcml_archive_set_tabstop(a, g.tab);
    for (auto& e : g.ext) srcml_archive_register_file_extension(a, e.first.c_str(), e.second.c_str());
    for (auto& n : g.ns) srcml_archive_register_namespace(a, n.first.c_str(), n.second.c_str());
    if (g.pi) srcml_archive_set_processing_instruction(a, g.pi->first.c_str(), g.pi->second.c_str());
    return a;
}
static bool ends(const S& s, const S& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

static void body(Ctx& c) {
    spec::Scratch dir; S d; G g = draw(c, d);
    bool twice = c.chance(1, 4);
    if (chdir(dir.dir.c_str()) != 0) c.discard();
    // the input
    S name = c.chance(1, 3) ? S(c.pick({ "a", "src", "ml", "x.y", "", "dir.c/a" })) : "input"; S ext = c.pick({ ".c", ".cpp", ".java", ".cs", ".h", ".xml", ".xml", ".xml", ".srcml", ".srcml", ".XML", ".Xml", ".SRCML", ".foo", "", ".x", "xml", "srcml", ".txt", ".m", ".hpp", ".CPP" });
    S in = name + ext; if (in.empty()) in = "b"; if (in.find('/') != S::npos) mkdir("dir.c", 0700);
    S low; for (char x : in) low += (char) tolower(x);
    S kind; opt content; S lang = gen::language(c);
    bool named = c.chance(3, 4);      // content that goes with the name
    int k = named ? (ends(low, "ml") ? c.range(0, 5) : c.range(6, 9)) : c.range(0, 11);
    if (k <= 5) {      // srcML
        spec::Want w; w.minUnits = k == 0 ? 0 : 1; w.maxUnits = k == 0 ? 0 : k == 1 ? 3 : 1; auto s = spec::make(c, w);
        if (k == 0) { s.units.clear(); s.solitary = false; } content = spec::toMemory(s); kind = "srcML of " + std::to_string(s.units.size()) + " units";
        if (k == 5 && c.chance(1, 2)) { content = c.pick({ "", "<unit", "<a/>", "text", "<unit xmlns=\"http://www.srcML.org/srcML/src\"><name>a</unit>" }); kind = "malformed"; }
        if (!s.units.empty()) for (auto& n : s.ns) if (n.second.find('&') != S::npos) c.discard();
    } else if (k <= 9) { content = gen::source(c, lang); if (c.chance(1, 6)) content = *content + "\r\nx;\r\n"; kind = "source"; }
    else if (k == 10) { content = ""; kind = "empty"; }
    else kind = "missing";
    if (content) writeFile(in, *content);
    S out = c.chance(1, 12) ? "no/such/directory/out" : "out";
    if (c.chance(1, 3) && out == "out") writeFile("out", S(5000, 'z'));      // replaced
    c.note("srcml(" + in + ", " + out + ") with\n" + d + kind + (content ? "\n" + *content : S()));
    // the call
    global(c, g); S before = showGlobal();
    if (c.chance(1, 30)) { c.check(srcml(nullptr, "o") == SRCML_STATUS_INVALID_ARGUMENT && srcml(in.c_str(), nullptr) == SRCML_STATUS_INVALID_ARGUMENT, "status without a name"); c.check(srcml_error_string() && *srcml_error_string(), "message"); }
    if (twice) { srcml(in.c_str(), out.c_str()); c.label("called again"); }
    int st = srcml(in.c_str(), out.c_str()); S got = access("out", F_OK) == 0 ? readFile("out") : S("(no file)"); c.evals();
    c.eq(showGlobal(), before, "settings after srcml()");
    // step by step
    srcml_archive* a = local(g); bool source = srcml_archive_check_extension(a, in.c_str()) != nullptr;
    bool srcml = !source && (ends(low, ".xml") || ends(low, ".srcml") || (g.lang && *g.lang == "xml"));
    if (low == ".xml") srcml = g.lang && *g.lang == "xml";      // a name that is only the extension
    if (low == ".srcml") srcml = true;
    if (source) {
        c.label("to srcML"); srcml_archive_enable_solitary_unit(a); int w = 0; bool written = false;
        if ((w = srcml_archive_write_open_filename(a, out == "out" ? "out2" : out.c_str())) == 0) {
            srcml_unit* u = srcml_unit_create(a); srcml_unit_set_filename(u, g.filename ? p(g.filename) : in.c_str()); srcml_unit_set_timestamp(u, p(g.timestamp)); srcml_unit_set_version(u, p(g.version)); srcml_unit_set_language(u, p(g.lang));
            if ((w = srcml_unit_parse_filename(u, in.c_str())) == 0) { w = srcml_archive_write_unit(a, u); written = w == 0; }
            srcml_unit_free(u); srcml_archive_close(a); }
        c.check(st == w, "status", "got " + std::to_string(st) + ", step by step " + std::to_string(w)); if (written) { c.eq(got, readFile("out2"), "document"); c.label("document"); c.nontrivial(); }
    } else if (!srcml) {
        c.label("not a name for srcml()"); c.check(st == SRCML_STATUS_INVALID_INPUT, "status", std::to_string(st)); c.check(srcml_error_string() && *srcml_error_string(), "message");
    } else {
        c.label("to source"); int w = srcml_archive_read_open_filename(a, in.c_str()); bool written = false;
        if (w == 0) { srcml_unit* u = srcml_archive_read_unit(a); if (u) { if (g.eol) srcml_unit_set_eol(u, g.eol); w = srcml_unit_unparse_filename(u, out == "out" ? "out2" : out.c_str()); written = w == 0; srcml_unit_free(u); } else { w = -1; c.label("no unit"); } }
        c.check(w == -1 ? st != 0 : st == w, "status", "got " + std::to_string(st) + ", step by step " + std::to_string(w)); if (written) { c.eq(got, readFile("out2"), "source"); c.label("source"); c.nontrivial(); }
    }
    srcml_archive_free(a); if (chdir("/") != 0) c.discard();
}
static void prop(Ctx& c) { isolated(c, [&] { body(c); }); }
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C24"; k.prop = prop; k.quick_cases = 20000; k.thorough_cases = 150000;
    k.rule = "one process per case: drawn library settings, names with and without extensions, source, srcML, malformed, and missing inputs; compared with the same steps on an archive set up directly; non-trivial: a document or source was written";
    return run(k, argc, argv);
}
