// build: asan
// Reading damaged or foreign documents ends, stays inside of its memory, and gives the units in front of the damage unchanged.
#include "spec.hpp"
#include <unistd.h>
using namespace pbt; using namespace api; typedef std::string S;

static S xmlPiece(Ctx& c) { return c.pick({ "<", ">", "&", "\"", "'", "/", "<unit>", "</unit>", "<unit", "<unit/>", "<!--", "-->", "<![CDATA[", "]]>", "<?a", "?>", "<?xml version=\"1.0\"?>", "&amp;", "&lt;", "&foo;", "&#0;", "&#x41;", "&#xFFFF;", "&#", "<!DOCTYPE unit>", "<a:b/>", "<a/>", "</a>", " xmlns=\"x\"", " xmlns:a=\"y\"", " a=\"b\"", " a=b", " a", "=", "<escape char=\"0x1\"/>", "<escape char=\"\"/>", "<escape/>", "<escape char=\"0xFFFFFFFFFFFFFFFF\"/>", "<escape char=\"zz\">t</escape>", "<macro-list token=\"A\" type=\"src:macro\"/>", "<macro-list/>", "<macro-list token=\"A\"/>", "<macro-list type=\"src:macro\"/>", "<unit language=\"C++\">", "<unit xmlns=\"http://www.srcML.org/srcML/src\">", "<unit revision=\"1.0.0\" language=\"\" filename=\"\">", "text", " ", "\n", "\r", "\t", "\x01", "\xff", "é", "\xEF\xBB\xBF", "<s:unit xmlns:s=\"http://www.srcML.org/srcML/src\">", "</s:unit>" }); }
static S damage(Ctx& c, S s, size_t at) {
    if (at > s.size()) at = s.size();
    switch (c.range(0, 7)) {
    case 0: return s.substr(0, at);
    case 1: if (at < s.size()) s[at] = (char) c.draw(256); return s;
    case 2: if (at < s.size()) s[at] ^= (char) (1 << c.draw(8)); return s;
    case 3: s.insert(at, xmlPiece(c)); return s;
    case 4: return s.substr(0, at) + s.substr(std::min(s.size(), at + 1 + c.size(40)));
    case 5: { size_t n = 1 + c.size(60); S p = s.substr(at, n); s.insert(at, p); return s; }
    case 6: { S p; for (int k = c.range(1, 30); k--;) p += (char) c.draw(256); s.insert(at, p); return s; }
    default: { size_t b = c.draw(s.size() + 1); S p = s.substr(std::min(at, b), 1 + c.size(80)); s.insert(at, p); return s; }
    }
}
// XML of any vocabulary, mostly srcML's
static S element(Ctx& c, int d) {
    S n = c.pick({ "unit", "unit", "unit", "s:unit", "name", "expr", "cpp:define", "escape", "macro-list", "a", "x:b", "diff:common" }), r = "<" + n;
    for (int k = c.range(0, 4); k > 0; --k) switch (c.range(0, 9)) {
        case 0: r += " xmlns=\"" + S(c.pick({ SRC_NS, "", "urn:x", "http://www.sdml.info/srcML/src" })) + "\""; break;
        case 1: r += " xmlns:" + S(c.pick({ "s", "x", "cpp", "pos", "omp", "diff", "d" })) + "=\"" + c.pick({ SRC_NS, CPP_NS, POS_NS, OMP_NS, DIFF_NS, "urn:y", "http://www.sdml.info/srcML/cpp" }) + "\""; break;
        case 2: r += " revision=\"" + S(c.pick({ "1.0.0", "", "0.9.5", "x" })) + "\""; break;
        case 3: r += " language=\"" + S(c.pick({ "C++", "Java", "", "Nope", "c" })) + "\""; break;
        case 4: r += " filename=\"" + gen::word(c) + "\""; break;
        case 5: r += " options=\"" + S(c.pick({ "CPP", "ELSE,IF0", ",", "CPP,CPP,,X", "LINE" })) + "\""; break;
        case 6: r += " " + S(c.pick({ "pos:tabs", "tabs", "pos:start", "src-encoding", "hash", "timestamp", "version", "url", "item", "dir", "xml:space", "xml:lang" })) + "=\"" + c.pick({ "4", "0", "-1", "99999999999999999999", "x", "", "UTF-8", "&amp;", "a b" }) + "\""; break;
        case 7: r += " char=\"" + S(c.pick({ "0x1", "0xc", "1", "", "-1", "0x100", "zz" })) + "\""; break;
        case 8: if (!c.chance(1, 3)) r += " token=\"" + gen::word(c) + "\""; if (!c.chance(1, 3)) r += " type=\"" + S(c.pick({ "src:macro", "x" })) + "\""; break;
        default: r += " " + gen::word(c) + "=\"" + gen::word(c) + "\""; }
    if (c.chance(1, 6)) return r + "/>";
    r += ">";
    for (int k = d > 0 ? c.range(0, 4) : 0; k > 0; --k) switch (c.range(0, 8)) {
        case 0: r += gen::word(c); break; case 1: r += "\n"; break; case 2: r += "<!-- c -->"; break; case 3: r += "<?pi data?>"; break; case 4: r += "<![CDATA[a<b]]>"; break; case 5: r += c.pick({ "&lt;", "&#65;", "&e;", "&#13;" }); break;
        default: r += element(c, d - 1); }
    return r + "</" + n + ">";
}
static S foreign(Ctx& c) {
    S r; if (c.chance(1, 2)) r += S("<?xml version=\"1.0\"") + (c.boolean() ? " encoding=\"" + S(c.pick({ "UTF-8", "UTF-16", "ISO-8859-1", "nope", "" })) + "\"" : "") + (c.boolean() ? " standalone=\"yes\"" : "") + "?>\n";
    if (c.chance(1, 5)) r += c.pick({ "<!DOCTYPE unit>", "<!DOCTYPE unit [<!ENTITY e \"x\">]>", "<!DOCTYPE unit [<!ENTITY e \"<unit/>\">]>", "<!DOCTYPE unit [<!ATTLIST unit language CDATA \"C++\">]>", "<!DOCTYPE unit SYSTEM \"no-such.dtd\">" });
    if (c.chance(1, 5)) r += c.pick({ "<?target data?>\n", "<!-- comment -->\n", "<?x?>" });
    S e = element(c, c.range(0, 4)); if (c.chance(2, 3) && e.compare(0, 5, "<unit") == 0 && e.find("xmlns=") == S::npos) e.insert(5, S(" xmlns=\"") + SRC_NS + "\" xmlns:s=\"" + SRC_NS + "\" xmlns:cpp=\"" + CPP_NS + "\" xmlns:x=\"urn:x\" xmlns:pos=\"" + POS_NS + "\" xmlns:diff=\"" + DIFF_NS + "\"");
    r += e; if (c.chance(1, 6)) r += c.pick({ "\n", "<!-- after -->", "text", "<unit/>", "<?p?>" });
    return r;
}
static S view(Ctx& c, srcml_unit* u, bool all, srcml_archive* out, S* srcml = nullptr) {
    S r = str(srcml_unit_get_language(u)) + "|" + str(srcml_unit_get_filename(u)) + "|" + str(srcml_unit_get_version(u)) + "|" + str(srcml_unit_get_timestamp(u)) + "|" + str(srcml_unit_get_hash(u)) + "|" + str(srcml_unit_get_src_encoding(u)) + "|" + str(srcml_unit_get_revision(u)) + "|" + std::to_string(srcml_unit_get_loc(u));
    S full = str(srcml_unit_get_srcml(u)); r += "\n" + full + "\n" + str(srcml_unit_get_srcml_outer(u)) + "\n" + str(srcml_unit_get_srcml_inner(u)); if (srcml) *srcml = full;
    if (all) {
        char* b = nullptr; size_t n = 0; int st = srcml_unit_unparse_memory(u, &b, &n); r += "\n" + std::to_string(st) + " " + (b ? S(b, n) : ""); if (b) srcml_memory_free(b);
        if (out) srcml_archive_write_unit(out, u);
        if (c.chance(1, 4)) { srcml_archive* q = srcml_archive_create(); srcml_append_transform_xpath(q, c.pick({ "//src:name", "/src:unit", "//*", "count(//node())", "string(/)", "//@*" })); srcml_transform_result* t = nullptr; srcml_unit_apply_transforms(q, u, &t); if (t) { for (int k = 0; k < srcml_transform_get_unit_size(t); ++k) if (srcml_unit* x = srcml_transform_get_unit(t, k)) { srcml_unit_get_srcml(x); srcml_unit_get_srcml_inner(x); srcml_unit_get_srcml_outer(x); } srcml_transform_free(t); } srcml_archive_free(q); }
    }
    return r;
}
static S head(srcml_archive* a) {
    S r = str(srcml_archive_get_url(a)) + str(srcml_archive_get_version(a)) + str(srcml_archive_get_xml_encoding(a)) + str(srcml_archive_get_language(a)) + str(srcml_archive_get_revision(a)) + str(srcml_archive_get_processing_instruction_target(a)) + str(srcml_archive_get_processing_instruction_data(a)) + std::to_string(srcml_archive_get_tabstop(a));
    for (size_t i = 0; i < srcml_archive_get_namespace_size(a); ++i) r += str(srcml_archive_get_namespace_prefix(a, i)) + str(srcml_archive_get_namespace_uri(a, i));
    return r;
}
struct IO { S s; size_t at; }; static int rd(void* p, char* b, int n) { auto io = (IO*) p; size_t k = std::min((size_t) n, io->s.size() - io->at); memcpy(b, io->s.data() + io->at, k); io->at += k; return (int) k; }
static int cl(void*) { return 0; }

// an archive has only units, macros, and white space
static bool shaped(xmlNodePtr r) {
    if (!r) return false; xmlNodePtr first = r->children; while (first && (first->type != XML_ELEMENT_NODE || nameOf(first) == "macro-list")) first = first->next;
    if (!first || nameOf(first) != "unit") return true;
    for (xmlNodePtr k = first; k; k = k->next) if (k->type == XML_ELEMENT_NODE && nameOf(k) != "unit") return false;
    return true;
}

static void prop(Ctx& c) {
    S doc, bad; std::vector<size_t> end; std::vector<S> want; const char* kind;
    size_t at = 0; bool encoded = false;
    if (c.chance(1, 3)) { kind = "foreign"; bad = foreign(c); for (int k = c.range(-2, 2); k > 0; --k) bad = damage(c, bad, c.draw(bad.size() + 1)); }
    else if (c.chance(1, 12)) { kind = "bytes"; for (int k = c.size(300); k > 0; --k) bad += c.chance(1, 3) ? xmlPiece(c) : S(1, (char) c.draw(256)); }
    else {
        kind = "damaged"; spec::Want w; w.maxUnits = 5; w.encodings = c.chance(1, 5); auto s = spec::make(c, w); encoded = s.xmlEncoding.has_value(); for (auto& n : s.ns) if (n.second.find('&') != S::npos) c.discard();
        doc = spec::toMemory(s);
        srcml_archive* a = srcml_archive_create(); c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open", doc);
        while (srcml_unit* u = srcml_archive_read_unit(a)) { want.push_back(view(c, u, false, nullptr)); srcml_unit_free(u); }
        srcml_archive_free(a); c.check(want.size() == s.units.size(), "units of the undamaged document", doc);
        if (!encoded && want.size() > 1) { size_t p = 0; while ((p = doc.find("</unit>", p)) != S::npos) { p += 7; end.push_back(p); } if (end.size() != want.size() + 1) end.clear(); }     // empty units are <unit/>
        at = c.boolean() || end.empty() ? c.draw(doc.size() + 1) : end[c.draw(end.size())] + c.draw(30); if (c.chance(1, 6)) { size_t q = doc.find('>', doc.find("<unit") == S::npos ? 0 : doc.find("<unit")); if (q != S::npos) { at = q + 1; if (c.boolean()) { static const S macros[] = { "<macro-list token=\"A\"/>", "<macro-list type=\"src:macro\"/>", "<macro-list token=\"A\" type=\"src:macro\"/>", "<macro-list/>" }; doc.insert(at, macros[c.draw(4)]); end.clear(); want.clear(); c.label("macro in front"); } } } bad = damage(c, doc, at);
    }
    c.label(kind); c.note(S(kind) + " at " + std::to_string(at) + "\n" + bad);
    size_t before = 0; for (size_t i = 0; i + 1 < end.size(); ++i) if (end[i] <= at) ++before;
    // exactly as many bytes as there are
    char* p = (char*) malloc(bad.size() ? bad.size() : 1); memcpy(p, bad.data(), bad.size()); IO io{ bad, 0 };
    srcml_archive* a = srcml_archive_create(); int st = c.boolean() ? srcml_archive_read_open_memory(a, p, bad.size()) : srcml_archive_read_open_io(a, &io, rd, cl);
    c.label(st ? "refused" : "opened"); size_t got = 0; if (before) c.check(st == 0, "open of a document with damage after a unit", bad);
    Doc t(bad); bool well = t.ok() && bad.find("<!DOCTYPE") == S::npos && shaped(t.root());      // srcML has no document types, entities are not expanded
    if (st == 0) {
        head(a); srcml_archive* o = nullptr; char* b = nullptr; size_t n = 0; bool same = c.boolean(), wrote = false;     // a clone has the namespaces that the units use
        if (c.boolean()) { o = same ? srcml_archive_clone(a) : srcml_archive_create(); if (srcml_archive_write_open_memory(o, &b, &n)) { srcml_archive_free(o); o = nullptr; } }
        while (true) {
            if (c.chance(1, 8)) { srcml_archive_skip_unit(a); ++got; if (got > bad.size() / 4 + 3) break; continue; }
            srcml_unit* u = srcml_archive_read_unit(a); if (!u) break;
            S s, v = view(c, u, false, nullptr); if (got < before) { c.eq(v, want[got], "unit in front of the damage", bad); c.label("unit in front of the damage"); }
            view(c, u, true, o, &s); c.evals(); wrote = true;
            if (well) { Doc f(s); c.check(f.ok(), "srcML of a unit of a well-formed document", f.error + "\n" + s + "\n" + bad); }
            if (c.chance(1, 20)) { srcml_unit_parse_memory(u, "int a;", 6); view(c, u, false, nullptr); }
            srcml_unit_free(u); ++got; c.check(got <= bad.size() / 4 + 1, "more units than fit in the document", bad);
        }
        c.check(got >= before, "units in front of the damage", std::to_string(got) + " of " + std::to_string(before) + "\n" + bad);
        for (int k = c.range(0, 2); k > 0; --k) c.check(!srcml_archive_read_unit(a), "unit after the end", bad);
        if (o) { srcml_archive_close(o); srcml_archive_free(o); if (b && well && wrote && same && nameOf(t.root()) == "unit" && t.root()->ns && S((const char*) t.root()->ns->href) == SRC_NS) { Doc w(S(b, n)); c.check(w.ok(), "archive written from a well-formed document", w.error + "\n" + S(b, n) + "\n" + bad); c.label("written again"); } if (b) srcml_memory_free(b); }
    }
    if (c.boolean()) srcml_archive_close(a);
    srcml_archive_free(a); free(p);
    c.nontrivial(st == 0 && got > 0);
}
int main(int argc, char** argv) {
    quietXml();
    if (!getenv("KEEP_ERR") && freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C22"; k.prop = prop; k.quick_cases = 8000; k.thorough_cases = 600000; k.cpu_limit = 20; k.wall_limit = 60;
    k.rule = "documents of 1 to 5 units cut, with bytes changed, and markup inserted, removed, and copied; XML of any vocabulary; random bytes; every view, unparse, queries, and writing of what is read, under address and undefined-behavior sanitizers; non-trivial: a unit was read";
    return run(k, argc, argv);
}
