#include "api.hpp"
#include <fstream>
#include <iterator>
#include <cstdarg>
#include <libxml/xmlerror.h>
#include <openssl/evp.h>
#include <iconv.h>

namespace api {

const char* SRC_NS = "http://www.srcML.org/srcML/src";
const char* CPP_NS = "http://www.srcML.org/srcML/cpp";
const char* OMP_NS = "http://www.srcML.org/srcML/openmp";
const char* POS_NS = "http://www.srcML.org/srcML/position";
const char* DIFF_NS = "http://www.srcML.org/srcDiff";

std::string str(const char* p) { return p ? p : "(null)"; }

srcml_archive* archive(const Opts& o) {
    srcml_archive* a = srcml_archive_create();
    for (int b = 0; b < 16; ++b) {
        if (o.options & (1u << b)) srcml_archive_enable_option(a, 1u << b);
        if (o.disable & (1u << b)) srcml_archive_disable_option(a, 1u << b);
    }
    if (o.tabstop) srcml_archive_set_tabstop(a, o.tabstop);
    if (!o.src_encoding.empty()) srcml_archive_set_src_encoding(a, o.src_encoding.c_str());
    if (!o.url.empty()) srcml_archive_set_url(a, o.url.c_str());
    if (o.hash) srcml_archive_enable_hash(a); else srcml_archive_disable_hash(a);
    for (auto& n : o.ns) srcml_archive_register_namespace(a, n.first.c_str(), n.second.c_str());
    return a;
}

static void setup(srcml_unit* u, const std::string& lang, const Opts& o) {
    srcml_unit_set_language(u, lang.c_str());
    if (!o.filename.empty()) srcml_unit_set_filename(u, o.filename.c_str());
    if (!o.version.empty()) srcml_unit_set_version(u, o.version.c_str());
    if (!o.timestamp.empty()) srcml_unit_set_timestamp(u, o.timestamp.c_str());
}

Parsed parse(const std::string& src, const std::string& lang, const Opts& o) {
    Parsed p;
    srcml_archive* a = archive(o);
    char* buf = nullptr; size_t size = 0;
    p.status = srcml_archive_write_open_memory(a, &buf, &size);
    if (p.status) return p;
    srcml_unit* u = srcml_unit_create(a);
    setup(u, lang, o);
    p.status = srcml_unit_parse_memory(u, src.data(), src.size());
    if (p.status == 0) {
        p.srcml = str(srcml_unit_get_srcml(u));
        p.outer = str(srcml_unit_get_srcml_outer(u));
        p.inner = str(srcml_unit_get_srcml_inner(u));
        p.hash = str(srcml_unit_get_hash(u));
        p.loc = srcml_unit_get_loc(u);
        p.language = str(srcml_unit_get_language(u));
        p.encoding = str(srcml_unit_get_src_encoding(u));
        p.filename = str(srcml_unit_get_filename(u));
    }
    srcml_unit_free(u);
    srcml_archive_close(a);
    srcml_archive_free(a);
    if (buf) srcml_memory_free(buf);
    return p;
}

std::string document(const std::string& src, const std::string& lang, const Opts& o, bool solitary) {
    srcml_archive* a = archive(o);
    if (solitary) srcml_archive_enable_solitary_unit(a); else srcml_archive_disable_solitary_unit(a);
    char* buf = nullptr; size_t size = 0;
    if (srcml_archive_write_open_memory(a, &buf, &size)) return "";
    srcml_unit* u = srcml_unit_create(a);
    setup(u, lang, o);
    int s = srcml_unit_parse_memory(u, src.data(), src.size());
    if (s == 0) s = srcml_archive_write_unit(a, u);
    srcml_unit_free(u);
    srcml_archive_close(a);
    srcml_archive_free(a);
    std::string r = s == 0 && buf ? std::string(buf, size) : "";
    if (buf) srcml_memory_free(buf);
    return r;
}

bool unparse(const std::string& doc, std::string& src, int k, int* status) {
    srcml_archive* a = srcml_archive_create();
    int s = srcml_archive_read_open_memory(a, doc.data(), doc.size());
    if (s) { if (status) *status = s; srcml_archive_free(a); return false; }
    srcml_unit* u = nullptr;
    for (int i = 0; i <= k; ++i) { if (u) srcml_unit_free(u); u = srcml_archive_read_unit(a); if (!u) break; }
    bool ok = false;
    if (u) {
        srcml_unit_set_src_encoding(u, "UTF-8");
        char* b = nullptr; size_t n = 0;
        s = srcml_unit_unparse_memory(u, &b, &n);
        if (s == 0 && b) { src.assign(b, n); ok = true; }
        if (b) srcml_memory_free(b);
        srcml_unit_free(u);
    }
    if (status) *status = s;
    srcml_archive_close(a);
    srcml_archive_free(a);
    return ok;
}

static void noerr(void*, const char*, ...) {}
void quietXml() { xmlSetGenericErrorFunc(nullptr, noerr); }

static thread_local std::string* lasterr;
Doc::Doc(const std::string& s) {
    xmlParserCtxtPtr ctx = xmlNewParserCtxt();
    d = xmlCtxtReadMemory(ctx, s.data(), (int) s.size(), "doc.xml", nullptr, XML_PARSE_NONET | XML_PARSE_NOENT | XML_PARSE_HUGE | XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (ctx->lastError.message && (!d || !ctx->wellFormed || !ctx->nsWellFormed)) error = std::string(ctx->lastError.message) + " line " + std::to_string(ctx->lastError.line);
    if (d && (!ctx->wellFormed || !ctx->nsWellFormed)) { xmlFreeDoc(d); d = nullptr; }
    xmlFreeParserCtxt(ctx);
    (void) lasterr;
}

std::string nsOf(xmlNodePtr n) { return n->ns && n->ns->href ? (const char*) n->ns->href : ""; }
std::string nameOf(xmlNodePtr n) { return n->name ? (const char*) n->name : ""; }
bool isSrc(xmlNodePtr n, const char* name) { return n && n->type == XML_ELEMENT_NODE && nameOf(n) == name && nsOf(n) == SRC_NS; }

std::string attr(xmlNodePtr n, const char* name, bool* has) {
    for (xmlAttrPtr a = n->properties; a; a = a->next)
        if (!a->ns && !strcmp((const char*) a->name, name)) {
            xmlChar* v = xmlNodeListGetString(n->doc, a->children, 1);
            std::string s = v ? (const char*) v : "";
            if (v) xmlFree(v);
            if (has) *has = true;
            return s;
        }
    if (has) *has = false;
    return "";
}

static void collect(xmlNodePtr n, std::string& out) {
    for (xmlNodePtr k = n->children; k; k = k->next) {
        if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) { if (k->content) out += (const char*) k->content; }
        else if (k->type == XML_ENTITY_REF_NODE) { out += "&?;"; }
        else if (k->type == XML_ELEMENT_NODE) {
            if (isSrc(k, "escape")) { out += (char) strtol(attr(k, "char").c_str(), nullptr, 0); }
            else collect(k, out);
        }
    }
}
std::string textOf(xmlNodePtr n) { std::string s; collect(n, s); return s; }

static void esc(const std::string& s, std::string& out) {
    for (char c : s) { if (c == '<') out += "&lt;"; else if (c == '>') out += "&gt;"; else if (c == '&') out += "&amp;"; else if (c == '"') out += "&quot;"; else out += c; }
}
static std::string shortNs(const std::string& u) {
    if (u == SRC_NS) return "";
    if (u == CPP_NS) return "cpp:";
    if (u == OMP_NS) return "omp:";
    if (u == POS_NS) return "pos:";
    if (u == DIFF_NS) return "diff:";
    return "{" + u + "}";
}
static void canon(xmlNodePtr n, std::string& out, bool dropPos) {
    if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) { esc((const char*) n->content, out); return; }
    if (n->type != XML_ELEMENT_NODE) return;
    std::string name = shortNs(nsOf(n)) + nameOf(n);
    out += "<" + name;
    std::vector<std::string> as;
    for (xmlAttrPtr a = n->properties; a; a = a->next) {
        std::string ns = a->ns && a->ns->href ? (const char*) a->ns->href : "";
        if (dropPos && ns == POS_NS) continue;
        xmlChar* v = xmlNodeListGetString(n->doc, a->children, 1);
        std::string s = " " + (ns.empty() ? "" : ns == SRC_NS ? std::string("src:") : shortNs(ns)) + (const char*) a->name + "=\"";
        esc(v ? (const char*) v : "", s);
        if (v) xmlFree(v);
        as.push_back(s + "\"");
    }
    std::sort(as.begin(), as.end());
    for (auto& s : as) out += s;
    out += ">";
    for (xmlNodePtr k = n->children; k; k = k->next) canon(k, out, dropPos);
    out += "</" + name + ">";
}
std::string canon(xmlNodePtr n, bool dropPos) { std::string s; canon(n, s, dropPos); return s; }
std::string canonDoc(const std::string& s, bool dropPos) { Doc d(s); return d.ok() ? canon(d.root(), dropPos) : "(ill-formed)"; }

std::vector<xmlNodePtr> units(xmlNodePtr root) {
    std::vector<xmlNodePtr> v;
    for (xmlNodePtr k = root->children; k; k = k->next) if (isSrc(k, "unit")) v.push_back(k);
    if (v.empty()) v.push_back(root);
    return v;
}

bool conv(const char* to, const char* from, const std::string& in, std::string& out) {
    iconv_t ic = iconv_open(to, from);
    if (ic == (iconv_t) -1) return false;
    std::string t = in; out.assign(in.size() * 6 + 64, 0);
    char* ip = t.data(); size_t il = t.size(); char* op = out.data(); size_t ol = out.size();
    size_t r = iconv(ic, &ip, &il, &op, &ol);
    if (r != (size_t) -1) r = iconv(ic, nullptr, nullptr, &op, &ol);
    iconv_close(ic);
    if (r == (size_t) -1 || il) return false;
    out.resize(out.size() - ol);
    return true;
}
std::string lf(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r') { r += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; } else r += s[i]; } return r; }
int lineCount(const std::string& s) { int n = (int) std::count(s.begin(), s.end(), '\n'); return n + (!s.empty() && s.back() != '\n'); }
std::string sha1(const std::string& s) {
    unsigned char md[EVP_MAX_MD_SIZE]; unsigned int n = 0;
    EVP_Digest(s.data(), s.size(), md, &n, EVP_sha1(), nullptr);
    std::string r; char b[4];
    for (unsigned i = 0; i < n; ++i) { snprintf(b, sizeof b, "%02x", md[i]); r += b; }
    return r;
}

std::string readFile(const std::string& f) { std::ifstream in(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), {}); }
void writeFile(const std::string& f, const std::string& s) { std::ofstream(f, std::ios::binary) << s; }

} // namespace api
