// XSLT and RelaxNG transformations: results are what libxslt and a model of the schema give on the srcML of the unit.
#include "spec.hpp"
#include <libxml/xpath.h>
#include <libxml/xpathInternals.h>
#include <libxml/relaxng.h>
#include <libxslt/xslt.h>
#include <libxslt/xsltInternals.h>
#include <libxslt/transform.h>
#include <libxslt/variables.h>
#include <libexslt/exslt.h>
#include <unistd.h>
#include <fcntl.h>
#include <set>
using namespace pbt; using namespace api;

static std::string esc(const std::string& s, bool attr = false) { std::string r; for (char ch : s) r += ch == '&' ? std::string("&amp;") : ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : ch == '"' ? "&quot;" : ch == '\n' && attr ? "&#10;" : ch == '\t' && attr ? "&#9;" : std::string(1, ch); return r; }
static const char* HEAD = "xmlns:src='http://www.srcML.org/srcML/src' xmlns:cpp='http://www.srcML.org/srcML/cpp' xmlns:omp='http://www.srcML.org/srcML/openmp' xmlns:pos='http://www.srcML.org/srcML/position' ";

struct T {
    enum Kind { XSLT, RNG, XPATH } kind; std::string text; int channel = 0;
    std::vector<std::pair<std::string, std::string>> params; std::vector<bool> quoted;      // string or expression
    bool expectText = false, identity = false, sourceText = false;
    std::set<std::string> banned; std::string attrName, attrValue, top;                     // RelaxNG
};
struct Names { std::vector<std::string> el, at, words; };

static std::string pattern(Ctx& c, const Names& n) {
    std::string q = c.pick(n.el);
    switch (c.range(0, 7)) {
    case 0: return q + "/" + c.pick(n.el);
    case 1: return q + "//" + c.pick(n.el);
    case 2: return q + "[position()=" + std::to_string(c.range(1, 3)) + "]";
    case 3: return "src:" + std::string(c.pick({ "name", "comment", "literal", "block", "expr" }));
    case 4: return "@" + c.pick(n.at);
    case 5: return q + "/text()";
    case 6: return q + "[@" + c.pick(n.at) + "]";
    default: return q;
    }
}
static std::string body(Ctx& c, const Names& n, const std::string& pat, int np) {
    bool at = pat[0] == '@', text = pat.size() > 6 && pat.compare(pat.size() - 6, 6, "text()") == 0;
    std::string apply = "<xsl:apply-templates select='@*|node()'/>", value = np && c.boolean() ? "$p" + std::to_string(c.range(0, np - 1)) : std::string(c.pick({ ".", "name()", "translate(.,'abc','xyz')", "count(ancestor::*)", "position()", "generate-id(.)=generate-id(/)", "string-length(.)", "'<&amp;>'" }));
    if (value == "'<&amp;>'") value = "'&lt;&amp;&gt;'";
    std::string vo = "<xsl:value-of select=\"" + value + "\"/>";
    if (at) switch (c.range(0, 2)) { case 0: return ""; case 1: return "<xsl:attribute name='{name()}'>" + vo + "</xsl:attribute>"; default: return "<xsl:attribute name='new'>" + vo + "</xsl:attribute>"; }
    if (text) switch (c.range(0, 3)) { case 0: return ""; case 1: return vo; case 2: return "<xsl:value-of select='.'/>" + vo; default: return "<m1:t><xsl:value-of select='.'/></m1:t>"; }
    switch (c.range(0, 9)) {
    case 0: return "";
    case 1: return "<m1:renamed>" + apply + "</m1:renamed>";
    case 2: return "<xsl:apply-templates select='node()'/>";
    case 3: return "<m1:wrap><xsl:copy>" + apply + "</xsl:copy></m1:wrap>";
    case 4: return "<xsl:copy><xsl:attribute name='new'>" + vo + "</xsl:attribute>" + apply + "</xsl:copy>";
    case 5: return vo;
    case 6: return "<xsl:copy-of select='.'/>" + vo;
    case 7: return "<xsl:copy><xsl:apply-templates select='@*'/>" + vo + "<xsl:apply-templates select='node()'><xsl:sort select='name()'/></xsl:apply-templates></xsl:copy>";
    case 8: return "<xsl:copy>" + apply + "<xsl:comment>c</xsl:comment></xsl:copy>";
    default: return "<xsl:if test=\"count(node())>" + std::to_string(c.range(0, 3)) + "\"><xsl:copy>" + apply + "</xsl:copy></xsl:if>";
    }
}
static T xslt(Ctx& c, const Names& n, bool first) {
    T t; t.kind = T::XSLT;
    int np = c.range(0, 3) == 0 ? c.range(1, 3) : 0;
    for (int i = 0; i < np; ++i) {
        bool q = c.chance(2, 3);
        t.quoted.push_back(q); t.params.push_back({ "p" + std::to_string(i), q ? (c.chance(1, 3) ? std::string(c.pick({ "\"", "'", "a\"b", "it's", "'\"'", "\"\"''", "" })) : gen::attrValue(c)) : std::string(c.pick({ "1+1", "//*[local-name()='name']", "name(/*)", "'x'", "count(//*)", "true()" })) });
    }
    std::string params; for (int i = 0; i < np; ++i) params += "<xsl:param name='p" + std::to_string(i) + "'/>";
    std::string s = "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform' " + std::string(HEAD) + "xmlns:m1='http://example.org/m1'>";
    int kind = c.range(0, 9);
    if (kind == 0) {
        std::string e = np && c.boolean() ? "$p0" : "/*"; if (e == "/*") t.sourceText = true;
        s += "<xsl:output method='text'/>" + params + "<xsl:template match='/'><xsl:value-of select='" + e + "'/></xsl:template>"; t.expectText = true;
    } else if (kind == 1) {         // any number of units
        std::string pre = first && c.boolean() ? "<xsl:comment>c</xsl:comment>" : "", pre2 = first && c.chance(1, 4) ? "<xsl:processing-instruction name='p'>d</xsl:processing-instruction>" : "";
        s += params + "<xsl:template match='/'>" + pre + pre2 + "<xsl:for-each select='/*//" + c.pick(n.el) + "'><unit xmlns='http://www.srcML.org/srcML/src' filename='{position()}'>" + (np ? "<xsl:value-of select='$p0'/>" : "") + "<xsl:copy-of select='.'/></unit></xsl:for-each></xsl:template>";
    } else if (kind == 2) s += params + "<xsl:template match='/'/>";
    else {
        s += params + "<xsl:template match='@*|node()'><xsl:copy><xsl:apply-templates select='@*|node()'/></xsl:copy></xsl:template>";
        int k = c.range(0, 3); t.identity = !k;
        std::set<std::string> used;
        for (int i = 0; i < k; ++i) { std::string p = pattern(c, n); if (used.insert(p).second) s += "<xsl:template match=\"" + p + "\" priority='" + std::to_string(i + 1) + "'>" + body(c, n, p, np) + "</xsl:template>"; }
    }
    t.text = s + "</xsl:stylesheet>";
    return t;
}
static std::string local(const std::string& q) { return q.substr(q.find(':') + 1); }
static T relaxng(Ctx& c, const Names& n, int total) {
    T t; t.kind = T::RNG;
    // libxml2 takes exponential time on longer documents that are not valid
    if (total < 60) for (int k = c.range(0, 2); k > 0; --k) t.banned.insert(local(c.pick(n.el)));
    t.banned.erase("unit");
    if (c.chance(1, 3)) { t.attrName = c.pick({ "language", "filename", "version", "nosuch", "type" }); t.attrValue = c.boolean() ? "" : c.pick({ "C++", "C", "Java", "block" }); }
    if (c.chance(1, 3)) t.top = c.pick({ "unit", "unit", "name", "expr" });
    std::string ex; for (auto& b : t.banned) ex += "<choice><nsName ns='http://www.srcML.org/srcML/src'><except><name ns='http://www.srcML.org/srcML/src'>" + b + "</name></except></nsName></choice>";
    // any element but the banned ones
    std::string names = "<anyName>" + (t.banned.empty() ? std::string() : "<except>" + [&] { std::string r; for (auto& b : t.banned) r += "<name ns='http://www.srcML.org/srcML/src'>" + b + "</name>"; return r; }() + "</except>") + "</anyName>";
    std::string at = "<zeroOrMore><attribute><anyName/></attribute></zeroOrMore>", rootAt = at;
    if (!t.attrName.empty()) rootAt = "<zeroOrMore><attribute><anyName><except><name ns=''>" + t.attrName + "</name></except></anyName></attribute></zeroOrMore><attribute name='" + t.attrName + "'>" + (t.attrValue.empty() ? std::string("<text/>") : "<value>" + t.attrValue + "</value>") + "</attribute>";
    t.text = "<grammar xmlns='http://relaxng.org/ns/structure/1.0'><start><element>" + (t.top.empty() ? std::string("<anyName/>") : "<name ns='http://www.srcML.org/srcML/src'>" + t.top + "</name>") + rootAt + "<ref name='c'/></element></start>"
        "<define name='c'><zeroOrMore><choice><text/><element>" + names + at + "<ref name='c'/></element></choice></zeroOrMore></define></grammar>";
    return t;
}
static bool accepts(const T& t, xmlNodePtr root) {
    if (!t.top.empty() && !isSrc(root, t.top.c_str())) return false;
    if (!t.attrName.empty()) {
        xmlChar* v = xmlGetNoNsProp(root, BAD_CAST t.attrName.c_str()); if (!v) return false;
        std::string s = (const char*) v; xmlFree(v);
        if (!t.attrValue.empty() && s != t.attrValue) {     // values are compared as tokens
            size_t b = s.find_first_not_of(" \t\n\r"), e = s.find_last_not_of(" \t\n\r");
            if (b == std::string::npos || s.substr(b, e - b + 1) != t.attrValue) return false;
        }
    }
    std::vector<xmlNodePtr> todo; for (xmlNodePtr k = root->children; k; k = k->next) todo.push_back(k);
    while (!todo.empty()) { xmlNodePtr n = todo.back(); todo.pop_back(); if (n->type != XML_ELEMENT_NODE) continue; if (nsOf(n) == SRC_NS && t.banned.count(nameOf(n))) return false; for (xmlNodePtr k = n->children; k; k = k->next) todo.push_back(k); }
    return true;
}

struct Docs { std::vector<xmlDocPtr> d; ~Docs() { for (auto x : d) xmlFreeDoc(x); } };
static std::vector<std::pair<std::string, std::string>> regs = { { "src", SRC_NS }, { "cpp", CPP_NS }, { "omp", OMP_NS }, { "pos", POS_NS } };
// one step of the model: documents in, documents out; false: a text result
static bool step(const T& t, const std::vector<xmlDocPtr>& in, std::vector<xmlDocPtr>& out, std::string& text, Docs& keep, bool& bad) {
    auto own = [&](xmlNodePtr n) { xmlDocPtr d = xmlNewDoc(BAD_CAST "1.0"); keep.d.push_back(d); xmlDocSetRootElement(d, xmlDocCopyNode(n, d, 1)); return d; };
    for (auto d : in) {
        if (t.kind == T::RNG) {
            xmlDocPtr w = own(xmlDocGetRootElement(d));
            xmlDocPtr sd = xmlReadMemory(t.text.data(), t.text.size(), 0, 0, 0);
            xmlRelaxNGParserCtxtPtr pc = xmlRelaxNGNewDocParserCtxt(sd); xmlRelaxNGPtr g = xmlRelaxNGParse(pc); xmlRelaxNGValidCtxtPtr vc = xmlRelaxNGNewValidCtxt(g);
            bool valid = xmlRelaxNGValidateDoc(vc, w) == 0;
            xmlRelaxNGFreeValidCtxt(vc); xmlRelaxNGFree(g); xmlRelaxNGFreeParserCtxt(pc); xmlFreeDoc(sd);
            if (valid != accepts(t, xmlDocGetRootElement(d))) return bad = true;
            if (valid) out.push_back(d);
            continue;
        }
        if (t.kind == T::XPATH) {
            xmlDocPtr w = own(xmlDocGetRootElement(d)); xmlXPathContextPtr x = xmlXPathNewContext(w); for (auto& r : regs) xmlXPathRegisterNs(x, BAD_CAST r.first.c_str(), BAD_CAST r.second.c_str());
            xmlXPathObjectPtr r = xmlXPathEvalExpression(BAD_CAST t.text.c_str(), x);
            if (r && r->nodesetval) { xmlXPathNodeSetSort(r->nodesetval); for (int i = 0; i < r->nodesetval->nodeNr; ++i) out.push_back(own(r->nodesetval->nodeTab[i])); }
            if (r) xmlXPathFreeObject(r);
            xmlXPathFreeContext(x); continue;
        }
        xmlDocPtr sd = xmlReadMemory(t.text.data(), t.text.size(), 0, 0, 0); xsltStylesheetPtr sheet = xsltParseStylesheetDoc(sd);
        xmlDocPtr w = own(xmlDocGetRootElement(d));
        xsltTransformContextPtr x = xsltNewTransformContext(sheet, w);
        std::vector<const char*> ps;
        for (size_t i = 0; i < t.params.size(); ++i) if (t.quoted[i]) xsltQuoteOneUserParam(x, BAD_CAST t.params[i].first.c_str(), BAD_CAST t.params[i].second.c_str()); else { ps.push_back(t.params[i].first.c_str()); ps.push_back(t.params[i].second.c_str()); }
        ps.push_back(nullptr);
        xmlDocPtr r = xsltApplyStylesheetUser(sheet, w, ps.data(), nullptr, nullptr, x);
        bool isText = false;
        if (r) {
            keep.d.push_back(r); int el = 0;
            for (xmlNodePtr k = r->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) { ++el; out.push_back(own(k)); }
            if (!el && r->children) { isText = true; for (xmlNodePtr k = r->children; k; k = k->next) if (k->type == XML_TEXT_NODE) text += (const char*) k->content; }
        }
        xsltFreeTransformContext(x); xsltFreeStylesheet(sheet);
        if (isText) return false;
    }
    return true;
}
static std::string inside(xmlNodePtr n) { std::string r; for (xmlNodePtr k = n->children; k; k = k->next) r += canon(k); return r; }
static std::string attrsOf(xmlNodePtr n, const std::string& lang) { std::set<std::string> r; bool has; attr(n, "language", &has); if (!has) r.insert("language=" + lang);     // a unit always has a language
    for (xmlAttrPtr a = n->properties; a; a = a->next) { if (!strcmp((const char*) a->name, "revision") || !strcmp((const char*) a->name, "options") || !strcmp((const char*) a->name, "tabs") || !strcmp((const char*) a->name, "url") || !strcmp((const char*) a->name, "src-encoding")) continue; xmlChar* v = xmlNodeGetContent((xmlNodePtr) a); r.insert((a->ns ? std::string((const char*) a->ns->href) + "|" : "") + (const char*) a->name + "=" + (v ? (const char*) v : "")); if (v) xmlFree(v); } std::string s; for (auto& x : r) s += x + "\n"; return s; }

static int append(Ctx& c, srcml_archive* a, const T& t, const spec::Scratch& dir) {
    int st = -1;
    if (t.kind == T::XPATH) return srcml_append_transform_xpath(a, t.text.c_str());
    std::string f = dir.path("t"); writeFile(f, t.text);
    bool x = t.kind == T::XSLT;
    if (t.channel == 0) st = x ? srcml_append_transform_xslt_memory(a, t.text.data(), t.text.size()) : srcml_append_transform_relaxng_memory(a, t.text.data(), t.text.size());
    if (t.channel == 1) st = x ? srcml_append_transform_xslt_filename(a, f.c_str()) : srcml_append_transform_relaxng_filename(a, f.c_str());
    if (t.channel == 2) { FILE* p = fopen(f.c_str(), "r"); st = x ? srcml_append_transform_xslt_FILE(a, p) : srcml_append_transform_relaxng_FILE(a, p); fclose(p); }
    if (t.channel == 3) { int p = open(f.c_str(), O_RDONLY); st = x ? srcml_append_transform_xslt_fd(a, p) : srcml_append_transform_relaxng_fd(a, p); close(p); }
    for (size_t i = 0; st == 0 && i < t.params.size(); ++i) st = t.quoted[i] ? srcml_append_transform_stringparam(a, t.params[i].first.c_str(), t.params[i].second.c_str()) : srcml_append_transform_param(a, t.params[i].first.c_str(), t.params[i].second.c_str());
    return st;
}

// what a unit is
static std::string unitView(srcml_unit* u) {
    char* b = nullptr; size_t n = 0; int st = srcml_unit_unparse_memory(u, &b, &n);
    std::string r = str(srcml_unit_get_srcml(u)) + "\n" + str(srcml_unit_get_srcml_outer(u)) + "\n" + str(srcml_unit_get_srcml_inner(u)) + "\n" + str(srcml_unit_get_language(u)) + "|" + str(srcml_unit_get_filename(u)) + "|" + str(srcml_unit_get_version(u)) + "|" + str(srcml_unit_get_timestamp(u)) + "|" + str(srcml_unit_get_hash(u)) + "\n" + std::to_string(st) + " " + (b ? std::string(b, n) : "");
    if (b) srcml_memory_free(b); return r;
}
// without a place for the results, a single unit replaces the unit, and anything else is an error
static void inPlace(Ctx& c, srcml_archive* a, srcml_unit* u) {
    srcml_transform_result* r = nullptr; srcml_unit_apply_transforms(a, u, &r);
    bool one = r && srcml_transform_get_type(r) == SRCML_RESULT_UNITS && srcml_transform_get_unit_size(r) == 1;
    std::string want = unitView(one ? srcml_transform_get_unit(r, 0) : u); if (r) srcml_transform_free(r);
    int st = srcml_unit_apply_transforms(a, u, nullptr);
    c.check((st == 0) == one, "status of transformation in place", std::to_string(st)); c.eq(unitView(u), want, "unit transformed in place"); c.evals();
    if (one) c.label("transformed in place");
}

static void prop(Ctx& c) {
    spec::Want w; w.maxUnits = 2; w.pi = false; w.encodings = false;
    spec::ArchiveSpec s = spec::make(c, w);
    s.ns.clear(); s.options &= ~(size_t) SRCML_OPTION_NO_XML_DECL;
    bool read = c.boolean(); std::string doc = spec::toMemory(s);
    std::set<std::string> ns, as; int total = 0;
    { Doc d(doc); c.check(d.ok(), "document", d.error + "\n" + doc);
      std::vector<xmlNodePtr> todo{ d.root() };
      while (!todo.empty()) { xmlNodePtr n = todo.back(); todo.pop_back(); if (n->type != XML_ELEMENT_NODE) continue; ++total;
        std::string u = nsOf(n); ns.insert((u == SRC_NS ? "src:" : u == CPP_NS ? "cpp:" : "omp:") + nameOf(n));
        for (xmlAttrPtr a = n->properties; a; a = a->next) as.insert((a->ns ? "pos:" : "") + std::string((const char*) a->name));
        for (xmlNodePtr k = n->children; k; k = k->next) todo.push_back(k); }
      if (total > 1500) c.discard(); }
    if (as.empty()) as.insert("type");
    Names names{ std::vector<std::string>(ns.begin(), ns.end()), std::vector<std::string>(as.begin(), as.end()), {} };
    std::vector<T> ts; int n = c.chance(1, 2) ? 1 : c.range(1, 3); bool xp = false, text = false;
    for (int i = 0; i < n && !text; ++i) {
        T t;
        if (!xp && n > 1 && c.chance(1, 3)) { t.kind = T::XPATH; t.text = "//" + c.pick(names.el) + (c.boolean() ? "" : "[" + std::to_string(c.range(1, 2)) + "]"); xp = true; }
        else t = c.chance(2, 3) ? xslt(c, names, i == 0) : relaxng(c, names, total);
        t.channel = c.range(0, 3); text = t.expectText; ts.push_back(t);
    }
    std::string d = spec::describe(s) + (read ? "\nread" : "\nparsed");
    for (auto& t : ts) { d += "\n" + std::string(t.kind == T::XSLT ? "xslt " : t.kind == T::RNG ? "relaxng " : "xpath ") + t.text; for (size_t i = 0; i < t.params.size(); ++i) d += "\n  " + t.params[i].first + (t.quoted[i] ? " text " : " expression ") + quote(t.params[i].second); }
    c.note(d);
    spec::Scratch dir;
    srcml_archive* a = read ? srcml_archive_create() : spec::create(s);
    if (read) c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open");
    if (c.chance(1, 8)) { srcml_append_transform_xpath(a, "//src:nosuch"); c.check(srcml_clear_transforms(a) == 0, "clear"); }
    for (auto& t : ts) { int st = append(c, a, t, dir); c.check(st == 0, "append", std::to_string(st) + " " + t.text); }
    for (size_t i = 0; i < s.units.size(); ++i) {
        srcml_unit* u = read ? srcml_archive_read_unit(a) : spec::unit(a, s.units[i]);
        c.check(u, "unit");
        std::string before = str(srcml_unit_get_srcml(u));
        Docs keep; xmlDocPtr m = xmlReadMemory(before.data(), before.size(), 0, 0, XML_PARSE_HUGE); c.check(m, "unit srcml", before); keep.d.push_back(m);
        std::vector<xmlDocPtr> cur{ m }; std::string wantText; bool scalar = false, bad = false;
        for (auto& t : ts) { std::vector<xmlDocPtr> next; if (!step(t, cur, next, wantText, keep, bad)) { scalar = true; break; } cur = next; if (cur.empty()) break; }
        c.check(!bad, "model of the schema");
        int type = scalar ? SRCML_RESULT_STRING : cur.empty() ? SRCML_RESULT_NONE : SRCML_RESULT_UNITS;
        // what some transformations are for, without libxslt
        if (ts.size() == 1 && ts[0].identity) c.check(type == SRCML_RESULT_UNITS && cur.size() == 1 && canon(xmlDocGetRootElement(cur[0])) == canon(xmlDocGetRootElement(m)), "model of identity");
        for (int round = 0; round < 2; ++round) {
            srcml_transform_result* r = nullptr; int st = srcml_unit_apply_transforms(a, u, &r);
            c.check(st == 0 && r, "status", std::to_string(st));
            c.eq(std::to_string(srcml_transform_get_type(r)), std::to_string(type), "type");
            c.eq(str(srcml_unit_get_srcml(u)), before, "unit changed");
            if (type == SRCML_RESULT_STRING) c.eq(str(srcml_transform_get_string(r)), wantText, "text"); else c.check(srcml_transform_get_string(r) == nullptr, "text of another result");
            int want = type == SRCML_RESULT_UNITS ? (int) cur.size() : 0;
            c.eq(std::to_string(srcml_transform_get_unit_size(r)), std::to_string(want), "number of results");
            srcml_archive* o = read ? srcml_archive_create() : spec::create(s); char* b = nullptr; size_t nb = 0;
            srcml_archive_disable_solitary_unit(o);
            if (read) for (int k = 0; k < (int) srcml_archive_get_namespace_size(a); ++k) srcml_archive_register_namespace(o, srcml_archive_get_namespace_prefix(a, k), srcml_archive_get_namespace_uri(a, k));
            srcml_archive_write_open_memory(o, &b, &nb);
            for (int k = 0; k < want; ++k) {
                srcml_unit* x = srcml_transform_get_unit(r, k); xmlNodePtr root = xmlDocGetRootElement(cur[k]); bool isUnit = isSrc(root, "unit");
                std::string got = str(srcml_unit_get_srcml(x));
                if (ts.back().kind == T::XSLT || isUnit) c.eq(canonDoc(got), canon(root), "result", std::to_string(k));
                if (isUnit) {
                    for (auto& p : std::vector<std::pair<const char*, const char*>>{ { "filename", srcml_unit_get_filename(x) }, { "version", srcml_unit_get_version(x) }, { "timestamp", srcml_unit_get_timestamp(x) }, { "hash", srcml_unit_get_hash(x) } }) {
                        bool has = false; std::string v = attr(root, p.first, &has); c.eq(str(p.second), has ? v : "(null)", std::string(p.first) + " of result"); }
                    if (ts.back().kind == T::XSLT || true) { char* sb = nullptr; size_t sn = 0; int us = srcml_unit_unparse_memory(x, &sb, &sn); if (read && us == 0) { std::string t = textOf(root), e = s.srcEncoding ? *s.srcEncoding : ""; if (!strcmp(str(srcml_unit_get_src_encoding(x)).c_str(), "UTF-8")) c.eq(std::string(sb, sn), t, "source of result"); } if (sb) srcml_memory_free(sb); }
                }
                c.check(srcml_archive_write_unit(o, x) == 0, "write"); c.evals();
            }
            srcml_archive_close(o); srcml_archive_free(o);
            std::string od = b ? std::string(b, nb) : ""; if (b) srcml_memory_free(b);
            if (want) {
                Doc e(od); c.checkf(e.ok(), "document of results ill-formed", [&] { return e.error + "\n" + od; });
                std::vector<xmlNodePtr> us; for (xmlNodePtr k = e.root()->children; k; k = k->next) if (isSrc(k, "unit")) us.push_back(k);
                c.eq(std::to_string(us.size()), std::to_string(want), "units written");
                for (int k = 0; k < want; ++k) {
                    xmlNodePtr root = xmlDocGetRootElement(cur[k]); bool isUnit = isSrc(root, "unit");
                    c.eq(inside(us[k]), isUnit ? inside(root) : canon(root), "written result", std::to_string(k));
                    if (isUnit) c.eq(attrsOf(us[k], s.units[i].lang), attrsOf(root, s.units[i].lang), "attributes written", std::to_string(k));
                }
            }
            srcml_transform_free(r);
        }
        c.label(scalar ? "text" : cur.empty() ? "no result" : cur.size() > 1 ? "several results" : "one result");
        if (ts.back().kind == T::RNG) c.label(cur.empty() ? "not valid" : "valid");
        if (ts.size() > 1 && type) c.label("chain");
        for (auto& t : ts) if (!t.params.empty()) c.label("parameters");
        if (type) c.nontrivial();
        inPlace(c, a, u);
        srcml_unit_free(u);
    }
    srcml_archive_close(a); srcml_archive_free(a);
}
int main(int argc, char** argv) {
    quietXml(); exsltRegisterAll();
    if (!getenv("KEEP_ERR") && freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C18"; k.prop = prop; k.quick_cases = 24000; k.thorough_cases = 150000;
    k.rule = "1 or 2 units over a generated source, parsed or read from a document, and 1 to 3 transformations over any channel: generated stylesheets (identity with templates that delete, rename, wrap, unwrap, sort, copy, or compute; text output; any number of units; parameters), generated RelaxNG schemas, and paths; XSLT compared with libxslt itself, RelaxNG with a predicate on the tree. Non-trivial: the last transformation has a result";
    return run(k, argc, argv);
}
