// The views of the srcML of a unit (complete, outer, inner) agree with each other and with the document, in any order of calls.
#include "spec.hpp"
#include <libxml/xpath.h>
#include <map>
#include <set>
using namespace pbt; using namespace api; typedef std::string S;

static S children(xmlNodePtr n) { S r; for (xmlNodePtr k = n->children; k; k = k->next) r += canon(k); return r; }
// canonical unit with some attributes of the unit left out
static S head(xmlNodePtr n, const std::set<S>& without) {
    std::set<S> as; for (xmlAttrPtr a = n->properties; a; a = a->next) { S k = (a->ns ? S((const char*) a->ns->href) + "|" : S()) + (const char*) a->name; if (without.count(k)) continue; xmlChar* v = xmlNodeGetContent((xmlNodePtr) a); as.insert(k + "=" + (v ? (const char*) v : "")); if (v) xmlFree(v); }
    S r = "{" + nsOf(n) + "}" + nameOf(n); for (auto& a : as) r += "\n" + a; return r;
}
static S all(xmlNodePtr n, const std::set<S>& without = {}) { return head(n, without) + "\n" + children(n); }
typedef std::map<S, S> Ns;
static Ns scope(xmlNodePtr n) { Ns m; for (xmlNodePtr k = n; k && k->type == XML_ELEMENT_NODE; k = k->parent) for (xmlNsPtr x = k->nsDef; x; x = x->next) m.emplace(x->prefix ? (const char*) x->prefix : "", (const char*) x->href); return m; }
static S esc(const S& v) { S r; for (char x : v) r += x == '&' ? "&amp;" : x == '<' ? "&lt;" : x == '"' ? "&quot;" : S(1, x); return r; }
static S wrap(const Ns& ns, const S& s) { S r = "<w"; for (auto& n : ns) r += " xmlns" + (n.first.empty() ? S() : ":" + n.first) + "=\"" + esc(n.second) + "\""; return r + ">" + s + "</w>"; }
static S noUrl() { return "url"; }

// checks the views of a unit against the unit in a document (NULL: only against each other)
struct Views { S full, outer, inner; };
static Views views(Ctx& c, srcml_unit* u, const S& d) {
    Views v; bool h[3] = {}; int n = c.range(3, 6); S calls;
    auto one = [&](int k) {
        const char* p = k == 0 ? srcml_unit_get_srcml(u) : k == 1 ? srcml_unit_get_srcml_outer(u) : srcml_unit_get_srcml_inner(u);
        c.check(p, S("view ") + (k == 0 ? "complete" : k == 1 ? "outer" : "inner") + " missing", d);
        S& r = k == 0 ? v.full : k == 1 ? v.outer : v.inner; if (h[k]) c.eq(p, r, "the same view again, after " + calls, d); r = p; h[k] = true; calls += S(1, char('0' + k)); c.evals();
    };
    while (n--) one(c.range(0, 2));
    for (int k : { 1, 0, 2 }) if (!h[k]) one(k);
    return v;
}
static void agree(Ctx& c, const Views& v, xmlNodePtr want, bool archiveUrl, const S& d) {
    Doc f(v.full); c.check(f.ok(), "complete srcML ill-formed", f.error + "\n" + v.full);
    auto r = f.root(); c.check(isSrc(r, "unit"), "complete srcML is no unit", v.full);
    Ns ns = scope(r); if (want) for (auto& n : scope(want)) ns.insert(n);
    Doc o(wrap(ns, v.outer)); c.check(o.ok(), "outer srcML ill-formed", o.error + "\n" + v.outer + "\n" + d);
    c.check(o.root()->children && !o.root()->children->next && isSrc(o.root()->children, "unit"), "outer srcML is not one unit", v.outer);
    c.eq(all(o.root()->children), all(r, { noUrl() }), "outer srcML, and complete srcML without url", d + v.outer + "\n" + v.full);
    Doc i(wrap(ns, v.inner)); c.check(i.ok(), "inner srcML ill-formed", i.error + "\n" + v.inner + "\n" + d);
    c.eq(children(i.root()), children(r), "inner srcML, and the contents of the complete srcML", d + v.inner + "\n" + v.full);
    // as text: start tag, inner srcML, end tag
    for (const S* s : { &v.full, &v.outer }) {
        if (v.inner.empty()) { c.check(s->size() > 1 && s->back() == '>', "end of the unit", *s); continue; }
        size_t e = s->rfind("</"); c.check(e != S::npos && e >= v.inner.size() && s->compare(e - v.inner.size(), v.inner.size(), v.inner) == 0, "inner srcML is in front of the end tag", v.inner + "\n" + *s);
        size_t b = e - v.inner.size(); c.check(b > 0 && (*s)[b - 1] == '>', "inner srcML comes after the start tag", v.inner + "\n" + *s);
    }
    if (want) {
        // a unit of an archive has the url of its archive when parsed
        std::set<S> root; if (archiveUrl) root = { "url", "options", S(POS_NS) + "|tabs" };
        c.eq(all(r, root), all(want, root), "complete srcML, and the unit in the document", d + v.full);
        auto in = scope(r), out = scope(want);      // used namespaces are declared with the same URIs
        for (auto& n : in) { auto k = out.find(n.first); if (k != out.end()) c.eq(n.second, k->second, "namespace of prefix " + n.first, d + v.full); }
    }
}

// the document of the spec, spelled in another way: quotes, white space in tags, unescaped '>' in attributes
static S respell(Ctx& c, xmlNodePtr n, bool inside) {
    if (n->type == XML_TEXT_NODE) { S r; for (const char* p = (const char*) n->content; *p; ++p) r += *p == '&' ? "&amp;" : *p == '<' ? "&lt;" : *p == '>' ? "&gt;" : *p == '\r' ? "&#13;" : S(1, *p); return r; }
    if (n->type != XML_ELEMENT_NODE) return "";
    bool unit = isSrc(n, "unit"), bare = unit && n->parent->type == XML_ELEMENT_NODE && c.chance(1, 8); S name = (n->ns && n->ns->prefix ? S((const char*) n->ns->prefix) + ":" : S()) + (const char*) n->name, r = "<" + name; std::vector<S> as;
    auto value = [&](const S& v) { char q = unit && c.chance(1, 3) ? '\'' : '"'; S t(1, q); for (char x : v) t += x == '&' ? S("&amp;") : x == '<' ? S("&lt;") : x == '"' && q == '"' ? S("&quot;") : x == '\'' && q == '\'' ? S("&apos;") : x == '\n' || x == '\t' || x == '\r' ? "&#" + std::to_string((int) x) + ";" : S(1, x); return t + q; };
    for (xmlNsPtr x = n->nsDef; x; x = x->next) as.push_back("xmlns" + (x->prefix ? ":" + S((const char*) x->prefix) : S()) + "=" + value((const char*) x->href));
    if (!bare) for (xmlAttrPtr a = n->properties; a; a = a->next) { xmlChar* v = xmlNodeListGetString(n->doc, a->children, 1); as.push_back((a->ns && a->ns->prefix ? S((const char*) a->ns->prefix) + ":" : S()) + (const char*) a->name + "=" + value(v ? (const char*) v : "")); if (v) xmlFree(v); }
    if (unit) for (size_t i = 0; i + 1 < as.size(); ++i) std::swap(as[i], as[i + c.draw(as.size() - i)]);
    for (auto& a : as) r += (unit && c.chance(1, 5) ? c.pick({ "\n  ", "  ", "\t" }) : S(" ")) + a;
    if (unit && c.chance(1, 6)) r += " ";
    if (!n->children && c.boolean()) return r + "/>";
    r += ">"; for (xmlNodePtr k = n->children; k; k = k->next) r += respell(c, k, true);
    (void) inside; return r + "</" + name + ">";
}

static S attrValue(Ctx& c) { return c.chance(1, 3) ? S(c.pick({ "a url=b.cpp", "a url=\"b\" x.c", "xmlns=\"x\"", " xmlns:a='b'", "a>b", "a/>b<c", "\"", "'", "\"'\" url=' >", "src/a b.c", "</unit>", "url=", " url=" })) : gen::attrValue(c); }

static void prop(Ctx& c) {
    spec::Want w; w.minUnits = 1; w.maxUnits = 3; w.encodings = false; w.pi = false;
    auto s = spec::make(c, w);
    for (auto& u : s.units) { if (c.chance(1, 3)) u.filename = attrValue(c); if (c.chance(1, 4)) u.version = attrValue(c); if (c.chance(1, 12)) u.src.clear(); }
    if (c.chance(1, 3)) s.url = attrValue(c);
    if (c.chance(1, 6)) s.version = attrValue(c);
    for (auto& n : s.ns) if (n.second.find('&') != S::npos) c.discard();
    S d = spec::describe(s); c.note(d);
    srcml_archive* a = spec::create(s); char* b = nullptr; size_t n = 0;
    c.check(srcml_archive_write_open_memory(a, &b, &n) == 0, "open for output");
    std::vector<Views> parsed; srcml_unit* again = nullptr;
    for (auto& us : s.units) {
        srcml_unit* u = again;
        if (u) { again = nullptr; c.label("unit used again"); srcml_unit_set_language(u, us.lang.c_str()); srcml_unit_set_filename(u, us.filename ? us.filename->c_str() : nullptr); srcml_unit_set_version(u, us.version ? us.version->c_str() : nullptr); srcml_unit_set_timestamp(u, us.timestamp ? us.timestamp->c_str() : nullptr);
            c.check(srcml_unit_parse_memory(u, us.src.data(), us.src.size()) == 0, "parse", d); }
        else { int st; u = spec::unit(a, us, &st); c.check(st == 0, "parse", d); }
        bool before = c.boolean(); if (before) parsed.push_back(views(c, u, d));
        c.check(srcml_archive_write_unit(a, u) == 0, "write", d);
        Views v = views(c, u, d); if (before) { c.eq(v.full + v.outer + v.inner, parsed.back().full + parsed.back().outer + parsed.back().inner, "views after the unit was written", d); } else parsed.push_back(v);
        if (c.chance(1, 3)) again = u; else srcml_unit_free(u);
    }
    if (again) srcml_unit_free(again);
    srcml_archive_close(a); srcml_archive_free(a); S doc = b ? S(b, n) : ""; if (b) srcml_memory_free(b);
    Doc t(doc); c.check(t.ok(), "document ill-formed", t.error + "\n" + doc);
    auto us = units(t.root()); c.check(us.size() == s.units.size(), "units of the document", doc);
    bool solo = us[0] == t.root();
    for (size_t i = 0; i < us.size(); ++i) agree(c, parsed[i], us[i], !solo, "parsed unit\n" + d);
    // read again, as written or in another spelling
    if (c.boolean()) { doc = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n" + respell(c, t.root(), false) + "\n"; c.note(doc); c.label("other spelling"); }
    Doc t2(doc); c.check(t2.ok(), "model", t2.error + doc); us = units(t2.root());
    srcml_archive* r = srcml_archive_create(); c.check(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "open", doc);
    for (size_t i = 0; i < us.size(); ++i) {
        srcml_unit* u = srcml_archive_read_unit(r); c.check(u, "unit read", doc);
        Views v = views(c, u, doc);
        agree(c, v, us[i], false, "unit read\n" + doc); c.label("read");
        // the unit of a copied archive, and results of a query
        if (c.chance(1, 3)) {
            srcml_archive* q = srcml_archive_create(); c.check(srcml_append_transform_xpath(q, c.pick({ "//src:name", "/src:unit", "//src:expr|//src:comment", "//src:block" })) == 0, "append");
            srcml_transform_result* res = nullptr; c.check(srcml_unit_apply_transforms(q, u, &res) == 0, "apply", doc);
            if (res) { for (int k = 0; k < srcml_transform_get_unit_size(res); ++k) if (srcml_unit* x = srcml_transform_get_unit(res, k)) {
                S e = str(srcml_unit_get_srcml(x)); bool wrapped = srcml_transform_get_type(res) == SRCML_RESULT_UNITS && e.compare(0, 6, "<unit ") == 0; if (!wrapped) continue;
                c.label("result of a query"); Views y = views(c, x, doc); Doc f(y.full); c.check(f.ok(), "result ill-formed", f.error + y.full); agree(c, y, nullptr, false, "result\n" + doc); }
                srcml_transform_free(res); }
            srcml_archive_free(q);
            Views z = views(c, u, doc); c.eq(z.full + z.outer + z.inner, v.full + v.outer + v.inner, "views after a query", doc);
        }
        srcml_unit_free(u);
    }
    c.check(!srcml_archive_read_unit(r), "no further unit", doc); srcml_archive_free(r);
    c.nontrivial(doc.size() > 300);
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C33"; k.prop = prop; k.quick_cases = 24000; k.thorough_cases = 200000;
    k.rule = "archives of 1 to 3 units with attribute values that look like attributes, tags, and quotes, as parsed, as read from the document in drawn spellings, and as results of queries; the views called in drawn order and repeatedly; non-trivial: document over 300 bytes";
    return run(k, argc, argv);
}
