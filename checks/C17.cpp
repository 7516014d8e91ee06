// XPath transformations: results are what the query selects from the srcML of the unit, and marks change nothing else.
#include "spec.hpp"
#include <libxml/xpath.h>
#include <libxml/xpathInternals.h>
#include <cmath>
#include <map>
#include <set>
#include <algorithm>
using namespace pbt; using namespace api;

// ---- queries
struct Q {
    Ctx& c; std::vector<std::string> names, attrs, words;
    std::string qname() { int k = c.range(0, 9); if (k == 0) return "*"; if (k == 1) return "src:*"; if (k == 2) return c.pick({ "src:name", "src:expr", "src:block", "src:comment", "src:unit", "src:nosuch", "cpp:directive", "src:literal" }); return c.pick(names); }
    std::string test() { int k = c.range(0, 9); return k == 0 ? "text()" : k == 1 ? "node()" : qname(); }
    std::string num() { return std::to_string(c.range(1, 4)); }
    std::string lit() { std::string s = c.chance(1, 3) ? std::string(c.pick({ "a", "", "string", " ", "(", "x1", "<", "&" })) : c.pick(words); return s.find('\'') == std::string::npos ? "'" + s + "'" : "\"" + s + "\""; }
    std::string pred(int d) {
        switch (c.range(0, 13)) {
        case 0: return "[" + num() + "]";
        case 1: return "[last()]";
        case 2: return "[position()<" + num() + "]";
        case 3: return "[" + step(d - 1) + "]";
        case 4: return "[.=" + lit() + "]";
        case 5: return "[contains(.," + lit() + ")]";
        case 6: return "[count(" + step(d - 1) + ")>" + num() + "]";
        case 7: return "[not(" + step(d - 1) + ")]";
        case 8: return "[@" + c.pick(attrs) + "]";
        case 9: return "[@" + c.pick(attrs) + "=" + lit() + "]";
        case 10: return "[string-length(.)>" + num() + "]";
        case 11: return "[ancestor::" + qname() + "]";
        case 12: return "[" + step(d - 1) + " or " + step(d - 1) + "]";
        default: return "[starts-with(" + std::string(c.pick({ ".", "src:name", "@type", "name()" })) + "," + lit() + ")]";
        }
    }
    std::string step(int d) {
        std::string s = c.chance(1, 3) ? c.pick({ "descendant::", "parent::", "ancestor::", "following-sibling::", "preceding-sibling::", "self::", "descendant-or-self::", "ancestor-or-self::", "child::" }) : "";
        s += test();
        if (d > 0) while (c.chance(1, 3)) s += pred(d);
        return s;
    }
    std::string path(bool inner) {
        int k = c.range(0, 7);
        std::string s = k == 0 && !inner ? "/src:unit/" : k == 1 && !inner ? "/src:unit//" : k == 2 ? "/*/" : "//";
        if (c.chance(1, 24)) return c.pick({ "/", "/*", ".", "//src:unit", "/src:unit" });
        s += step(2);
        for (int i = 0; i < 2 && c.chance(1, 3); ++i) s += c.pick({ "/", "//", "/" }) + step(1);
        if (c.chance(1, 10)) s += "/@" + (c.boolean() ? std::string("*") : c.pick(attrs));
        if (c.chance(1, 10)) s += "/text()";
        return s;
    }
    std::string nodes(bool inner) { std::string s = path(inner); if (c.chance(1, 6)) s += "|" + path(inner); return s; }
    std::string any(bool inner) {
        if (!c.chance(1, 4)) return nodes(inner);
        std::string p = nodes(inner);
        switch (c.range(0, 8)) {
        case 0: return "count(" + p + ")";
        case 1: return "string(" + p + ")";
        case 2: return "boolean(" + p + ")";
        case 3: return "not(" + p + ")";
        case 4: return "count(" + p + ")>" + num();
        case 5: return "count(" + p + ") div count(" + nodes(inner) + ")";
        case 6: return "concat(name(" + p + "),'&lt;<'," + "string(" + p + "))";
        case 7: return "string-length(" + p + ")";
        default: return "sum(" + p + ")";
        }
    }
};

// ---- model: nodes of a tree of its own, queried on copies
typedef std::map<xmlNodePtr, xmlNodePtr> Map;
static void pair(xmlNodePtr copy, xmlNodePtr orig, Map& m) {
    m[copy] = orig;
    if (copy->type != XML_ELEMENT_NODE) return;
    for (xmlAttrPtr a = copy->properties, b = orig->properties; a && b; a = a->next, b = b->next) m[(xmlNodePtr) a] = (xmlNodePtr) b;
    for (xmlNodePtr a = copy->children, b = orig->children; a && b; a = a->next, b = b->next) pair(a, b, m);
}
struct Value { int type = 0; double num = 0; bool b = false; std::string s; std::vector<xmlNodePtr> nodes; bool bad = false; };
static Value query(xmlNodePtr root, const std::string& q) {
    Value v;
    xmlDocPtr d = xmlNewDoc(BAD_CAST "1.0");
    xmlNodePtr copy = xmlDocCopyNode(root, d, 1); xmlDocSetRootElement(d, copy);
    Map m; pair(copy, root, m); m[(xmlNodePtr) d] = root;
    xmlXPathContextPtr x = xmlXPathNewContext(d);
    for (auto& n : std::vector<std::pair<const char*, const char*>>{ { "src", SRC_NS }, { "cpp", CPP_NS }, { "omp", OMP_NS }, { "pos", POS_NS }, { "diff", DIFF_NS } }) xmlXPathRegisterNs(x, BAD_CAST n.first, BAD_CAST n.second);
    for (xmlNsPtr n = root->nsDef; n; n = n->next) if (n->prefix) xmlXPathRegisterNs(x, n->prefix, n->href);
    xmlXPathObjectPtr r = xmlXPathEvalExpression(BAD_CAST q.c_str(), x);
    if (!r) v.bad = true;
    else {
        switch (r->type) {
        case XPATH_NUMBER: v.type = SRCML_RESULT_NUMBER; v.num = r->floatval; break;
        case XPATH_BOOLEAN: v.type = SRCML_RESULT_BOOLEAN; v.b = r->boolval; break;
        case XPATH_STRING: v.type = SRCML_RESULT_STRING; v.s = (const char*) r->stringval; break;
        case XPATH_NODESET:
            if (r->nodesetval) { xmlXPathNodeSetSort(r->nodesetval); for (int i = 0; i < r->nodesetval->nodeNr; ++i) { xmlNodePtr o = m[r->nodesetval->nodeTab[i]]; if (o && std::find(v.nodes.begin(), v.nodes.end(), o) == v.nodes.end()) v.nodes.push_back(o); } }
            if (!v.nodes.empty()) v.type = SRCML_RESULT_UNITS;
            break;
        default: v.bad = true;
        }
        xmlXPathFreeObject(r);
    }
    xmlXPathFreeContext(x); xmlFreeDoc(d);
    return v;
}
static std::string attrText(xmlNodePtr n) { xmlChar* v = xmlNodeGetContent(n); std::string s = std::string((const char*) n->name) + "=\"" + (v ? (const char*) v : "") + "\""; if (v) xmlFree(v); return s; }
// a result without namespace declarations, read in the scope of the unit
static std::string inScope(const std::string& s, const std::vector<std::pair<std::string, std::string>>& ns, bool& ok) {
    std::string w = "<w:w xmlns:w=\"urn:wrapper\"";
    for (auto& n : ns) { std::string v; for (char ch : n.second) v += ch == '&' ? std::string("&amp;") : ch == '<' ? "&lt;" : ch == '"' ? "&quot;" : std::string(1, ch); w += " xmlns" + (n.first.empty() ? "" : ":" + n.first) + "=\"" + v + "\""; }
    Doc d(w + ">" + s + "</w:w>");
    ok = d.ok(); if (!ok) return d.error;
    std::string r; for (xmlNodePtr k = d.root()->children; k; k = k->next) r += canon(k);
    return r;
}
static std::string inside(xmlNodePtr n) { std::string r; for (xmlNodePtr k = n->children; k; k = k->next) r += canon(k); return r; }
static std::string escaped(const std::string& t) { xmlNodePtr x = xmlNewText(BAD_CAST t.c_str()); std::string r = canon(x); xmlFreeNode(x); return r; }

// what a unit is
static std::string unitView(srcml_unit* u) {
    char* b = nullptr; size_t n = 0; int st = srcml_unit_unparse_memory(u, &b, &n);
    std::string r = str(srcml_unit_get_srcml(u)) + "\n" + str(srcml_unit_get_srcml_outer(u)) + "\n" + str(srcml_unit_get_srcml_inner(u)) + "\n" + str(srcml_unit_get_language(u)) + "|" + str(srcml_unit_get_filename(u)) + "|" + str(srcml_unit_get_version(u)) + "|" + str(srcml_unit_get_timestamp(u)) + "|" + str(srcml_unit_get_hash(u)) + "\n" + std::to_string(st) + " " + (b ? std::string(b, n) : "");
    if (b) srcml_memory_free(b); return r;
}
// without a place for the results, a single unit replaces the unit, and anything else is an error
static void inPlace(Ctx& c, srcml_archive* a, srcml_unit* u) {
    srcml_transform_result* r = nullptr; srcml_unit_apply_transforms(a, u, &r);
    bool one = r && srcml_transform_get_type(r) == SRCML_RESULT_UNITS && srcml_transform_get_unit_size(r) == 1;
    std::string want = unitView(one ? srcml_transform_get_unit(r, 0) : u); if (r) srcml_transform_free(r);
    int st = srcml_unit_apply_transforms(a, u, nullptr);
    c.check((st == 0) == one, "status of transformation in place", std::to_string(st)); c.eq(unitView(u), want, "unit transformed in place"); c.evals();
    if (one) c.label("transformed in place");
}

static void prop(Ctx& c) {
    spec::Want w; w.maxUnits = 2; w.pi = false; w.encodings = false;
    spec::ArchiveSpec s = spec::make(c, w);
    for (size_t i = s.ns.size(); i-- > 0;) if (s.ns[i].first == "a-b" || s.ns[i].first == "q") s.ns.erase(s.ns.begin() + i);      // libxml2 gives the URI as it is written
    s.options &= ~(size_t) SRCML_OPTION_NO_XML_DECL;
    bool read = c.boolean(); std::string doc = spec::toMemory(s);
    // the names to ask for
    std::set<std::string> ns, as, ws;
    { Doc d(doc); c.check(d.ok(), "document", d.error + "\n" + doc);
      std::vector<xmlNodePtr> todo{ d.root() }; int total = 0;
      while (!todo.empty()) { xmlNodePtr n = todo.back(); todo.pop_back();
        if (n->type == XML_TEXT_NODE) { std::string t = (const char*) n->content; if (t.size() < 12 && t.find('\'') == std::string::npos) ws.insert(t); continue; }
        if (n->type != XML_ELEMENT_NODE) continue; ++total;
        std::string u = nsOf(n); ns.insert((u == SRC_NS ? "src:" : u == CPP_NS ? "cpp:" : "omp:") + nameOf(n));
        for (xmlAttrPtr a = n->properties; a; a = a->next) as.insert((a->ns ? "pos:" : "") + std::string((const char*) a->name));
        for (xmlNodePtr k = n->children; k; k = k->next) todo.push_back(k); }
      if (total > 1500) c.discard(); }
    Q g{ c, std::vector<std::string>(ns.begin(), ns.end()), std::vector<std::string>(as.begin(), as.end()), std::vector<std::string>(ws.begin(), ws.end()) };
    if (g.words.empty()) g.words.push_back("a"); if (g.attrs.empty()) g.attrs.push_back("type");
    struct T { int kind; std::string q, prefix, uri, name, value, eprefix, euri, ename; };
    std::vector<T> ts; int n = c.chance(1, 2) ? 1 : c.range(1, 3);
    for (int i = 0; i < n; ++i) {
        T t; t.kind = c.chance(2, 3) ? 0 : c.range(1, 3); t.q = i + 1 == n || t.kind ? g.any(i > 0) : g.nodes(i > 0);
        if (t.kind) {
            std::string k = c.pick({ "1", "2" }); t.prefix = "m" + k; t.uri = "http://example.org/m" + k; t.name = c.pick({ "mark", "at", "type" }); t.value = gen::attrValue(c);
            k = c.pick({ "1", "2" }); t.eprefix = "m" + k; t.euri = "http://example.org/m" + k; t.ename = c.pick({ "mark", "name", "unit" });
            // an attribute with the query of the transformation before extends that one; ask for something else
            if (t.kind == 1 && i && ts.back().q == t.q) t.q += "[true()]";
        }
        ts.push_back(t);
    }
    std::string d = spec::describe(s) + (read ? "\nread" : "\nparsed");
    for (auto& t : ts) d += "\n" + std::string(t.kind == 0 ? "select " : t.kind == 1 ? "attribute " : t.kind == 2 ? "element " : "element and attribute ") + t.q + (t.kind ? " " + t.prefix + ":" + t.name + "=" + quote(t.value) + " " + t.eprefix + ":" + t.ename : "");
    c.note(d);

    srcml_archive* a = read ? srcml_archive_create() : spec::create(s);
    if (read) c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open");
    for (auto& t : ts) {
        int st = 0;
        if (t.kind == 0) st = srcml_append_transform_xpath(a, t.q.c_str());
        if (t.kind == 2 || t.kind == 3) st = srcml_append_transform_xpath_element(a, t.q.c_str(), t.eprefix.c_str(), t.euri.c_str(), t.ename.c_str());
        if (!st && (t.kind == 1 || t.kind == 3)) st = srcml_append_transform_xpath_attribute(a, t.q.c_str(), t.prefix.c_str(), t.uri.c_str(), t.name.c_str(), t.value.c_str());
        c.check(st == 0, "append", std::to_string(st));
    }
    for (size_t i = 0; i < s.units.size(); ++i) {
        srcml_unit* u = read ? srcml_archive_read_unit(a) : spec::unit(a, s.units[i]);
        c.check(u, "unit");
        // what a unit was parsed as is remembered when its language is taken away
        if (!read && c.chance(1, 4)) { srcml_unit_set_language(u, nullptr); c.label("language taken away"); }
        std::string lang = str(srcml_unit_get_language(u));
        std::string before = str(srcml_unit_get_srcml(u)), outer = str(srcml_unit_get_srcml_outer(u));
        // ---- model
        Doc m(before); c.check(m.ok(), "unit srcml", m.error + "\n" + before);
        std::vector<std::pair<std::string, std::string>> scope;
        for (xmlNsPtr x = m.root()->nsDef; x; x = x->next) scope.push_back({ x->prefix ? (const char*) x->prefix : "", (const char*) x->href });
        for (const char* k : { "1", "2" }) scope.push_back({ std::string("m") + k, std::string("http://example.org/m") + k });
        Value v; std::vector<xmlNodePtr> cur{ m.root() }; bool invalid = false, wrapped = false; int marks = 0;
        for (auto& t : ts) {
            std::vector<xmlNodePtr> next; bool scalar = false; v = Value();
            for (auto n : cur) {
                if (n->type != XML_ELEMENT_NODE) continue;
                Value r = query(n, t.q);
                if (r.bad) { invalid = true; continue; }
                if (r.type > SRCML_RESULT_UNITS) { v = r; scalar = true; break; }
                if (!t.kind) { for (auto x : r.nodes) if (std::find(next.begin(), next.end(), x) == next.end()) next.push_back(x); continue; }
                for (auto x : r.nodes) {
                    xmlNodePtr mark = x; if (++marks > 3000) c.discard();      // marks of nested results are nested: exponential
                    if (x->type == XML_ATTRIBUTE_NODE) continue;
                    if (t.kind != 1) {
                        mark = xmlNewDocNode(m.d, nullptr, BAD_CAST t.ename.c_str(), nullptr);
                        xmlSetNs(mark, xmlNewNs(mark, BAD_CAST t.euri.c_str(), BAD_CAST t.eprefix.c_str()));
                        if (x == n) {       // around the content
                            std::vector<xmlNodePtr> kids; for (xmlNodePtr k = n->children; k; k = k->next) kids.push_back(k);
                            for (auto k : kids) { xmlUnlinkNode(k); k->parent = mark; k->prev = mark->last; if (mark->last) mark->last->next = k; else mark->children = k; mark->last = k; }
                            xmlAddChild(n, mark);
                        } else { xmlReplaceNode(x, mark); xmlAddChild(mark, x); }
                    }
                    if (t.kind != 2 && mark->type == XML_ELEMENT_NODE) {
                        xmlNsPtr an = xmlSearchNsByHref(m.d, mark, BAD_CAST t.uri.c_str()); if (!an) an = xmlNewNs(mark, BAD_CAST t.uri.c_str(), BAD_CAST t.prefix.c_str());
                        xmlChar* old = xmlGetNsProp(mark, BAD_CAST t.name.c_str(), BAD_CAST t.uri.c_str()); std::string val = t.value;
                        if (old) { if (val != (const char*) old) val = std::string((const char*) old) + " " + val; xmlFree(old); }
                        xmlSetNsProp(mark, an, BAD_CAST t.name.c_str(), BAD_CAST val.c_str());
                    }
                }
                wrapped = true; next.push_back(n);
            }
            if (scalar) break;
            cur = next; v.type = cur.empty() ? 0 : SRCML_RESULT_UNITS;
            if (cur.empty()) break;
        }
        (void) wrapped;
        // ---- library, twice
        for (int round = 0; round < 2; ++round) {
            srcml_transform_result* r = nullptr;
            int st = srcml_unit_apply_transforms(a, u, &r);
            std::string q = ts.back().q;
            c.check(st == 0 && r, "status", std::to_string(st) + " " + q);
            c.eq(std::to_string(srcml_transform_get_type(r)), std::to_string(v.type), "type", q);
            c.eq(str(srcml_unit_get_srcml(u)), before, "unit changed");
            c.eq(str(srcml_unit_get_srcml_outer(u)), outer, "unit changed (outer)");
            if (v.type == SRCML_RESULT_NUMBER) { double x = srcml_transform_get_number(r); c.check(x == v.num || (std::isnan(x) && std::isnan(v.num)), "number", std::to_string(x) + " not " + std::to_string(v.num)); }
            if (v.type == SRCML_RESULT_BOOLEAN) c.check((srcml_transform_get_bool(r) != 0) == v.b, "boolean", q);
            if (v.type == SRCML_RESULT_STRING) c.eq(str(srcml_transform_get_string(r)), v.s, "string", q);
            int want = v.type == SRCML_RESULT_UNITS ? (int) cur.size() : 0;
            c.eq(std::to_string(srcml_transform_get_unit_size(r)), std::to_string(want), "number of results", q);
            // a document of the results
            srcml_archive* o = read ? srcml_archive_create() : spec::create(s); char* b = nullptr; size_t nb = 0;
            srcml_archive_disable_solitary_unit(o); for (const char* k : { "1", "2" }) srcml_archive_register_namespace(o, (std::string("m") + k).c_str(), (std::string("http://example.org/m") + k).c_str());
            if (read) for (int k = 0; k < (int) srcml_archive_get_namespace_size(a); ++k) srcml_archive_register_namespace(o, srcml_archive_get_namespace_prefix(a, k), srcml_archive_get_namespace_uri(a, k));
            srcml_archive_write_open_memory(o, &b, &nb);
            for (int k = 0; k < want; ++k) {
                srcml_unit* x = srcml_transform_get_unit(r, k); std::string got = str(srcml_unit_get_srcml(x)), at = "result " + std::to_string(k) + " of " + q;
                if (cur[k]->type == XML_ATTRIBUTE_NODE) { bool ok; c.eq(inScope(got, scope, ok), escaped(attrText(cur[k])), "attribute result", at); c.label("attribute result"); }
                else { bool ok; std::string cn = inScope(got, scope, ok); c.check(ok, "result ill-formed", at + "\n" + got); c.eq(cn, canon(cur[k]), "result", at); if (cur[k]->type == XML_TEXT_NODE) c.label("text result"); }
                if (lang != "(null)") c.eq(str(srcml_unit_get_language(x)), lang, "language of result");
                bool isUnit = cur[k]->type == XML_ELEMENT_NODE && isSrc(cur[k], "unit");
                c.eq(str(srcml_unit_get_filename(x)), str(srcml_unit_get_filename(u)), "filename of result");
                c.eq(str(srcml_unit_get_version(x)), str(srcml_unit_get_version(u)), "version of result");
                c.eq(str(srcml_unit_get_timestamp(x)), str(srcml_unit_get_timestamp(u)), "timestamp of result");
                if (!isUnit) c.eq(str(srcml_unit_get_hash(x)), "(null)", "hash of result");
                c.check(srcml_archive_write_unit(o, x) == 0, "write");
                c.evals();
            }
            srcml_archive_close(o); srcml_archive_free(o);
            std::string od = b ? std::string(b, nb) : ""; if (b) srcml_memory_free(b);
            if (want) {
                Doc e(od); c.checkf(e.ok(), "document of results ill-formed", [&] { return e.error + "\n" + od; });
                std::vector<xmlNodePtr> us; for (xmlNodePtr k = e.root()->children; k; k = k->next) if (isSrc(k, "unit")) us.push_back(k);
                c.eq(std::to_string(us.size()), std::to_string(want), "units written");
                for (int k = 0; k < want; ++k) {
                    bool isUnit = cur[k]->type == XML_ELEMENT_NODE && isSrc(cur[k], "unit");
                    if (!isUnit && cur[k]->type == XML_ELEMENT_NODE && v.type == SRCML_RESULT_UNITS && ts.back().kind) continue;   // marks inside a part of a unit: the part is taken for the unit
                    std::string cn = isUnit ? inside(cur[k]) : cur[k]->type == XML_ATTRIBUTE_NODE ? escaped(attrText(cur[k])) : canon(cur[k]);
                    c.eq(inside(us[k]), cn, "written result", "result " + std::to_string(k));
                    c.eq(attr(us[k], "language"), s.units[i].lang, "language written", "result " + std::to_string(k));
                    c.eq(attr(us[k], "item"), isUnit ? "" : std::to_string(k + 1), "item", "result " + std::to_string(k));
                }
            }
            srcml_transform_free(r);
        }
        inPlace(c, a, u);
        c.label("type " + std::to_string(v.type)); if (invalid) c.label("invalid"); if (v.type == 1 && cur.size() > 1) c.label("several results"); if (ts.size() > 1 && v.type) c.label("chain");
        if (ts.back().kind && v.type == 1) c.label("marked");
        if (v.type) c.nontrivial();
        srcml_unit_free(u);
    }
    srcml_archive_close(a); srcml_archive_free(a);
}
int main(int argc, char** argv) {
    quietXml();
    if (!getenv("KEEP_ERR") && freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C17"; k.prop = prop; k.quick_cases = 24000; k.thorough_cases = 150000;
    k.rule = "1 or 2 units over a generated source, parsed or read from a document, and 1 to 3 transformations with queries from a grammar over the names, attributes, and texts of the unit (paths with all axes and predicates, unions, functions); results compared with the ones of the query on copies of the unit's tree. Non-trivial: the last query has a result";
    return run(k, argc, argv);
}
