// Attributes, namespaces, and content of a document survive being read and written again.
#include "spec.hpp"
#include <set>
#include <map>
using namespace pbt; using namespace api; typedef std::string S;

static std::string attrsOf(xmlNodePtr n) {
    std::set<std::string> r;
    for (xmlAttrPtr a = n->properties; a; a = a->next) { xmlChar* v = xmlNodeGetContent((xmlNodePtr) a); r.insert((a->ns ? std::string((const char*) a->ns->href) + "|" : "") + (const char*) a->name + "=" + (v ? (const char*) v : "")); if (v) xmlFree(v); }
    std::string s; for (auto& x : r) s += x + "\n"; return s;
}
static std::string nsOfRoot(xmlNodePtr n) { std::set<std::string> r; for (xmlNsPtr x = n->nsDef; x; x = x->next) r.insert((x->prefix ? (const char*) x->prefix : std::string()) + "=" + (const char*) x->href); std::string s; for (auto& x : r) s += x + "\n"; return s; }
static std::string nsInScope(xmlNodePtr n) { std::map<std::string, std::string> m; for (xmlNodePtr k = n; k && k->type == XML_ELEMENT_NODE; k = k->parent) for (xmlNsPtr x = k->nsDef; x; x = x->next) m.emplace(x->prefix ? (const char*) x->prefix : "", (const char*) x->href); std::string s; for (auto& x : m) s += x.first + "=" + x.second + "\n"; return s; }
static std::string inside(xmlNodePtr n) { std::string r; for (xmlNodePtr k = n->children; k; k = k->next) r += canon(k); return r; }

static const std::vector<std::pair<std::string, std::string>> EXTRA = { { "m", "urn:m" }, { "n-1", "http://example.org/n" }, { "diff2", "http://example.org/d2" } };

// attributes other tools may add
static std::string add(Ctx& c, xmlNodePtr n, xmlNodePtr root, bool wide) {
    std::string d; std::set<std::string> used;
    int k = c.chance(1, 2) ? c.range(1, 3) : 0;
    for (int i = 0; i < k; ++i) {
        std::string v = gen::attrValue(c);
        if (c.chance(1, 3)) {
            std::string name = c.pick({ "a1", "a", "a12", "extra", "ex", "item", "items", "x.y", "x-y", "x", "_z", "\xC3\xBC" "b", "tabs2", "id" });
            if (!wide && (unsigned char) name[0] > 127) continue;      // names cannot be written as character references
            if (!used.insert(name).second) continue;
            xmlSetProp(n, BAD_CAST name.c_str(), BAD_CAST v.c_str()); d += " " + name + "=" + quote(v);
        } else if (c.chance(1, 6)) { if (!used.insert("xml:lang").second) continue; xmlNodeSetLang(n, BAD_CAST "en"); d += " xml:lang"; }
        else {
            auto p = c.pick(EXTRA); bool onRoot = c.boolean();
            std::string name = c.pick({ "a1", "language", "filename", "hash", "tabs", "url", "version", "timestamp", "options", "revision", "x" });
            if (!used.insert(p.first + ":" + name).second) continue;
            xmlNsPtr ns = xmlSearchNsByHref(n->doc, n, BAD_CAST p.second.c_str());
            if (!ns) ns = xmlNewNs(onRoot ? root : n, BAD_CAST p.second.c_str(), BAD_CAST p.first.c_str());
            xmlSetNsProp(n, ns, BAD_CAST name.c_str(), BAD_CAST v.c_str()); d += " " + p.first + ":" + name + "=" + quote(v) + (onRoot ? " (declared on the root)" : "");
        }
    }
    return d;
}
static std::string rewrite(Ctx& c, const std::string& doc, int mode, int before = -1) {
    srcml_archive* a = srcml_archive_create();
    if (before >= 0) {      // the archive has read some of the document before
        c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open", doc);
        for (int k = 0; k < before; ++k) if (srcml_unit* u = srcml_archive_read_unit(a)) srcml_unit_free(u);
        srcml_archive_close(a); c.label("archive opened again");
    }
    c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open", doc);
    srcml_archive* b;
    if (mode == 0) b = srcml_archive_clone(a);
    else {      // as the client does
        b = srcml_archive_create();
        srcml_archive_set_options(b, srcml_archive_get_options(a));
        if (srcml_archive_is_solitary_unit(a)) srcml_archive_enable_solitary_unit(b); else srcml_archive_disable_solitary_unit(b);
        if (srcml_archive_get_xml_encoding(a)) srcml_archive_set_xml_encoding(b, srcml_archive_get_xml_encoding(a));
        if (srcml_archive_get_url(a)) srcml_archive_set_url(b, srcml_archive_get_url(a));
        if (srcml_archive_get_version(a)) srcml_archive_set_version(b, srcml_archive_get_version(a));
        srcml_archive_set_tabstop(b, srcml_archive_get_tabstop(a));
        if (srcml_archive_get_processing_instruction_target(a)) srcml_archive_set_processing_instruction(b, srcml_archive_get_processing_instruction_target(a), srcml_archive_get_processing_instruction_data(a));
        for (size_t k = 0; k < srcml_archive_get_namespace_size(a); ++k) srcml_archive_register_namespace(b, srcml_archive_get_namespace_prefix(a, k), srcml_archive_get_namespace_uri(a, k));
    }
    c.check(b, "clone");
    char* out = nullptr; size_t n = 0;
    c.check(srcml_archive_write_open_memory(b, &out, &n) == 0, "open for output");
    while (srcml_unit* u = srcml_archive_read_unit(a)) { c.check(srcml_archive_write_unit(b, u) == 0, "write"); srcml_unit_free(u); }
    srcml_archive_close(b); srcml_archive_free(b); srcml_archive_close(a); srcml_archive_free(a);
    std::string r = out ? std::string(out, n) : ""; if (out) srcml_memory_free(out);
    return r;
}
static void prop(Ctx& c) {
    spec::Want w; w.maxUnits = 3;
    spec::ArchiveSpec s = spec::make(c, w);
    for (size_t i = s.ns.size(); i-- > 0;) if (s.ns[i].first == "a-b") s.ns.erase(s.ns.begin() + i);      // libxml2 gives the URI as it is written
    s.options &= ~(size_t) SRCML_OPTION_NO_XML_DECL;
    std::string d = spec::describe(s); c.note(d); std::string plain = spec::toMemory(s);
    Doc t(plain); c.check(t.ok(), "document", t.error + "\n" + plain);
    xmlNodePtr root = t.root(); auto us = units(root); bool archive = us.size() != 1 || us[0] != root;
    const char* enc = c.pick({ "UTF-8", "UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16" });
    bool wide = enc[0] == 'U' && enc[2] == 'F';
    if (archive) {
        d += "\nroot:" + add(c, root, root, wide);
        if (c.chance(1, 4)) for (int k = c.range(1, 3); k > 0; --k) {
            xmlNodePtr m = xmlNewDocNode(root->doc, root->ns, BAD_CAST "macro-list", nullptr); std::string name = gen::word(c);
            xmlSetProp(m, BAD_CAST "token", BAD_CAST name.c_str()); xmlSetProp(m, BAD_CAST "type", BAD_CAST c.pick({ "src:macro", "src:type", "src:name" }));
            xmlAddPrevSibling(root->children, m); d += "\nmacro " + name;
        }
    }
    for (size_t i = 0; i < us.size(); ++i) d += "\nunit " + std::to_string(i) + ":" + add(c, us[i], root, wide);
    int mode = c.range(0, 1);
    d += std::string(mode ? "\nsettings copied" : "\ncloned");
    c.note(d);
    xmlChar* b = nullptr; int n = 0; xmlDocDumpMemoryEnc(t.d, &b, &n, enc); std::string doc((char*) b, n); xmlFree(b);

    auto pi = [](xmlDocPtr d) { for (xmlNodePtr k = d->children; k; k = k->next) if (k->type == XML_PI_NODE) return S((const char*) k->name) + " " + (k->content ? S((const char*) k->content) : S()); return S(); };
    // settings and attributes as read
    {
        srcml_archive* a = srcml_archive_create(); c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open");
        auto want = [&](xmlNodePtr x, const char* name) { bool has = false; std::string v = attr(x, name, &has); return has ? v : std::string("(null)"); };
        { S g = str(srcml_archive_get_processing_instruction_target(a)), w = pi(t.d); c.eq(w.empty() ? g : g + " " + str(srcml_archive_get_processing_instruction_data(a)), w.empty() ? S("(null)") : w, "processing instruction as read"); }
        if (archive) { c.eq(str(srcml_archive_get_url(a)), want(root, "url"), "url"); c.eq(str(srcml_archive_get_version(a)), want(root, "version"), "version of the archive"); }
        for (auto x : us) {
            srcml_unit* u = srcml_archive_read_unit(a); c.check(u, "unit");
            c.eq(str(srcml_unit_get_language(u)), want(x, "language"), "language"); c.eq(str(srcml_unit_get_filename(u)), want(x, "filename"), "filename"); c.eq(str(srcml_unit_get_version(u)), want(x, "version"), "version");
            c.eq(str(srcml_unit_get_timestamp(u)), want(x, "timestamp"), "timestamp"); c.eq(str(srcml_unit_get_hash(u)), want(x, "hash"), "hash");
            c.eq(canonDoc(str(srcml_unit_get_srcml(u))), canon(x), "srcML of the unit");
            c.evals(); srcml_unit_free(u);
        }
        c.check(!srcml_archive_read_unit(a), "another unit"); srcml_archive_close(a); srcml_archive_free(a);
    }
    int before = c.chance(1, 4) ? c.range(0, (int) us.size() + 1) : -1;
    if (before >= 0) c.note("the archive was opened before and read " + std::to_string(before) + " units");
    std::string again = rewrite(c, doc, mode, before);
    Doc e(again); c.checkf(e.ok(), "rewritten document ill-formed", [&] { return e.error + "\n" + again; });
    auto vs = units(e.root());
    c.eq(std::to_string(vs.size()), std::to_string(us.size()), "number of units");
    c.check((vs.size() != 1 || vs[0] != e.root()) == archive, "kind of document");
    c.eq(pi(e.d), pi(t.d), "processing instruction");
    if (archive && mode == 0) { c.eq(attrsOf(e.root()), attrsOf(root), "attributes of the root"); }
    if (archive && mode == 0) { std::string x, y; for (xmlNodePtr k = root->children; k; k = k->next) if (isSrc(k, "macro-list")) x += canon(k) + "\n"; for (xmlNodePtr k = e.root()->children; k; k = k->next) if (isSrc(k, "macro-list")) y += canon(k) + "\n"; c.eq(y, x, "macros"); if (!x.empty()) c.label("macros"); }
    c.eq(nsOfRoot(e.root()), nsOfRoot(root), "namespaces of the root");
    for (size_t i = 0; i < us.size(); ++i) {
        c.eq(attrsOf(vs[i]), attrsOf(us[i]), "attributes of unit", std::to_string(i));
        c.eq(inside(vs[i]), inside(us[i]), "content of unit", std::to_string(i));
        c.eq(nsInScope(vs[i]), nsInScope(us[i]), "namespaces of unit", std::to_string(i));
        c.evals();
    }
    c.eq(rewrite(c, again, mode), again, "written once more");
    int extra = 0; for (auto x : us) for (xmlAttrPtr a = x->properties; a; a = a->next) if (a->ns && nsOf((xmlNodePtr) a).find("srcML") == std::string::npos) ++extra;
    if (extra) c.label("attributes with prefix");
    if (archive) c.label("archive"); if (!s.ns.empty()) c.label("namespaces");
    c.nontrivial(d.find('=') != std::string::npos);
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C13"; k.prop = prop; k.quick_cases = 30000; k.thorough_cases = 500000;
    k.rule = "generated archives and solitary units to which attributes (with and without prefix, declared on the root or on the unit, also with the local names of srcML's own), macros, and another encoding were added by a tree editor; read, compared with the tree, written into a clone or an archive with the same settings, and once more. Non-trivial: there is an attribute";
    return run(k, argc, argv);
}
