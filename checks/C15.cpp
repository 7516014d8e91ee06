// Namespaces: the registry of an archive is the list of the registrations, and documents use exactly its prefixes.
#include "spec.hpp"
#include <set>
#include <map>
using namespace pbt; using namespace api;

static const std::vector<std::string> STD = { SRC_NS, CPP_NS, "http://www.srcML.org/srcML/error", POS_NS, OMP_NS };
struct M { std::vector<std::pair<std::string, std::string>> ns = { { "", SRC_NS } }; int options = 0; };
static std::string show(const M& m) { std::string r; for (auto& n : m.ns) r += "xmlns:" + n.first + "=\"" + n.second + "\" "; return r + "options " + std::to_string(m.options); }
static void registered(M& m, const std::string& p, const std::string& u) {
    bool found = false; for (auto& n : m.ns) if (n.second == u) { n.first = p; found = true; break; }
    if (!found) m.ns.push_back({ p, u });
    if (u == CPP_NS) m.options |= SRCML_OPTION_CPP;
    if (u == "http://www.srcML.org/srcML/error") m.options |= 1 << 0 | 0;
    if (u == POS_NS) m.options |= SRCML_OPTION_POSITION;
}
static std::string show(srcml_archive* a, const M& m) {
    std::string r; size_t n = srcml_archive_get_namespace_size(a);
    for (size_t i = 0; i < n; ++i) r += "xmlns:" + str(srcml_archive_get_namespace_prefix(a, i)) + "=\"" + str(srcml_archive_get_namespace_uri(a, i)) + "\" ";
    (void) m; return r + "options " + std::to_string(srcml_archive_get_options(a) & ~1);
}
static std::string showGlobal() {
    std::string r; size_t n = srcml_get_namespace_size();
    for (size_t i = 0; i < n; ++i) r += "xmlns:" + str(srcml_get_namespace_prefix(i)) + "=\"" + str(srcml_get_namespace_uri(i)) + "\" ";
    return r + "options " + std::to_string(srcml_get_options() & ~1);
}
static std::string esc(const std::string& s) { std::string r; for (char ch : s) if (ch == '&') r += "&amp;"; else if (ch == '<') r += "&lt;"; else if (ch == '>') r += "&gt;"; else if (ch == '"') r += "&quot;"; else r += ch; return r; }
static const char* prefix(Ctx& c) { return c.pick({ "", "s", "src", "cpp", "pos", "omp", "x", "y", "a-b", "_p", "\xC3\xA9", "very.long-prefix_1", "xmlx" }); }
static std::string uri(Ctx& c) { return c.chance(1, 2) ? std::string(c.pick({ "urn:x", "urn:y", "http://example.org/a", "bar", "http://www.srcML.org/srcML/srcx", "http://www.srcML.org/srcDiff", "http://example.org/?a=1&b=2", "urn:it's&more;" })) : c.chance(1, 8) ? std::string("http://www.srcML.org/srcML/error") : std::string(c.pick({ SRC_NS, CPP_NS, POS_NS, OMP_NS })); }

// the prefixes of a document: those of the registry, otherwise the usual ones
static std::map<std::string, std::string> prefixes(const M& m) {
    std::map<std::string, std::string> r = { { SRC_NS, "" }, { CPP_NS, "cpp" }, { "http://www.srcML.org/srcML/error", "err" }, { POS_NS, "pos" }, { OMP_NS, "omp" } };
    for (auto& n : m.ns) r[n.second] = n.first;
    return r;
}
static bool distinct(const M& m) { std::set<std::string> s; auto ps = prefixes(m); for (auto& p : ps) if (!s.insert(p.second).second) return false; return true; }

static void names(Ctx& c, xmlNodePtr n, const std::map<std::string, std::string>& ps, const std::string& doc) {
    auto one = [&](xmlNsPtr ns) { if (!ns) return; auto i = ps.find((const char*) ns->href); c.checkf(i != ps.end() && i->second == (ns->prefix ? (const char*) ns->prefix : ""), "prefix used", [&] { return std::string(ns->prefix ? (const char*) ns->prefix : "") + " for " + (const char*) ns->href + "\n" + doc; }); };
    for (xmlNodePtr k = n; k; k = k->next) { if (k->type != XML_ELEMENT_NODE) continue; one(k->ns); for (xmlNsPtr d = k->nsDef; d; d = d->next) one(d); for (xmlAttrPtr a = k->properties; a; a = a->next) if (a->ns && std::string((const char*) a->ns->prefix) != "xml") one(a->ns); names(c, k->children, ps, doc); }
}
static std::string write(Ctx& c, srcml_archive* a, const std::vector<std::pair<std::string, std::string>>& us, std::vector<std::string>* parts = nullptr) {
    char* b = nullptr; size_t n = 0; c.check(srcml_archive_write_open_memory(a, &b, &n) == 0, "open for output");
    for (auto& x : us) {
        srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, x.first.c_str());
        c.check(srcml_unit_parse_memory(u, x.second.data(), x.second.size()) == 0, "parse");
        if (parts) { parts->push_back(str(srcml_unit_get_srcml(u))); parts->push_back(str(srcml_unit_get_srcml_outer(u))); parts->push_back(str(srcml_unit_get_srcml_inner(u))); }
        c.check(srcml_archive_write_unit(a, u) == 0, "write"); srcml_unit_free(u);
    }
    srcml_archive_close(a); std::string r = b ? std::string(b, n) : ""; if (b) srcml_memory_free(b); return r;
}

static void prop(Ctx& c) {
    std::string d;
    if (c.chance(1, 8)) { isolated(c, [&] {
        M m;
        for (int k = c.range(1, 8); k > 0; --k) {
            if (c.chance(1, 8)) { bool first = c.boolean(); c.check(srcml_register_namespace(first ? nullptr : "x", first ? "urn:x" : nullptr) == SRCML_STATUS_INVALID_ARGUMENT, "status"); continue; }
            std::string p = prefix(c), u = uri(c); c.check(srcml_register_namespace(p.c_str(), u.c_str()) == 0, "status"); registered(m, p, u); m.options &= ~1; d += "register " + p + " " + u + "\n";
            c.eq(showGlobal(), show(m), "global namespaces", d); std::string q = uri(c); auto w = std::find_if(m.ns.begin(), m.ns.end(), [&](auto& n) { return n.second == q; });
            c.eq(str(srcml_get_prefix_from_uri(q.c_str())), w == m.ns.end() ? "(null)" : w->first, "prefix of " + q, d);
            c.check(!srcml_get_namespace_prefix(m.ns.size()) && !srcml_get_namespace_uri(m.ns.size()), "beyond the end", d);
        }
        srcml_archive* a = srcml_archive_create(); c.eq(show(a, M()), show(M()), "namespaces of a new archive", d); srcml_archive_free(a);
        c.note("global\n" + d); c.label("global"); c.nontrivial(m.ns.size() > 1);
    }); return; }
    std::vector<std::pair<srcml_archive*, M>> as; as.push_back({ srcml_archive_create(), M() });
    for (int k = c.range(1, 10); k > 0; --k) {
        size_t i = c.draw(as.size()); auto& A = as[i]; std::string n = "archive " + std::to_string(i) + ": ";
        switch (c.range(0, 5)) {
        case 0: if (as.size() < 4) { as.push_back({ srcml_archive_clone(A.first), A.second }); d += n + "clone\n"; } break;
        case 1: { bool first = c.boolean(); c.check(srcml_archive_register_namespace(A.first, first ? nullptr : "x", first ? "urn:x" : nullptr) == SRCML_STATUS_INVALID_ARGUMENT, "status", d); c.check(srcml_archive_register_namespace(nullptr, "x", "urn:x") == SRCML_STATUS_INVALID_ARGUMENT, "status", d); break; }
        default: {
            std::string p, u = uri(c);
            if (u == SRC_NS && c.boolean()) p = c.pick({ "s", "src" });
            else p = prefix(c);
            c.check(srcml_archive_register_namespace(A.first, p.c_str(), u.c_str()) == 0, "status", d); registered(A.second, p, u); A.second.options &= ~1; d += n + "register " + p + " " + u + "\n"; }
        }
        for (size_t j = 0; j < as.size(); ++j) {
            auto& B = as[j]; c.eq(show(B.first, B.second), show(B.second), "namespaces of archive " + std::to_string(j), d);
            std::string q = uri(c); auto w = std::find_if(B.second.ns.begin(), B.second.ns.end(), [&](auto& n) { return n.second == q; });
            c.eq(str(srcml_archive_get_prefix_from_uri(B.first, q.c_str())), w == B.second.ns.end() ? "(null)" : w->first, "prefix of " + q, d);
            size_t z = B.second.ns.size(); c.check(!srcml_archive_get_namespace_prefix(B.first, z) && !srcml_archive_get_namespace_uri(B.first, z) && !srcml_archive_get_namespace_prefix(B.first, (size_t) -1), "beyond the end", d);
            c.evals(3);
        }
    }
    // a document with the namespaces of one of the archives
    auto& A = as[c.draw(as.size())]; M& m = A.second;
    bool error = false; for (auto& n : m.ns) error = error || n.second == "http://www.srcML.org/srcML/error";
    bool attributes = true; for (auto& n : m.ns) if (n.second == POS_NS && n.first.empty()) attributes = false;      // attributes need a prefix
    if (distinct(m) && !error && attributes) {
        srcml_archive* a = A.first; size_t opts = m.options; if (c.boolean()) { opts = c.range(0, 31) * 2; if (c.boolean()) opts |= SRCML_OPTION_CPP; srcml_archive_set_options(a, opts); }
        bool sol = c.chance(1, 3); if (sol) srcml_archive_enable_solitary_unit(a); else srcml_archive_disable_solitary_unit(a);
        bool hash = c.boolean(); if (!hash) srcml_archive_disable_hash(a);
        std::vector<std::pair<std::string, std::string>> us;
        for (int k = sol ? 1 : c.range(0, 3); k > 0; --k) { std::string l = gen::language(c); us.push_back({ l, (c.boolean() ? "" : c.pick({ "#pragma omp parallel for\n", "#if A\nx;\n#endif\n", "char a = '\x01'; // \x02\n" })) + gen::source(c, l) }); }
        d += "document, options " + std::to_string(opts) + (sol ? ", solitary" : "") + (hash ? "" : ", no hash") + "\n"; for (auto& u : us) d += u.first + " " + quote(u.second) + "\n"; c.note(d);
        std::vector<std::string> parts, plainParts;
        std::string doc = write(c, a, us, &parts); c.evals();
        srcml_archive* b = srcml_archive_create(); srcml_archive_set_options(b, opts); if (sol) srcml_archive_enable_solitary_unit(b); else srcml_archive_disable_solitary_unit(b); if (!hash) srcml_archive_disable_hash(b);
        std::string plain = write(c, b, us, &plainParts); srcml_archive_free(b);
        Doc t(doc); c.check(t.ok(), "document ill-formed", t.error + "\n" + doc);
        c.eq(canonDoc(doc), canonDoc(plain), "document with prefixes", doc);
        auto ps = prefixes(m); names(c, t.root(), ps, doc);
        for (auto& n : m.ns) if (std::find(STD.begin(), STD.end(), n.second) == STD.end()) {      // registered ones are declared, once
            int k = 0; for (xmlNsPtr x = t.root()->nsDef; x; x = x->next) k += n.second == (const char*) x->href; c.check(k == 1, "registered namespace declared on the root " + n.second, doc); c.label("declared"); }
        for (size_t i = 0; i + 2 < parts.size(); i += 3) for (int j = 0; j < 2; ++j) {
            if (j) { std::string w = "<w", v = "<w"; for (auto& n : ps) w += " xmlns" + (n.second.empty() ? "" : ":" + n.second) + "=\"" + esc(n.first) + "\""; for (auto& n : prefixes(M())) v += " xmlns" + (n.second.empty() ? "" : ":" + n.second) + "=\"" + esc(n.first) + "\"";
                parts[i + j] = w + ">" + parts[i + j] + "</w>"; plainParts[i + j] = v + ">" + plainParts[i + j] + "</w>"; }
            Doc p(parts[i + j]); if (!p.ok()) c.fail(j ? "outer srcML ill-formed" : "srcML of a unit ill-formed", p.error + "\n" + parts[i + j]);
            Doc q(plainParts[i + j]); if (!q.ok()) c.fail("plain ill-formed", plainParts[i + j]);
            c.eq(canon(j ? p.root()->children : p.root()), canon(j ? q.root()->children : q.root()), j ? "outer srcML" : "srcML of a unit", parts[i + j]); names(c, p.root(), ps, parts[i + j]); c.evals();
        }
        for (size_t i = 0; i < us.size(); ++i) { std::string s; if (us[i].second.empty()) continue; c.check(unparse(doc, s, i), "back to source"); std::string w; c.check(unparse(plain, w, i), "back to source"); c.eq(s, w, "source"); }
        // read again
        srcml_archive* r = srcml_archive_create(); c.check(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "open");
        for (auto& n : m.ns) if (std::find(STD.begin(), STD.end(), n.second) == STD.end()) c.eq(str(srcml_archive_get_prefix_from_uri(r, n.second.c_str())), n.first, "prefix read " + n.second, doc);
        srcml_archive* r2 = srcml_archive_create(); c.check(srcml_archive_read_open_memory(r2, plain.data(), plain.size()) == 0, "open");
        for (size_t i = 0; i < us.size(); ++i) { srcml_unit* u = srcml_archive_read_unit(r); c.check(u, "unit read"); srcml_unit* u2 = srcml_archive_read_unit(r2); c.check(u2, "unit read"); std::string want = canonDoc(str(srcml_unit_get_srcml(u2))); srcml_unit_free(u2); c.eq(canonDoc(str(srcml_unit_get_srcml(u))), want, "srcML of the unit read", doc); names(c, Doc(str(srcml_unit_get_srcml(u))).root(), ps, str(srcml_unit_get_srcml(u))); srcml_unit_free(u); }
        srcml_archive_free(r); srcml_archive_free(r2);
        c.label("document"); if (m.ns[0].first != "") c.label("srcML with a prefix");
    } else c.note(d);
    c.nontrivial(as.size() > 1 || m.ns.size() > 1);
    for (auto& x : as) srcml_archive_free(x.first);
}
static void twoUris(Ctx& c) {
    srcml_archive* a = srcml_archive_create(); srcml_archive_disable_hash(a);
    int st = srcml_archive_register_namespace(a, "foo", "urn:a") | srcml_archive_register_namespace(a, "foo", "urn:b");
    std::string doc = write(c, a, { { "C", "a;\n" } }); Doc t(doc); srcml_archive_free(a);
    c.check(st || t.ok(), "document ill-formed", t.error + "\n" + doc);
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C15"; k.prop = prop; k.quick_cases = 40000; k.thorough_cases = 400000;
    k.rule = "sequences of registrations of standard and other namespaces (also as default namespace, also refused ones) on up to four archives and clones, or on the library; after each, all archives are compared with the list; then documents are compared with those with the usual prefixes. Non-trivial: a namespace was added or an archive cloned";
    k.directed.push_back({ "prefix-for-two-uris", "one prefix registered for two URIs is accepted and the document declares it twice", twoUris });
    return run(k, argc, argv);
}
