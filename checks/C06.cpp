// Reading a srcML document delivers exactly its units, in order, in any legal XML spelling and with any mix of read and skip.
#include "spec.hpp"
using namespace pbt; using namespace api;

// libxml2 keeps an ampersand in a namespace name as a character reference
static std::string uriOf(const xmlChar* p) { std::string s = (const char*) p; for (size_t i = s.find("&#38;"); i != std::string::npos; i = s.find("&#38;", i + 1)) s.replace(i, 5, "&"); return s; }

struct Style { bool refs, cdata, comments, pis, emptyPairs, spaces, order, decl, quotes, unitns, big; };

struct IO { const std::string* d; size_t pos; size_t chunk; };
static int rd(void* p, char* b, int n) { auto o = (IO*) p; size_t m = std::min({ (size_t) n, o->d->size() - o->pos, o->chunk }); memcpy(b, o->d->data() + o->pos, m); o->pos += m; return (int) m; }
static int cl(void*) { return 0; }

static std::string filler(Ctx& c, int max) { std::string w = c.pick({ "x ", "é", "漢 ", "a < b & c\n", "\n" }), r; int n = c.range(1, max); while ((int) r.size() < n) r += w; return r; }

static void attrText(const std::string& v, char q, bool refs, Ctx& c, std::string& out) {
    for (size_t i = 0; i < v.size(); ++i) {
        unsigned char ch = v[i];
        if (ch == '<') out += "&lt;"; else if (ch == '&') out += "&amp;";
        else if (ch == '"' && q == '"') out += "&quot;"; else if (ch == '\'' && q == '\'') out += "&apos;";
        else if (ch == '\n' || ch == '\t' || ch == '\r') { char b[12]; snprintf(b, sizeof b, "&#%d;", ch); out += b; }
        else if (refs && ch < 0x80 && isalnum(ch) && c.chance(1, 12)) { char b[12]; snprintf(b, sizeof b, c.boolean() ? "&#%d;" : "&#x%x;", ch); out += b; }
        else if (ch == '>') out += c.chance(1, 4) ? ">" : "&gt;";
        else out += (char) ch;
    }
}

static void ser(Ctx& c, const Style& s, xmlNodePtr n, std::string& out, bool inUnit, bool root, bool archive) {
    if (n->type == XML_TEXT_NODE) {
        std::string v = (const char*) n->content;
        if (s.cdata && inUnit && c.chance(1, 6) && v.find("]]>") == std::string::npos && v.find('\r') == std::string::npos) { out += "<![CDATA[" + v + "]]>"; return; }
        for (size_t i = 0; i < v.size(); ++i) {
            unsigned char ch = v[i];
            if (s.comments && inUnit && (ch & 0xC0) != 0x80 && c.chance(1, 60)) out += "<!-- c -->";
            if (ch == '<') out += "&lt;"; else if (ch == '&') out += "&amp;"; else if (ch == '\r') out += "&#13;";
            else if (ch == '>') { bool raw = s.quotes && c.boolean() && !(out.size() > 1 && out.compare(out.size() - 2, 2, "]]") == 0); out += raw ? ">" : "&gt;"; }
            else if (s.refs && ch < 0x80 && c.chance(1, 10)) { char b[12]; snprintf(b, sizeof b, c.boolean() ? "&#%d;" : "&#x%x;", ch); out += b; }
            else out += (char) ch;
        }
        return;
    }
    if (n->type != XML_ELEMENT_NODE) return;
    std::string name = (n->ns && n->ns->prefix ? std::string((const char*) n->ns->prefix) + ":" : "") + (const char*) n->name;
    out += "<" + name;
    std::vector<std::string> as;
    bool decl = false;
    for (xmlNsPtr d = n->nsDef; d; d = d->next) { std::string a = std::string("xmlns") + (d->prefix ? ":" + std::string((const char*) d->prefix) : "") + "=\""; attrText(uriOf(d->href), '"', false, c, a); as.push_back(a + "\""); decl = true; }
    size_t fixed = as.size();
    for (xmlAttrPtr a = n->properties; a; a = a->next) {
        char q = s.quotes && c.chance(1, 3) ? '\'' : '"';
        std::string t = (a->ns && a->ns->prefix ? std::string((const char*) a->ns->prefix) + ":" : "") + (const char*) a->name + "=" + q;
        xmlChar* v = xmlNodeListGetString(n->doc, a->children, 1);
        attrText(v ? (const char*) v : "", q, s.refs, c, t);
        if (v) xmlFree(v);
        as.push_back(t + q);
    }
    (void) decl;
    if (s.order && !isSrc(n, "unit")) for (size_t i = fixed; i + 1 < as.size(); ++i) std::swap(as[i], as[i + c.draw(as.size() - i)]);
    for (auto& a : as) out += (s.spaces && c.chance(1, 6) ? "\n  " : " ") + a;
    if (s.spaces && c.chance(1, 12)) out += " ";
    if (!n->children && !(s.emptyPairs && c.boolean())) { out += "/>"; return; }
    out += ">";
    bool inside = isSrc(n, "unit") ? !(root && archive) : inUnit;
    for (xmlNodePtr k = n->children; k; k = k->next) {
        if (s.comments && c.chance(1, 12)) out += c.pick({ "<!-- a comment -->", "<!---->", "<!-- <unit> & -->" });
        if (s.big && c.chance(1, 20)) out += s.comments ? "<!--" + filler(c, 9000) + "-->" : "<?pi " + filler(c, 9000) + "?>";
        if (s.pis && c.chance(1, 12)) out += c.pick({ "<?pi data?>", "<?x?>" });
        ser(c, s, k, out, inside, false, archive);
    }
    if (s.comments && c.chance(1, 12)) out += "<!-- end -->";
    out += "</" + name + (s.spaces && c.chance(1, 12) ? " " : "") + ">";
}

static std::string lines(const std::string& s) { size_t n = std::count(s.begin(), s.end(), '\n'); if (!s.empty() && s.back() != '\n') ++n; return std::to_string(n); }

static void prop(Ctx& c) {
    spec::Want w; w.scale = 1; w.minUnits = 1; w.maxUnits = 6;
    auto s = spec::make(c, w);
    bool respell = c.chance(2, 3);
    if (respell) s.xmlEncoding.reset();
    std::string doc = spec::toMemory(s);
    Style st{};
    if (respell) {
        st.refs = c.chance(1, 3); st.cdata = c.chance(1, 4); st.comments = c.chance(1, 4); st.pis = c.chance(1, 5); st.emptyPairs = c.chance(1, 3);
        st.spaces = c.chance(1, 3); st.order = c.chance(1, 3); st.decl = c.chance(1, 2); st.quotes = c.chance(1, 4);
        st.big = (st.comments || st.pis) && c.chance(1, 4);
        Doc d(doc);
        c.check(d.ok(), "ill-formed", d.error);
        std::string t = st.decl ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "";
        if (st.comments && c.boolean()) t += "<!-- before -->\n";
        ser(c, st, d.root(), t, false, true, !s.solitary);
        if (st.comments && c.boolean()) t += "\n<!-- after -->";
        t += c.pick({ "\n", "" });
        doc = t;
    }
    int n = (int) s.units.size();
    // 0 read, 1 skip
    std::vector<int> ops; int steps = n + (int) c.draw(3);
    bool all = c.boolean();
    for (int i = 0; i < steps; ++i) ops.push_back(all ? 0 : (int) c.draw(2));
    int stop = c.chance(1, 4) ? (int) c.draw(steps + 1) : steps;          // close early
    std::string d = "ops"; for (int i = 0; i < stop; ++i) d += ops[i] ? " skip" : " read";
    c.note(d + "\n" + doc);
    Doc x(doc);
    c.check(x.ok(), "ill-formed", x.error);
    auto us = units(x.root());
    IO io{};
    srcml_archive* a = srcml_archive_create();
    bool chunked = c.chance(1, 2);
    if (chunked) {      // libxml2 itself cannot read some very long processing instructions in some chunks
        io = { &doc, 0, (size_t) 256 + c.draw(4000) };
        IO t = io;
        xmlDocPtr p = xmlReadIO(rd, cl, &t, nullptr, nullptr, XML_PARSE_HUGE);
        if (p) xmlFreeDoc(p); else chunked = false;
    }
    if (!chunked) c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open");
    else { c.check(srcml_archive_read_open_io(a, &io, rd, cl) == 0, "open"); }
    c.eq(std::to_string(srcml_archive_is_solitary_unit(a)), s.solitary ? "1" : "0", "solitary");
    for (int i = 0; i < stop; ++i) {
        if (ops[i]) {
            int r = srcml_archive_skip_unit(a);
            c.check(r == (i < n), "skip-result", "skip " + std::to_string(i) + " of " + std::to_string(n) + " gave " + std::to_string(r));
            continue;
        }
        srcml_unit* u = srcml_archive_read_unit(a);
        c.check((u != nullptr) == (i < n), "read-result", "read " + std::to_string(i) + " of " + std::to_string(n) + (u ? " gave a unit" : " gave none"));
        if (!u) continue;
        xmlNodePtr e = us[i];
        auto at = [&](const char* nm, const char* got) { bool has; std::string v = attr(e, nm, &has); c.eq(str(got), has ? v : "(null)", std::string("attribute-") + nm, "unit " + std::to_string(i)); };
        at("language", srcml_unit_get_language(u)); at("filename", srcml_unit_get_filename(u)); at("version", srcml_unit_get_version(u));
        at("timestamp", srcml_unit_get_timestamp(u)); at("hash", srcml_unit_get_hash(u)); at("revision", srcml_unit_get_revision(u));
        std::string want = canon(e);
        c.eq(canonDoc(str(srcml_unit_get_srcml(u))), want, "srcml", "unit " + std::to_string(i));
        std::string text = textOf(e);
        srcml_unit_set_src_encoding(u, "UTF-8");
        char* b = nullptr; size_t m = 0;
        int stt = srcml_unit_unparse_memory(u, &b, &m);
        c.check(stt == 0, "unparse", std::to_string(stt));
        c.eq(std::string(b, m), text, "source", "unit " + std::to_string(i));
        srcml_memory_free(b);
        c.eq(std::to_string(srcml_unit_get_loc(u)), lines(text), "loc", "unit " + std::to_string(i));
        // inner: the content
        std::string open = "<unit xmlns=\"" + std::string(SRC_NS) + "\"";
        open = "<w"; for (xmlNsPtr* l = xmlGetNsList(x.d, e), *q = l; l && *q; ++q) { open += std::string(" xmlns") + ((*q)->prefix ? ":" + std::string((const char*) (*q)->prefix) : "") + "=\""; attrText(uriOf((*q)->href), '"', false, c, open); open += "\""; }
        std::string inner = open + ">" + str(srcml_unit_get_srcml_inner(u)) + "</w>";
        Doc in(inner);
        c.check(in.ok(), "inner-ill-formed", in.error + "\n" + quote(inner, 2000));
        std::string got, wanted; for (xmlNodePtr k = in.root()->children; k; k = k->next) got += canon(k); for (xmlNodePtr k = e->children; k; k = k->next) wanted += canon(k);
        c.eq(got, wanted, "inner", "unit " + std::to_string(i));
        srcml_unit_free(u);
        c.evals();
    }
    srcml_archive_close(a); srcml_archive_free(a);
    if (st.cdata) c.label("cdata"); if (st.comments) c.label("comments"); if (st.refs) c.label("references"); if (st.pis) c.label("processing instructions"); if (st.quotes) c.label("single quotes");
    if (stop < steps) c.label("closed early"); if (!all) c.label("skips");
    c.nontrivial(n > 1 || respell);
}

int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C06"; k.prop = prop; k.quick_cases = 30000; k.thorough_cases = 120000; k.cpu_limit = 10; k.wall_limit = 20;
    k.rule = "documents of 1-6 units as srcML writes them, or respelled as other XML tools may write the same content (references, CDATA, comments, processing instructions, empty-element pairs, white space and order of attributes, quotes, no declaration), "
             "also with very long comments and processing instructions, are read from memory or by callbacks in chunks with a random mix of read and skip, past the end or closed early. Every read must give the next unit: attributes, srcML, inner srcML, source, and lines of code equal those of the unit element in an independent XML reading; a step past the end gives none. "
             "Non-trivial: several units or respelled";
    return run(k, argc, argv);
}
