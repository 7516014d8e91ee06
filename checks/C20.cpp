// Units written element by element: the tree is exactly the sequence of accepted calls, and refused calls have no effect.
// build: asan
#include "spec.hpp"
#include <set>
#include <map>
using namespace pbt; using namespace api;

static std::string esc(const std::string& s, bool attribute) {
    std::string r; for (char ch : s) switch (ch) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; case '\r': r += "&#13;"; break;
        case '"': r += attribute ? "&quot;" : "\""; break; case '\n': r += attribute ? "&#10;" : "\n"; break; case '\t': r += attribute ? "&#9;" : "\t"; break; default: r += ch; }
    return r;
}
struct Model {
    srcml_unit* u = nullptr; bool started = false, done = false, open = false;
    struct El { std::string end; std::string def; std::set<std::string> attrs, prefixes; };
    std::vector<El> stack; std::string body, lang; int calls = 0;
    void close() { if (open) { body += ">"; open = false; } }
    std::string whole() const { std::string b = body; if (open) b += ">"; for (size_t i = stack.size(); i-- > 0;) b += stack[i].end; return b; }
};
struct Ns { const char* prefix; const char* uri; };

static void prop(Ctx& c) {
    Opts o; std::string d; bool solitary = c.chance(1, 4);
    const char* srcPrefix = nullptr;
    if (c.chance(1, 4)) { srcPrefix = "s"; o.ns.push_back({ "s", SRC_NS }); }
    if (c.chance(1, 4)) o.ns.push_back({ "m", "urn:m" });
    srcml_archive* a = archive(o);
    if (c.boolean()) { srcml_archive_disable_hash(a); }
    if (solitary) srcml_archive_enable_solitary_unit(a); else srcml_archive_disable_solitary_unit(a);
    if (c.chance(1, 4)) srcml_archive_set_xml_encoding(a, c.pick({ "ISO-8859-1", "UTF-16", "US-ASCII" }));
    char* out = nullptr; size_t n = 0; c.check(srcml_archive_write_open_memory(a, &out, &n) == 0, "open");
    int nu = solitary ? 1 : c.range(1, 3);
    std::vector<Model> m(nu);
    d += std::string(solitary ? "solitary" : "archive") + (srcPrefix ? " prefix s" : "") + " units " + std::to_string(nu) + "\n";
    for (auto& x : m) { x.u = srcml_unit_create(a); x.lang = gen::language(c); srcml_unit_set_language(x.u, x.lang.c_str()); if (c.chance(1, 6)) { srcml_write_start_unit(x.u); srcml_write_start_element(x.u, nullptr, "left", nullptr); srcml_unit_free(x.u); x.u = srcml_unit_create(a); srcml_unit_set_language(x.u, x.lang.c_str()); } if (c.boolean()) srcml_unit_set_filename(x.u, gen::attrValue(c).c_str()); if (c.chance(1, 3)) srcml_unit_set_version(x.u, gen::attrValue(c).c_str()); }
    std::vector<std::string> wanted;       // units of the document
    int refused = 0;
    auto status = [&](int got, int want, const std::string& what) { c.evals(); c.checkf(got == want, "status", [&] { return what + " gave " + std::to_string(got) + " and not " + std::to_string(want) + "\n" + d; }); if (want) ++refused; };
    auto verify = [&](Model& x) {
        std::string q = srcPrefix ? "s:" : ""; std::string tree = "<" + q + "unit xmlns" + (srcPrefix ? ":s" : "") + "=\"" + SRC_NS + "\" xmlns:m=\"urn:m\">" + x.whole() + "</" + q + "unit>";
        Doc w(tree), g(str(srcml_unit_get_srcml(x.u)));
        c.checkf(w.ok(), "model ill-formed", [&] { return w.error + "\n" + tree + "\n" + d; });
        c.checkf(g.ok(), "srcML ill-formed", [&] { return g.error + "\n" + str(srcml_unit_get_srcml(x.u)) + "\n" + d; });
        std::string ws, gs; for (xmlNodePtr k = w.root()->children; k; k = k->next) ws += canon(k); for (xmlNodePtr k = g.root()->children; k; k = k->next) gs += canon(k);
        c.eq(gs, ws, "tree", d); c.check(isSrc(g.root(), "unit"), "root", d); c.eq(attr(g.root(), "language"), x.lang, "language", d);
        std::string src = textOf(w.root()); c.eq(std::to_string(srcml_unit_get_loc(x.u)), std::to_string(lineCount(src)), "lines of code", d);
        std::string inner = str(srcml_unit_get_srcml_inner(x.u));
        Doc i("<" + q + "unit xmlns" + (srcPrefix ? ":s" : "") + "=\"" + SRC_NS + "\" xmlns:m=\"urn:m\">" + inner + "</" + q + "unit>"); c.checkf(i.ok(), "inner srcML ill-formed", [&] { return i.error + "\n" + inner + "\n" + d; });
        std::string is; for (xmlNodePtr k = i.root()->children; k; k = k->next) is += canon(k); c.eq(is, ws, "inner srcML", d);
        c.evals();
    };
    int steps = c.range(1, 24);
    for (int s = 0; s < steps; ++s) {
        int k = nu == 1 ? 0 : c.range(0, nu - 1); Model& x = m[k]; std::string at = "  unit " + std::to_string(k) + " ";
        bool in = x.started; const int NO = SRCML_STATUS_INVALID_INPUT;
        switch (in ? c.pick(std::vector<int>{ 1, 1, 1, 2, 2, 3, 4, 4, 4, 5, 6, 6, 7, 8, 9, 10, 0, 12, 13 }) : c.pick(std::vector<int>{ 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 11, 11, 14 })) {
        case 0: if (in && !c.chance(1, 4)) break; d += at + "start unit\n"; status(srcml_write_start_unit(x.u), 0, "start unit"); x.started = true; x.done = false; x.open = false; x.stack.clear(); x.body.clear(); break;
        case 1: {
            std::string def = in && !x.stack.empty() ? x.stack.back().def : (srcPrefix ? "" : SRC_NS);
            std::vector<Ns> can = { { "cpp", CPP_NS }, { "m", "urn:m" }, { "q", "urn:q" } };
            if (srcPrefix) can.push_back({ "s", SRC_NS }); else if (def == SRC_NS) { can.push_back({ nullptr, SRC_NS }); can.push_back({ nullptr, SRC_NS }); can.push_back({ nullptr, nullptr }); }
            can.push_back({ nullptr, "urn:d" });
            Ns e = c.pick(can); std::string name = c.pick({ "expr", "name", "a", "block", "x-y", "_" });
            d += at + "start element " + (e.prefix ? e.prefix : "") + ":" + name + " " + (e.uri ? e.uri : "(null)") + "\n";
            status(srcml_write_start_element(x.u, e.prefix, name.c_str(), e.uri), in ? 0 : NO, "start element");
            if (!in) break;
            x.close(); std::string q = (e.prefix ? std::string(e.prefix) + ":" : "") + name;
            x.body += "<" + q; Model::El el; el.end = "</" + q + ">"; el.def = e.prefix || !e.uri ? def : e.uri;
            if (e.uri && e.uri != std::string(SRC_NS)) { x.body += std::string(" xmlns") + (e.prefix ? ":" + std::string(e.prefix) : "") + "=\"" + e.uri + "\""; el.prefixes.insert(e.prefix ? e.prefix : ""); }
            x.stack.push_back(el); x.open = true; break; }
        case 2: { bool can = in && !x.stack.empty(); d += at + "end element\n"; status(srcml_write_end_element(x.u), can ? 0 : NO, "end element"); if (can) { x.close(); x.body += x.stack.back().end; x.stack.pop_back(); } break; }
        case 3: {
            Ns e = c.pick(std::vector<Ns>{ Ns{ nullptr, nullptr }, Ns{ nullptr, nullptr }, Ns{ nullptr, nullptr }, Ns{ "m", "urn:m" }, Ns{ "p", "urn:p" } });
            std::string name = c.pick({ "type", "a", "b", "language", "x.y" }), v = gen::attrValue(c); std::string q = (e.prefix ? std::string(e.prefix) + ":" : "") + name;
            bool can = in && x.open; if (can && x.stack.back().attrs.count(q)) break;
            d += at + "attribute " + q + "=" + quote(v) + "\n"; status(srcml_write_attribute(x.u, e.prefix, name.c_str(), e.uri, v.c_str()), can ? 0 : NO, "attribute");
            if (can) { if (e.prefix && x.stack.back().prefixes.insert(e.prefix).second) x.body += std::string(" xmlns:") + e.prefix + "=\"" + e.uri + "\""; x.body += " " + q + "=\"" + esc(v, true) + "\""; x.stack.back().attrs.insert(q); }
            break; }
        case 4: { std::string t = c.chance(1, 8) ? "" : gen::plainText(c, 20); if (c.chance(1, 3)) t = c.pick({ "\"", "a\"b\"", "\n", "]]>", "\xF0\x9F\x98\x80\xE2\x82\xAC\"", "&lt;", "a\r\nb" }) + t; d += at + "string " + quote(t) + "\n";
            status(srcml_write_string(x.u, t.c_str()), in ? 0 : NO, "string"); if (in) { x.close(); x.body += esc(t, false); } break; }
        case 5: { Ns e = c.pick(std::vector<Ns>{ Ns{ "r1", "urn:r" }, Ns{ "r2", "urn:r" } }); bool can = in && x.open; if (can && x.stack.back().prefixes.count(e.prefix)) break;
            d += at + "namespace " + e.prefix + "\n"; status(srcml_write_namespace(x.u, e.prefix, e.uri), can ? 0 : NO, "namespace"); if (can) { x.stack.back().prefixes.insert(e.prefix); x.body += std::string(" xmlns:") + e.prefix + "=\"" + e.uri + "\""; } break; }
        case 6: d += at + "end unit\n"; status(srcml_write_end_unit(x.u), in ? 0 : NO, "end unit"); if (in) { x.started = false; x.done = true; verify(x); } break;
        case 7: { d += at + "bad arguments\n";
            if (c.boolean()) status(srcml_write_start_element(x.u, nullptr, "unit", nullptr), NO, "element unit"); else status(srcml_write_start_element(x.u, nullptr, nullptr, SRC_NS), SRCML_STATUS_INVALID_ARGUMENT, "element without name");
            status(srcml_write_attribute(x.u, nullptr, nullptr, nullptr, "v"), SRCML_STATUS_INVALID_ARGUMENT, "attribute without name"); status(srcml_write_string(x.u, nullptr), SRCML_STATUS_INVALID_ARGUMENT, "no string"); status(srcml_write_namespace(x.u, "p", nullptr), SRCML_STATUS_INVALID_ARGUMENT, "no URI");
            break; }
        case 8: { std::string t = c.pick({ "\x01", "\x1f", "\f" }); if (srcPrefix) break; std::string def = x.stack.empty() ? SRC_NS : x.stack.back().def; if (def != SRC_NS) break;
            char v[8]; snprintf(v, 8, "0x%x", t[0]); d += at + "escape " + v + "\n";
            status(srcml_write_start_element(x.u, nullptr, "escape", SRC_NS), 0, "escape"); status(srcml_write_attribute(x.u, nullptr, "char", nullptr, v), 0, "char"); status(srcml_write_end_element(x.u), 0, "end of escape");
            x.close(); x.body += std::string("<escape char=\"") + v + "\"/>"; break; }
        case 9: { int j = c.range(1, 12); d += at + "nested " + std::to_string(j) + "\n"; for (int i = 0; i < j; ++i) { status(srcml_write_start_element(x.u, "q", "deep", "urn:q"), 0, "nested"); x.close(); x.body += "<q:deep xmlns:q=\"urn:q\""; x.open = true; Model::El el; el.end = "</q:deep>"; el.prefixes.insert("q"); el.def = x.stack.empty() ? (srcPrefix ? "" : SRC_NS) : x.stack.back().def; x.stack.push_back(el); } break; }
        case 10: { std::string t(c.pick(std::vector<int>{ 100, 4000, 4096, 9000 }), 'x'); t += "\n\"\xC3\xA9"; d += at + "long string " + std::to_string(t.size()) + "\n"; status(srcml_write_string(x.u, t.c_str()), 0, "string"); x.close(); x.body += esc(t, false); break; }
        case 12: d += at + "unfinished to the archive\n"; if (x.started) { status(srcml_archive_write_unit(a, x.u), SRCML_STATUS_UNINITIALIZED_UNIT, "unfinished unit to the archive"); c.eq(str(srcml_unit_get_srcml(x.u)), "(null)", "srcML of an unfinished unit", d); } break;
        case 13: if (in) { d += at + "literal\n"; status(srcml_write_string(x.u, "one \"two\" three"), 0, "literal"); x.close(); x.body += "one \"two\" three"; } break;
        case 14: if (!in) { d += at + "parse\n"; c.check(srcml_unit_parse_memory(x.u, "a;\n", 3) == 0, "parse", d); x.done = false; } break;
        case 11: if (x.done && (!solitary || wanted.empty())) { d += at + "to the archive\n"; c.check(srcml_archive_write_unit(a, x.u) == 0, "write", d); wanted.push_back(x.whole()); } break;
        }
    }
    for (auto& x : m) if (x.started) { status(srcml_write_end_unit(x.u), 0, "end unit"); x.started = false; x.done = true; verify(x); }
    for (auto& x : m) if (x.done && (!solitary || wanted.empty())) { verify(x); c.check(srcml_archive_write_unit(a, x.u) == 0, "write", d); wanted.push_back(x.whole()); verify(x); }
    for (auto& x : m) srcml_unit_free(x.u);
    srcml_archive_close(a); srcml_archive_free(a);
    std::string doc = out ? std::string(out, n) : ""; if (out) srcml_memory_free(out);
    c.note(d);
    if (wanted.empty()) return;
    Doc g(doc); c.checkf(g.ok(), "document ill-formed", [&] { return g.error + "\n" + doc + "\n" + d; });
    auto us = units(g.root()); c.eq(std::to_string(us.size()), std::to_string(wanted.size()), "number of units", d);
    srcml_archive* r = srcml_archive_create(); srcml_archive_set_src_encoding(r, "UTF-8"); c.check(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "open", doc);
    for (size_t i = 0; i < us.size(); ++i) {
        std::string q = srcPrefix ? "s:" : ""; Doc w("<" + q + "unit xmlns" + (srcPrefix ? ":s" : "") + "=\"" + SRC_NS + "\" xmlns:m=\"urn:m\">" + wanted[i] + "</" + q + "unit>");
        std::string ws, gs; for (xmlNodePtr k = w.root()->children; k; k = k->next) ws += canon(k); for (xmlNodePtr k = us[i]->children; k; k = k->next) gs += canon(k);
        c.eq(gs, ws, "unit in the document", d);
        srcml_unit* u = srcml_archive_read_unit(r); c.check(u, "unit", doc); char* b = nullptr; size_t bn = 0; c.check(srcml_unit_unparse_memory(u, &b, &bn) == 0, "unparse", doc);
        c.eq(std::string(b, bn), textOf(w.root()), "source", d); srcml_memory_free(b); srcml_unit_free(u); c.evals();
    }
    srcml_archive_close(r); srcml_archive_free(r);
    if (refused) c.label("refused calls"); if (nu > 1) c.label("several units"); c.label(solitary ? "solitary" : "archive");
    c.nontrivial(doc.find("xmlns:q") != std::string::npos || doc.find("<expr") != std::string::npos || wanted[0].size() > 3);
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C20"; k.prop = prop; k.quick_cases = 10000; k.thorough_cases = 400000; k.cpu_limit = 10;
    k.rule = "sequences of calls that build up to three units at a time element by element (also refused calls, restarts, control characters, texts above the buffers), compared after each unit and in the document with a model tree; the source is read back. Non-trivial: a unit has content";
    return run(k, argc, argv);
}
