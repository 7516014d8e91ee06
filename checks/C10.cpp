// Positions
#include "spec.hpp"
using namespace pbt; using namespace api;

struct Pos { std::vector<int> line, col; };
// line and column of every byte of the text
static Pos positions(const std::string& s, int tab) {
    Pos p; int l = 1, k = 1;
    for (char ch : s) {
        p.line.push_back(l); p.col.push_back(k);
        if (ch == '\n') { ++l; k = 1; }
        else if (ch == '\t') k = ((k - 1) / tab + 1) * tab + 1;
        else ++k;
    }
    p.line.push_back(l); p.col.push_back(k);
    return p;
}
static std::string posAttr(xmlNodePtr n, const char* name) {
    for (xmlAttrPtr a = n->properties; a; a = a->next)
        if (a->ns && std::string((const char*) a->ns->href) == POS_NS && std::string((const char*) a->name) == name) { xmlChar* v = xmlNodeGetContent((xmlNodePtr) a); std::string r = (const char*) v; xmlFree(v); return r; }
    return "";
}

// the text with, for every byte, whether it is white space between tokens and whether it is in a comment or directive
struct Text { std::string t; std::vector<char> ws, skip, com; };
static void flat(xmlNodePtr n, Text& x, bool comment, bool skip, bool literal) {
    for (xmlNodePtr k = n->children; k; k = k->next) {
        if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE)
            for (const char* p = (const char*) k->content; *p; ++p) { x.t += *p; x.ws.push_back(!comment && !literal && strchr(" \t\n\f\r", *p)); x.skip.push_back(skip); x.com.push_back(comment); }
        else if (k->type == XML_ELEMENT_NODE) {
            if (isSrc(k, "escape")) { x.t += (char) strtol(attr(k, "char").c_str(), nullptr, 0); x.ws.push_back(!comment); x.skip.push_back(skip); x.com.push_back(comment); continue; }
            bool com = isSrc(k, "comment"), cpp = nsOf(k) == CPP_NS;
            flat(k, x, comment || com, skip || com || cpp, literal || (isSrc(k, "literal") && attr(k, "type") != "complex"));
        }
    }
}
static bool fragments = false;
static std::string lc(int l, int k) { return std::to_string(l) + ":" + std::to_string(k); }
static void walk(Ctx& c, xmlNodePtr n, const Text& x, size_t& at, const Pos& p, bool root) {
    size_t b = at;
    for (xmlNodePtr k = n->children; k; k = k->next) {
        if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) at += strlen((const char*) k->content);
        else if (k->type == XML_ELEMENT_NODE) { if (isSrc(k, "escape")) ++at; else walk(c, k, x, at, p, false); }
    }
    if (root) return;
    std::string s = posAttr(n, "start"), e = posAttr(n, "end"), nm = nameOf(n), txt = quote(x.t.substr(b, at - b));
    if (nm == "type" && attr(n, "ref") == "prev") return;       // has the position of the previous type
    if (s.empty() != e.empty()) c.fail("half-position " + nm, txt);
    // first and last character of the element; where it starts or ends with comments or directives also the first and last outside of them
    std::vector<std::string> S, E;
    bool atom = nm == "name" || nm == "literal" || nm == "operator" || nm == "comment" || nm == "specifier" || nm == "directive";
    bool self = nm == "comment", cpp = nsOf(n) == CPP_NS;
    long first = -1, last = -1, first2 = -1, last2 = -1, first3 = -1, last3 = -1;
    for (size_t i = b; i < at; ++i) if (!x.ws[i]) { if (first < 0) first = i; last = i; if (!self && !(cpp ? x.com[i] : x.skip[i])) { if (first2 < 0) first2 = i; last2 = i; } }
    // continued lines
    for (size_t i = b; i < at; ++i) if (!x.ws[i] && !(x.t[i] == '\\' && i + 1 < x.t.size() && x.t[i + 1] == '\n')) { if (first3 < 0) first3 = i; last3 = i; }
    if (first < 0) { if (!s.empty() && nm != "block_content") c.fail("empty-has-position " + nm, s + " " + e + " " + txt); return; }
    if (s.empty()) { if ((first2 < 0 && !self) || (fragments && !atom)) return; c.fail("no-position " + nm, txt); }
    for (long i : { first, first2, first3 }) if (i >= 0) S.push_back(lc(p.line[i], p.col[i]));
    for (long i : { last, last2, last3 }) if (i >= 0) { E.push_back(lc(p.line[i], p.col[i])); if (x.t[i] == '\n') E.push_back(lc(p.line[i] + 1, 0)); if (x.t[i] == '\t') E.push_back(lc(p.line[i], p.col[i + 1] - 1)); }
    std::string S0, E0; bool sok = false, eok = false;
    for (auto& v : S) { S0 += v + " "; sok |= v == s; } for (auto& v : E) { E0 += v + " "; eok |= v == e; }
    // recovery in code that is not the construct it was taken for, or that directives cut: the start and end of an element may be at a following token
    if (!atom && (fragments || nm == "block_content" || x.t.substr(b, at - b).find("{") != std::string::npos))
        for (size_t i = first; i < x.t.size(); ++i) if (!x.ws[i]) { if (lc(p.line[i], p.col[i]) == s) sok = true; if (((long) i >= last || fragments) && (lc(p.line[i], p.col[i]) == e || lc(p.line[i] + 1, 0) == e)) eok = true; }
    if (fragments) for (size_t i = last; i <= at && i < x.t.size(); ++i) if (lc(p.line[i], p.col[i]) == e || lc(p.line[i] + 1, 0) == e) eok = true;     // unterminated literals
    if (!sok) c.fail("start " + nm, s + " want " + S0 + txt);
    if (!eok) c.fail("end " + nm, e + " want " + E0 + txt);
    c.evals();
}
static std::string expand(const std::string& s, int tab) {
    std::string r; int k = 1;
    for (char ch : s) {
        if (ch == '\t') { int n = ((k - 1) / tab + 1) * tab + 1; while (k < n) { r += ' '; ++k; } }
        else { r += ch; k = ch == '\n' ? 1 : k + 1; }
    }
    return r;
}
// all positions in order
static void list(xmlNodePtr n, std::string& r) {
    r += nameOf(n) + " " + posAttr(n, "start") + " " + posAttr(n, "end") + "\n";
    for (xmlNodePtr k = n->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) list(k, r);
}
static void prop(Ctx& c) {
    std::string lang = gen::language(c);
    fragments = c.chance(1, 4);
    std::string src = fragments ? gen::source(c, lang, 1) : gen::program(c, lang, 3);
    for (size_t i; (i = src.find("omp")) != std::string::npos;) src[i] = 'a';     // a keyword outside of pragmas as well
    if (src.find('#') != std::string::npos || src.find("asm") != std::string::npos) fragments = true;
    if (c.boolean()) {      // tabs as the code in files has them
        std::string s; bool bol = true;
        for (size_t i = 0; i < src.size(); ++i) { char ch = src[i]; if (ch == ' ' && (bol ? c.chance(2, 3) : c.chance(1, 12))) s += c.chance(1, 5) ? "\t\t" : "\t"; else s += ch; bol = ch == '\n' || (bol && ch == ' '); }
        src = s;
    }
    Opts o; o.options = SRCML_OPTION_POSITION; o.src_encoding = "UTF-8"; o.tabstop = c.range(1, 9);
    if (c.chance(1, 4)) o.options |= c.pick(std::vector<size_t>{ SRCML_OPTION_CPP, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP | SRCML_OPTION_CPP_MARKUP_IF0 });
    std::string prefix = "pos";
    if (c.chance(1, 4)) { prefix = c.pick({ "p", "position", "q1" }); o.ns = { { prefix, POS_NS } }; }
    c.note(lang + " tabstop " + std::to_string(o.tabstop) + " options " + std::to_string(o.options) + " prefix " + prefix + "\n" + src);
    Parsed a = parse(src, lang, o);
    c.check(a.status == 0, "parse", std::to_string(a.status));
    Doc d(a.srcml); c.check(d.ok(), "ill-formed", d.error);
    c.check(a.srcml.find("xmlns:" + prefix + "=\"" + POS_NS) != std::string::npos, "prefix not declared", a.srcml.substr(0, 400));
    c.eq(posAttr(d.root(), "tabs"), std::to_string(o.tabstop), "tabs");
    Text x; flat(d.root(), x, false, false, false); size_t at = 0;
    walk(c, d.root(), x, at, positions(x.t, o.tabstop), true);
    std::string want; for (xmlNodePtr k = d.root()->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) list(k, want);
    // a tab is the white space up to the next tab stop: the positions are those of the source with spaces
    if (src.find('\t') != std::string::npos) {
        Opts o2 = o; o2.tabstop = c.range(1, 9);
        Parsed b = parse(expand(src, o.tabstop), lang, o2);
        Doc e(b.srcml); c.check(e.ok(), "ill-formed", e.error);
        std::string got; for (xmlNodePtr k = e.root()->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) list(k, got);
        c.eq(got, want, "positions with tabs expanded");
        c.label("tabs");
    }
    // positions do not change the markup
    Opts o3 = o; o3.options &= ~(size_t) SRCML_OPTION_POSITION; o3.ns.clear();
    Parsed p3 = parse(src, lang, o3);
    c.eq(canonDoc(a.srcml, true), canonDoc(p3.srcml, true), "markup with positions");
    c.label(lang); c.nontrivial(src.find('\n') != std::string::npos);
}
int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C10"; k.prop = prop; k.quick_cases = 20000; k.thorough_cases = 80000;
    k.rule = "a case is one source text parsed with the position option and a tab stop; non-trivial when it has more than one line; an evaluation is one element whose start and end positions were compared with the text";
    return run(k, argc, argv);
}
