// Code that is compiled conditionally: what is marked and what is left as text.
#include "markup.hpp"
using namespace pbt; using namespace api; typedef std::string S;

// the markup with the branches that are left out as text only; directives and comments are marked also there
struct Cond { bool zero, other; };
struct Out { bool if0, text; std::vector<Cond> st; int left = 0; bool nested = false;
    bool skip() { for (auto& x : st) if ((x.zero && !if0) || (x.other && text)) return true; return false; }
    static S tag(xmlNodePtr k) { return (k->ns && k->ns->prefix ? S((const char*) k->ns->prefix) + ":" : S()) + (const char*) k->name; }
    static void open(xmlNodePtr k, S& r) { r += "<" + tag(k); for (auto a = k->properties; a; a = a->next) r += " " + S((const char*) a->name) + "=\"" + attr(k, (const char*) a->name) + "\""; r += ">"; }
    void whole(xmlNodePtr k, S& r) { if (k->type == XML_TEXT_NODE) { r += markup::Gen::esc((const char*) k->content); return; } if (k->type != XML_ELEMENT_NODE) return; open(k, r); for (auto j = k->children; j; j = j->next) whole(j, r); r += "</" + tag(k) + ">"; }
    void walk(xmlNodePtr n, S& r) {
        for (auto k = n->children; k; k = k->next) {
            if (k->type == XML_TEXT_NODE) { r += markup::Gen::esc((const char*) k->content); if (skip()) left++; continue; }
            if (k->type != XML_ELEMENT_NODE) continue;
            S t = tag(k);
            if (t.compare(0, 4, "cpp:") == 0) {
                whole(k, r);
                if (t == "cpp:if" || t == "cpp:ifdef" || t == "cpp:ifndef") { bool z = false; if (t == "cpp:if") for (auto j = k->children; j; j = j->next) if (j->type == XML_ELEMENT_NODE && S((const char*) j->name) == "expr") { xmlChar* x = xmlNodeGetContent(j); z = S((const char*) x) == "0"; xmlFree(x); } for (auto& x : st) if (z && x.zero) nested = true; st.push_back({ z, false }); }
                else if (t == "cpp:elif" || t == "cpp:else") { bool was = st.back().zero; st.back() = { false, st.back().other || !was }; }
                else if (t == "cpp:endif") st.pop_back();
            } else if (t == "comment") whole(k, r);
            else if (skip()) walk(k, r);
            else { open(k, r); walk(k, r); r += "</" + t + ">"; }
        }
    }
};
static S norm(const S& xml, Ctx& c) { Doc w(xml); if (!w.ok()) c.fail("model", w.error + xml); S r; markup::tightNode(w.root(), r, true); return r; }
static const S UNIT = "<unit xmlns:cpp=\"http://www.srcML.org/srcML/cpp\">";

static void compare(Ctx& c, const S& lang, const S& src, const S& tight) {
    S first; int left = 0;
    for (int k = 0; k < 4; ++k) {
        Opts o; o.options = (k & 1 ? SRCML_OPTION_CPP_MARKUP_IF0 : 0) | (k & 2 ? SRCML_OPTION_CPP_TEXT_ELSE : 0) | (c.chance(1, 4) ? SRCML_OPTION_POSITION : 0);
        Parsed p = parse(src, lang, o); c.check(p.status == 0, "status"); c.evals();
        Doc t(p.srcml); c.check(t.ok(), "well-formed", t.error);
        c.eq(textOf(t.root()), src, "text of the srcML");
        if (o.options & SRCML_OPTION_POSITION) continue;
        S got; markup::tightNode(t.root(), got, true);
        Doc w(UNIT + tight + "</unit>"); if (!w.ok()) c.fail("model", w.error + tight);
        Out x { (k & 1) != 0, (k & 2) != 0 }; S want; x.walk(w.root(), want); left += x.left;
        if (k == 3 && x.nested) continue;       // what the #else of an #if 0 in a marked #if 0 is, is not said
        c.eq(got, norm(UNIT + want + "</unit>", c), S("markup") + (k & 1 ? " with #if 0 marked" : "") + (k & 2 ? " with #else as text" : ""), src);
    }
    if (left) c.nontrivial(true);
}
static void prop(Ctx& c) {
    S lang = c.pick({ "C++", "C", "Objective-C" }); markup::Gen g(c, lang); g.conditionals = true; g.fuel = c.chance(1, 4) ? 100 : 40;
    S m = g.program(c.range(1, 4)); S src = markup::source(c, m, c.range(0, 3), false);
    c.note(lang + "\n" + src); for (auto& s : g.seen) if (s[0] == '#' || s[0] == '0') c.label(s);
    compare(c, lang, src, markup::tight(m));
}
static void fixed(Ctx& c, const S& src, const S& want) { c.note(src); compare(c, "C++", src, want); c.nontrivial(true); }
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C29"; k.prop = prop; k.quick_cases = 20000; k.thorough_cases = 500000;
    k.rule = "programs with nested conditional groups (#if, #ifdef, #ifndef, #elif, #else, #if 0) around complete statements and declarations at any level, parsed under each setting of the two options; non-trivial: under some setting, code of the program is left as text";
    k.directed = {
        { "zero-as-a-part", "a condition that begins with 0", [](Ctx& c) { fixed(c, "#if 0 || A\na;\n#endif\n", "<cpp:if>#<cpp:directive>if</cpp:directive><expr><literal type=\"number\">0</literal><operator>||</operator><name>A</name></expr></cpp:if><expr_stmt><expr><name>a</name></expr>;</expr_stmt><cpp:endif>#<cpp:directive>endif</cpp:directive></cpp:endif>"); } },
    };
    return run(k, argc, argv);
}
