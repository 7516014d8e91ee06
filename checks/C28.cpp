// Where comments, strings, characters, numbers, and directives begin and end.
#include "../lib/api.hpp"
using namespace pbt; using namespace api; typedef std::string S;

struct Want { S kind, text; };
struct Src {
    Ctx& c; S lang; bool cpp, cs, cxx, java, objc, cfam; S s; std::vector<Want> want; S lastName; std::vector<Want> dirs; int n = 0, hard = 0; bool directive = false, verbatim = false;
    Src(Ctx& c, const S& l) : c(c), lang(l), cs(l == "C#"), cxx(l == "C++"), java(l == "Java"), objc(l == "Objective-C") { cfam = cxx || objc || l == "C"; cpp = !java; }
    bool bol() { size_t i = s.size(); while (i && (s[i - 1] == ' ' || s[i - 1] == '\t')) --i; return i == 0 || s[i - 1] == '\n'; }

    // pieces that mean something outside of the token
    S piece(bool newline) {
        static const char* const W[] = { "\"", "'", "\\", "/*", "*/", "//", "*", "/", "{", "}", ";", "#", "<", ">", "&", "&lt;", "]]>", "@\"", "R\"(", ")\"", "\"\"", "''", "\\\\", "\\\"", "#if 0", "#endif", "if (", ")", "a", "0", " ", "x y", "\t",
            "\x01", "\x0c", "\x1b", "\x7f", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "$", "?\?/", "%", ":", "!", "**", "L\"", "u8", "<!--", "-->", "<escape char=\"0x1\"/>" };
        if (newline && c.chance(1, 8)) { ++hard; return "\n"; }
        return W[c.draw(sizeof W / sizeof *W)];
    }
    S content(bool newline, int most = 6) { S r; int k = c.range(0, most); while (k-- > 0) r += piece(newline); if (c.chance(1, 40)) r += S(c.pick(std::vector<int>{ 250, 255, 1023, 1024, 4090 }), c.pick({ "a", " ", "*", "/", "\"", "'", "\\" })[0]) ; if (r.find_first_of("\"'\\*/#\n\x01\x0c\x1b") != S::npos) ++hard; return r; }
    static void noControl(S& r) { for (auto& x : r) if ((unsigned char) x < 32 && x != '\n' && x != '\t') x = '.'; }

    // escapes so that the quote is only at the end
    S escaped(const S& in, char q, bool newline) {
        S r;
        for (size_t i = 0; i < in.size(); ++i) {
            char x = in[i];
            if (x == q) { r += '\\'; r += q; }
            else if (x == '\\') r += c.boolean() ? "\\\\" : c.pick({ "\\n", "\\x41", "\\0", "\\'", "\\\"", "\\u00e9" });
            else if (x == '\n') r += newline ? (c.boolean() ? "\\\n" : "\n") : "\\n";
            else r += x;
        }
        return r;
    }
    S prefixed() { return cfam && c.chance(1, 4) ? c.pick({ "L", "u8", "u", "U" }) : S(); }
    void lit(const S& kind, const S& t) { s += t; if (!directive) want.push_back({ "literal " + kind, t }); else want.push_back({ "", "" }), want.pop_back(); ++n; }
    void str(bool newline = true) {
        if (directive) newline = false;
        bool after = verbatim; verbatim = false;        // a quote right after a verbatim string is part of it
        if (after && !s.empty() && s.back() == '"') s += " ";
        if (cs && c.chance(1, 2)) { S in = content(newline); S r; for (char x : in) { r += x; if (x == '"') r += x; } lit("string", "@\"" + r + "\""); verbatim = true; c.label("verbatim string"); return; }
        if (cxx && c.chance(1, 3)) {
            S d = c.pick({ "", "x", "ab", "--", "a1_", "0123456789abcdef" }), in = content(newline); S e = ")" + d + "\"";
            for (size_t p; (p = (in + e).find(e)) < in.size(); ) in.insert(p + 1, " ");
            lit("string", c.pick({ "R", "LR", "u8R", "UR", "uR" }) + S("\"") + d + "(" + in + e); c.label("raw string"); return;
        }
        S p = objc && c.chance(1, 3) ? "@" : prefixed();
        lit("string", p + "\"" + escaped(content(newline), '"', newline) + "\""); c.label("string");
    }
    void chr() { S in = escaped(content(false, 2), '\'', false); if (in.empty()) in = "a"; lit("char", "'" + in + "'"); c.label("character"); }
    void num() {
        static const char* const W[] = { "0", "1", "42", "3.14", ".5", "5.", "1e10", "1E10", "2.5e-3", "2.5E-3f", "1e+5", "0x1F", "0xFFu", "100L", "10ull", "0b11", "07", "1.5f", "0xE", "0xdeadBEEF" };
        static const char* const X[] = { "1'000", "0xFF'FFu", "0b1'0'1", "1'0.2'5e3", "1'a'b'c" };
        if (cxx && c.chance(1, 6)) { lit("number", X[c.draw(5)]); c.label("digit separator"); return; }
        lit("number", W[c.draw(20)]); c.label("number");
    }
    void block() {
        bool newline = !directive; S in = content(newline); for (size_t p; (p = in.find("*/")) != S::npos; ) in.erase(p, 1);
        if (in == "/" || (in.size() && in[0] == '/')) ++hard;
        // a piece that ends the comment together with the slash is right at the end only
        S t = "/*" + in + "*/"; size_t e = t.find("*/", 2); t = t.substr(0, e + 2);
        S f = "block"; if (t.size() > 4) { char d = t[2]; if (d == '*') f += java ? " javadoc" : " doxygen"; else if (d == '!' && !java) f += " doxygen"; }
        s += t; want.push_back({ "comment " + f, t }); ++n; c.label("block comment");
    }
    void line(bool newline = true) {
        S in = content(false); while (!in.empty() && in.back() == '\\') in.pop_back();
        S t = "//" + in, f = "line"; if (in[0] == '/' || in[0] == '!') f += " doxygen";
        s += t; want.push_back({ "comment " + f, t }); ++n; if (newline) s += "\n"; c.label("line comment");
    }
    void space(bool lines = true) {
        int k = c.range(0, 3);
        while (k-- > 0) switch (c.range(0, lines && !directive ? 6 : 3)) { case 0: case 1: s += " "; break; case 2: s += "\t"; break; case 3: block(); break; case 4: s += "\n"; break; case 5: line(); break; default: s += "\n\n"; }
    }
    void one() { switch (c.range(0, 5)) { case 0: num(); break; case 1: chr(); break; default: str(); } }
    void name() { s += c.pick({ "a", "L", "u8", "R", "x1E", "u", "e5", "b_2", "LR" }); s += " "; }
    void expr() { int k = c.range(1, 3); for (int i = 0; i < k; ++i) { if (i) { space(); s += c.pick({ "+", "==", ",", "<", "*", "|" }); s += " "; } space(); if (c.chance(1, 4)) name(); else one();
            if (c.chance(1, 5) && !s.empty() && s.back() == '"') { int m = c.range(1, 2); while (m--) { if (c.boolean()) space(false); size_t at = s.size(), w = want.size(); bool d = directive; str(); (void) d; if (at && s[at - 1] != ' ' && s[at] != '"' && s[at] != '@') { /* prefix glued to the quote */ s.insert(at, " "); (void) w; } } c.label("adjacent strings"); ++hard; } } space(); }
    void statement() {
        if (s.size() && s.back() != '\n' && c.boolean()) s += " ";
        switch (c.range(0, 5)) {
        case 0: s += "f("; expr(); s += ");"; break;
        case 1: s += "return "; expr(); s += ";"; break;
        case 2: s += "if ("; expr(); s += ") { a = "; expr(); s += "; }"; break;
        case 3: s += "{ x = "; expr(); s += "; }"; break;
        case 4: s += ";"; space(); break;
        default: s += "x = "; expr(); s += ";"; break;
        }
    }
    void line_directive() {
        if (!bol()) s += "\n";
        size_t from = s.size(); line_directive0(); size_t k = s.find_first_not_of(" \t", from + 1), e = k; while (e < s.size() && isalpha((unsigned char) s[e])) ++e;
        dirs.push_back({ s.substr(k, e - k), s.substr(from, s.size() - from - 1) });
    }
    void conditional() {
        if (!bol()) s += "\n";
        auto head = [&](const S& w) { size_t from = s.size(); s += c.pick({ "#", "# " }) + w; directive = true;
            if (w == "if" || w == "elif") { s += " "; bool d = directive; directive = false; size_t m = want.size(); one1(); (void) m; directive = d; s += " == b"; } else if (w == "ifdef" || w == "ifndef") s += " A";
            if (c.chance(1, 4)) { s += " "; block(); } if (c.chance(1, 3)) { s += " "; line(false); } directive = false; dirs.push_back({ w, s.substr(from) }); s += "\n"; };
        head(c.pick({ "if", "ifdef", "ifndef" })); ++hard; c.label("conditional"); if (c.chance(3, 4)) statement(); if (!bol()) s += "\n";
        if (c.chance(1, 3)) { head("elif"); statement(); if (!bol()) s += "\n"; }
        if (c.chance(1, 2)) { head("else"); if (c.chance(3, 4)) statement(); if (!bol()) s += "\n"; }
        head("endif");
    }
    void one1() { if (c.boolean()) num(); else chr(); }
    void line_directive0() {
        directive = true; ++hard; c.label("directive");
        S d; int k = c.range(0, cs ? 1 : 7);
        auto free = [&](bool comments) { S in = content(false); for (auto& x : in) if (x == '\x0c' || x == '\x0b' || (unsigned char) x < 32) x = ' '; if (!in.empty() && in.back() == '\\') in += "."; for (size_t p; comments && ((p = in.find("//")) != S::npos || (p = in.find("/*")) != S::npos); ) in[p] = '.'; if (!in.empty() && in.back() == '/') in += "."; if (cxx) for (size_t p; (p = in.find("R\"")) != S::npos; ) in[p] = '.';      // a raw string may go on
            return in; };
        S h = c.pick({ "#", "# ", "#\t" });
        switch (k) {
        case 0: s += h + c.pick({ "error ", "warning " }); { S in = free(true); noControl(in); s += in; } break;                        // any text
        case 1: s += h + "region "; if (!cs) { s.resize(s.size() - 7); s += "define A"; } else { S in = free(true); noControl(in); s += in; } break;
        case 2: s += h + "define A "; one(); space(); s += " b "; if (c.boolean()) { s += "\\\n "; one(); } if (c.chance(1, 3)) { s += " "; line(false); } break;
        case 3: s += h + "define F(x) "; one(); s += " x "; if (c.boolean()) block(); break;
        case 4: s += h + "define A \""; { S in = free(true); noControl(in); for (auto& x : in) if (x == '"' || x == '\\') x = '.'; s += in; } c.label("quote that is not ended in a directive"); break;
        case 5: s += h + "error it's "; { S in = free(true); noControl(in); for (auto& x : in) if (x == '\'' || x == '\\') x = '.'; s += in; } c.label("quote that is not ended in a directive"); break;
        case 6: s += h + "undef A"; if (c.boolean()) { s += " "; block(); } if (c.boolean()) { s += " "; line(false); } break;
        default: s += h + "include \"a//b/*c.h\""; if (c.boolean()) { s += " "; line(false); } break;
        }
        s += "\n"; directive = false;
    }
    void last() {                       // not ended: to the end of the source
        c.label("not ended"); ++hard; S in = content(true); noControl(in);
        switch (c.range(0, 3)) {
        case 0: for (size_t p; (p = in.find("*/")) != S::npos; ) in.erase(p, 1); if (in[0] == '*' || in[0] == '!' ) in = "a" + in; s += " "; s += "/*" + in; want.push_back({ "comment block", "/*" + in }); break;
        case 1: s += " x = "; in = escaped(in, '"', true); lit("string", "\"" + in); break;
        case 2: if (cxx) { s += " x = "; for (auto& x : in) if (x == ')') x = '.'; lit("string", "R\"(" + in); break; }      // falls through
        default: for (auto& x : in) if (x == '\n') x = ' '; while (!in.empty() && in.back() == '\\') in.pop_back(); if (in[0] == '/' || in[0] == '!') in = "a" + in; s += " "; s += "//" + in; want.push_back({ "comment line", "//" + in });
        }
    }
};

static void collect(xmlNodePtr n, std::vector<Want>& r) {
    for (auto k = n->children; k; k = k->next) {
        if (k->type != XML_ELEMENT_NODE) continue;
        if (isSrc(k, "comment")) { S f = attr(k, "format"); r.push_back({ "comment " + attr(k, "type") + (f.empty() ? "" : " " + f), textOf(k) }); for (auto j = k->children; j; j = j->next) if (j->type == XML_ELEMENT_NODE && !isSrc(j, "escape")) r.push_back({ "inside", nameOf(j) }); }
        else if (isSrc(k, "literal")) { S t = attr(k, "type"); r.push_back({ "literal " + t, textOf(k) }); for (auto j = k->children; j; j = j->next) if (j->type == XML_ELEMENT_NODE && !isSrc(j, "escape")) r.push_back({ "inside", nameOf(j) }); }
        else if (nsOf(k) != CPP_NS || nameOf(k) != "literal") collect(k, r);
    }
}
static void directives(xmlNodePtr n, std::vector<Want>& r) {
    for (auto k = n->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) {
        bool d = false; if (nsOf(k) == CPP_NS) for (auto j = k->children; j; j = j->next) if (j->type == XML_ELEMENT_NODE && nameOf(j) == "directive" && nsOf(j) == CPP_NS) d = true;
        if (d) r.push_back({ nameOf(k), textOf(k) });
        directives(k, r);
    }
}
static S list(const std::vector<Want>& v) { S r; for (auto& w : v) r += w.kind + ": " + w.text + "\n"; return r; }

static void run(Ctx& c, const S& lang, const S& src, const std::vector<Want>& want, const std::vector<Want>* dirs = nullptr) {
    Opts o; o.src_encoding = "UTF-8"; if (c.chance(1, 4)) o.options |= SRCML_OPTION_POSITION;
    Parsed p = parse(src, lang, o); c.evals(); c.check(p.status == 0, "status", std::to_string(p.status));
    Doc d(p.srcml); c.check(d.ok(), "ill-formed srcML", d.error);
    c.eq(textOf(d.root()), src, "text of the srcML");
    std::vector<Want> got; collect(d.root(), got);
    c.eq(list(got), list(want), "comments and literals of the srcML");
    if (!dirs) return;
    got.clear(); directives(d.root(), got); c.check(got.size() == dirs->size(), "directives of the srcML", list(got));
    for (size_t i = 0; i < got.size(); ++i) {
        const Want& w = (*dirs)[i]; c.eq(got[i].kind, w.kind, "directive");
        S t = got[i].text; c.check(w.text.compare(0, t.size(), t) == 0, "text of the directive", t + "\nof\n" + w.text);
        S rest = w.text.substr(t.size()); rest.erase(0, std::min(rest.size(), rest.find_first_not_of(" \t\x01\x0c\x1b\x7f")));
        c.check(rest.empty() || rest.compare(0, 2, "//") == 0 || rest.compare(0, 2, "/*") == 0, "end of the directive", t + "\nof\n" + w.text);
    }
}
static void prop(Ctx& c) {
    S lang = gen::language(c); Src g(c, lang); int n = c.range(1, 6);
    for (int i = 0; i < n; ++i) {
        if (g.cpp && c.chance(1, 4)) { if (!g.cs && c.chance(1, 3)) g.conditional(); else g.line_directive(); } else g.statement();
        if (c.chance(1, 3)) g.space();
    }
    if (c.chance(1, 6)) g.last();
    if (g.s.empty()) c.discard();
    c.note(lang + "\n" + g.s); c.nontrivial(g.hard > 0 && g.n > 1);
    run(c, lang, g.s, g.want, &g.dirs);
}

static void fixed(Ctx& c, const S& lang, const S& src, const std::vector<Want>& w) { c.note(lang + "\n" + src); c.nontrivial(true); run(c, lang, src, w); }
static const char* const ST = "literal string"; static const char* const NU = "literal number";
int main(int argc, char** argv) {
    Check k; k.id = "C28"; k.prop = prop; k.quick_cases = 60000; k.thorough_cases = 2000000;
    k.rule = "at least two tokens, and one of them contains quotes, backslashes, comment signs, control characters, or line ends, or is next to another string, in a directive, or not ended";
    k.directed = {
        { "adjacent-strings", "strings right after each other", [](Ctx& c) { fixed(c, "C++", "a = \"x\"\"y\"\"\"; b;", { { ST, "\"x\"" }, { ST, "\"y\"" }, { ST, "\"\"" } }); } },
        { "verbatim-backslash", "a verbatim string with a backslash in front of a doubled quote", [](Ctx& c) { fixed(c, "C#", "a = @\"x\\\"\"y\"; b = \"z\";", { { ST, "@\"x\\\"\"y\"" }, { ST, "\"z\"" } }); } },
        { "objective-c-escape", "an Objective-C string with an escaped quote", [](Ctx& c) { fixed(c, "Objective-C", "a = @\"x\\\"y\"; b;", { { ST, "@\"x\\\"y\"" } }); } },
        { "upper-case-exponent", "an exponent with an upper-case E and a sign", [](Ctx& c) { fixed(c, "C", "a = 1E-5 + 2.5E+3f;", { { NU, "1E-5" }, { NU, "2.5E+3f" } }); } },
        { "exclamation-slash", "a comment that begins with /*!/", [](Ctx& c) { fixed(c, "C++", "/*!/ x */ b;", { { "comment block doxygen", "/*!/ x */" } }); } },
        { "digit-separator", "a number with digits separated by single quotes", [](Ctx& c) { fixed(c, "C++", "a = 1'000 + 'b';", { { NU, "1'000" }, { "literal char", "'b'" } }); } },
        { "string-not-ended", "a string that is not ended", [](Ctx& c) { fixed(c, "C++", "a = \"x;\n", { { ST, "\"x;\n" } }); } },
    };
    return run(k, argc, argv);
}
