// Markup does not depend on what is next to a piece of source, on the names used, or on white space and comments.
#include "../lib/api.hpp"
using namespace pbt; using namespace api; typedef std::string S;

static S inner(Ctx& c, const S& src, const S& lang) { Opts o; o.src_encoding = "UTF-8"; Parsed p = parse(src, lang, o); c.evals(); c.check(p.status == 0, "status", std::to_string(p.status)); return p.inner; }

// tokens of the source by an independent lexer: kind w word, n number, s string or character, c comment, d directive line, p punctuation, ' ' white space
struct Tok { char k; S t; };
static std::vector<Tok> lex(const S& s, const S& lang) {
    std::vector<Tok> r; size_t i = 0; bool bol = true; bool cpp = lang != "Java";
    while (i < s.size()) {
        size_t b = i; char ch = s[i], k;
        if (ch == ' ' || ch == '\t' || ch == '\n') { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n')) { if (s[i] == '\n') bol = true; ++i; } r.push_back({ ' ', s.substr(b, i - b) }); continue; }
        if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') ++i; k = 'c'; }
        else if (s.compare(i, 2, "/*") == 0) { i = s.find("*/", i + 2); if (i == S::npos) { i = s.size(); r.push_back({ 'p', ")" }); } else i += 2; k = 'c'; }
        else if (ch == '#' && bol && cpp) { while (i < s.size() && s[i] != '\n') { if (s[i] == '\\' && i + 1 < s.size()) ++i; ++i; } k = 'd'; }
        else if (ch == '"' || ch == '\'') { ++i; while (i < s.size() && s[i] != ch) { if (s[i] == '\\') ++i; ++i; } i = std::min(i + 1, s.size()); k = 's'; }
        else if (isalpha((unsigned char) ch) || ch == '_' || ch == '@' || ch == '$' || (unsigned char) ch >= 128) { ++i; while (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '_' || (unsigned char) s[i] >= 128)) ++i; k = 'w'; }
        else if (isdigit((unsigned char) ch)) { while (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '.' || s[i] == '_')) ++i; k = 'n'; }
        else { ++i; k = 'p'; }
        if (k != 'c') bol = false;
        r.push_back({ k, s.substr(b, i - b) });
    }
    return r;
}
static bool balanced(const std::vector<Tok>& v) {
    S st; int ifs = 0;
    for (auto& t : v) {
        if (t.k == 'p') { char x = t.t[0]; if (strchr("([{", x)) st += x; else if (strchr(")]}", x)) { if (st.empty() || st.back() != (x == ')' ? '(' : x == ']' ? '[' : '{')) return false; st.pop_back(); } }
        if (t.k == 'd') { S d = t.t.substr(1); d.erase(0, d.find_first_not_of(" \t") == S::npos ? d.size() : d.find_first_not_of(" \t")); if (d.compare(0, 2, "if") == 0) ++ifs; else if (d.compare(0, 5, "endif") == 0 && --ifs < 0) return false; }
    }
    return st.empty() && ifs == 0;
}
static S first(const std::vector<Tok>& v) { for (auto& t : v) if (t.k != ' ' && t.k != 'c') return t.t; return ""; }
static bool has(const std::vector<Tok>& v, std::initializer_list<const char*> ws) { for (auto& t : v) for (auto w : ws) if (t.t == w) return true; return false; }

static S strip(const S& m, bool comments) {      // markup without white space, and comments if asked
    S r; size_t i = 0;
    while (i < m.size()) {
        if (m[i] == '<') {
            size_t e = m.find('>', i);
            if (comments && m.compare(i, 8, "<comment") == 0) { i = m.find("</comment>", i) + 10; continue; }
            r += m.substr(i, e + 1 - i); i = e + 1;
        } else { if (!strchr(" \t\n", m[i])) r += m[i]; ++i; }
    }
    return r;
}

// the markup of the statements between two sentinels
static S between(Ctx& c, const S& m, const S& src) {
    const S one = "<expr_stmt><expr><name>sentinel_one</name></expr>;</expr_stmt>", two = "<expr_stmt><expr><name>sentinel_two</name></expr>;</expr_stmt>";
    size_t b = m.find(one), e = m.rfind(two);
    if (b == S::npos || e == S::npos || b > e) c.fail("sentinel", "a statement next to the piece is not marked as a statement:\n" + m);
    return m.substr(b + one.size(), e - b - one.size());
}
static S wrap(Ctx& c, const S& lang, const S& x, S& d) {
    S r = x; bool clike = lang != "Java" && lang != "C#"; int n = c.range(0, 2); d = "";
    auto block = [&](const char* a, const char* b) { r = S(a) + "\n" + r + "\n" + b; d = S(a) + " ... " + b + " / " + d; };
    while (n-- > 0) switch (c.range(0, 8)) {
        case 0: block("if (a) {", "}"); break;
        case 1: block("while (a < b) {", "}"); break;
        case 2: block("for (i = 0; i < n; ++i) {", "}"); break;
        case 3: block("if (a) { b(); } else {", "}"); break;
        case 4: block("do {", "} while (a);"); break;
        case 5: if (lang == "C" || lang == "Objective-C") block("{", "}"); else block("try {", "} catch (E e) { }"); break;
        case 6: block("{", "}"); break;
        case 7: block("switch (a) { case 1: b(); default: {", "} }"); break;
        default: block("{ g(a); {", "} }"); break;
    }
    if (clike) block("void f(int a) {", "}"); else { block("void f(int a) {", "}"); block("class A {", "}"); }
    return r;
}

static void prop(Ctx& c) {
    S lang = gen::language(c);
    int k = c.range(0, 3);
    S a = gen::corpus(c, lang); auto ta = lex(a, lang);
    if (!balanced(ta)) c.discard();
    if (k == 0) {
        c.label("concat"); S x = a, b, m1; int n = c.range(1, 3); std::vector<S> all;
        if (has(ta, { "do" })) c.discard();
        S text = a + "\n;\n", want = inner(c, text, lang);
        for (int i = 0; i < n; ++i) {
            S b = gen::corpus(c, lang); auto tb = lex(b, lang); if (!balanced(tb)) c.discard();
            for (auto w : { "else", "catch", "finally", "while", "@catch", "@finally" }) if (first(tb) == w) c.discard();
            bool last = i + 1 == n; if (!last && has(tb, { "do" })) c.discard();
            if (!last) b += "\n;\n";
            text += b; want += inner(c, b, lang);
        }
        c.note(lang + "\n" + text);
        c.nontrivial(true);
        c.eq(inner(c, text, lang), want, "concat", "markup of the pieces together");
    } else if (k == 1) {
        for (auto& t : ta) if (t.k == 'd') c.discard();
        if (has(ta, { "#", "asm", "__asm", "__asm__" }) || a.find("R\"") != S::npos) c.discard();
        for (size_t i = 0; i + 2 < ta.size(); ++i) if (ta[i].k == 'p' && ta[i + 1].k == ' ' && ta[i + 2].k == 'p' && ta[i].t == "=" && ta[i + 2].t == ">") c.discard();
        S s; bool spaced = false; for (auto& t : ta) { if (t.k == ' ' && s.size() && t.t.find('\n') == S::npos) { spaced = true; switch (c.range(0, 5)) { case 0: s += "  "; break; case 1: s += "\t"; break; case 2: s += " /* c */ "; break; case 3: s += "\n"; break; case 4: s += " // c\n "; break; default: s += t.t; } } else s += t.t; }
        if (!spaced) c.discard();
        c.label("space"); c.note(lang + "\n" + a + "\n----\n" + s);
        c.nontrivial(true);
        c.eq(strip(inner(c, s, lang), true), strip(inner(c, a, lang), true), "space", "markup with other white space");
    } else if (k == 2) {
        std::map<S, S> names; S s; int n = 0;
        for (size_t i = 0; i < ta.size(); ++i) { auto& t = ta[i]; if (t.k == 'd') c.discard(); bool prefix = i + 1 < ta.size() && ta[i + 1].k == 's'; if (!prefix && t.k == 'w' && t.t.size() == 1 && islower((unsigned char) t.t[0])) { auto& x = names[t.t]; if (x.empty()) x = c.pick({ "n", "q", "zz", "alpha_1", "w9", "_x" }) + std::to_string(n++); s += x; } else s += t.t; }
        if (names.empty()) c.discard();
        c.label("names"); c.note(lang + "\n" + a + "\n----\n" + s);
        c.nontrivial(true);
        // back
        S m = inner(c, s, lang); for (auto& x : names) { size_t p = 0; while ((p = m.find(x.second, p)) != S::npos) { bool w = (p == 0 || !(isalnum((unsigned char) m[p - 1]) || m[p - 1] == '_')) && !(p + x.second.size() < m.size() && (isalnum((unsigned char) m[p + x.second.size()]) || m[p + x.second.size()] == '_')); if (w) { m.replace(p, x.second.size(), "\x01" + x.first); p += 1 + x.first.size(); } else ++p; } }
        S r; for (char ch : m) if (ch != 1) r += ch;
        c.eq(r, inner(c, a, lang), "names", "markup with other names");
    } else {
        for (auto w : { "else", "catch", "finally", "while", "@catch", "@finally" }) if (first(ta) == w) c.discard();
        if (has(ta, { "do" })) c.discard();
        S x = "sentinel_one;\n" + a + "\n;\nsentinel_two;", d1, d2, w1 = wrap(c, lang, x, d1), w2 = wrap(c, lang, x, d2);
        if (d1 == d2) c.discard();
        c.label("nest"); c.note(lang + "\n" + w1 + "\n----\n" + w2);
        c.nontrivial(true);
        c.eq(between(c, inner(c, w1, lang), w1), between(c, inner(c, w2, lang), w2), "nest", "markup in " + d1 + " and in " + d2);
    }
}

int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C27"; k.prop = prop; k.quick_cases = 80000; k.thorough_cases = 1500000;
    k.rule = "two or more sources were parsed whose markup has to agree: pieces together and apart, with other white space and comments, with other names, or in two different contexts";
    return run(k, argc, argv);
}
