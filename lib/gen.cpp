#include "gen.hpp"
#include <fstream>
#include <map>
#include <iterator>

namespace gen {

const std::vector<std::string> LANGS = { "C++", "C", "Java", "C#", "Objective-C" };

std::string language(Ctx& c) {
    static const int w[] = { 0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4 };
    return LANGS[w[c.draw(sizeof w / sizeof *w)]];
}

std::string extensionFor(const std::string& l) {
    return l == "C++" ? ".cpp" : l == "C" ? ".c" : l == "Java" ? ".java" : l == "C#" ? ".cs" : ".m";
}

std::string utf8(uint32_t cp) {
    std::string s;
    if (cp < 0x80) s += (char) cp;
    else if (cp < 0x800) { s += (char)(0xC0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char)(0xE0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    else { s += (char)(0xF0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    return s;
}

static const std::vector<std::string> NAMES = { "a", "b", "x", "y", "foo", "bar", "i", "n", "T", "std", "main", "value", "_t", "A1", "print", "omp", "L", "R", "u8", "get" };

std::string word(Ctx& c) {
    int k = (int) c.draw(10);
    if (k < 8) return c.pick(NAMES);
    std::string s;
    static const char* alpha = "abcxyzABCXYZ_0123456789";
    s += alpha[c.draw(13)];
    int n = c.size(20);
    for (int i = 0; i < n; ++i) s += alpha[c.draw(23)];
    return s;
}

static const std::vector<std::string> COMMON = { "if", "else", "while", "for", "do", "break", "continue", "switch", "case", "default", "return", "enum", "static", "const", "void", "goto", "volatile" };
static const std::map<std::string, std::vector<std::string>> KW = {
    { "C", { "typedef", "struct", "union", "inline", "extern", "asm", "sizeof", "register", "restrict", "_Alignas", "_Alignof", "_Atomic", "_Complex", "_Generic", "_Noreturn", "_Static_assert", "_Thread_local", "auto", "int", "char", "unsigned", "long", "float", "__asm__", "main" } },
    { "C++", { "typedef", "struct", "union", "class", "inline", "extern", "asm", "sizeof", "register", "mutable", "auto", "try", "catch", "throw", "public", "private", "protected", "new", "delete", "signals", "foreach", "forever", "emit", "virtual", "friend", "operator", "explicit", "namespace", "using", "template", "typename", "false", "true", "final", "override", "constexpr", "noexcept", "thread_local", "nullptr", "decltype", "alignas", "alignof", "typeid", "const_cast", "dynamic_cast", "reinterpret_cast", "static_cast", "static_assert", "and", "or", "not", "xor", "bitand", "compl", "int", "char", "bool", "this", "__asm", "__block", "main", "slots" } },
    { "Java", { "class", "interface", "extends", "implements", "public", "private", "protected", "new", "try", "catch", "throw", "throws", "finally", "super", "import", "package", "final", "abstract", "synchronized", "native", "strictfp", "transient", "null", "instanceof", "assert", "true", "false", "this", "int", "boolean", "String", "@interface", "@Override" } },
    { "C#", { "class", "interface", "struct", "namespace", "using", "public", "private", "protected", "new", "try", "catch", "throw", "finally", "foreach", "ref", "out", "in", "lock", "is", "internal", "sealed", "override", "explicit", "implicit", "stackalloc", "as", "delegate", "fixed", "checked", "unchecked", "unsafe", "readonly", "partial", "get", "set", "add", "remove", "await", "abstract", "event", "async", "this", "yield", "params", "null", "typeof", "alias", "from", "where", "select", "let", "orderby", "ascending", "group", "by", "join", "on", "equals", "into", "operator", "virtual", "extern", "int", "string", "var", "true", "false", "sizeof" } },
    { "Objective-C", { "typedef", "struct", "inline", "extern", "sizeof", "@interface", "@implementation", "@protocol", "@end", "@private", "@public", "@required", "@optional", "@try", "@catch", "@finally", "@throw", "@synchronized", "@property", "@synthesize", "@dynamic", "in", "@YES", "YES", "NO", "@encode", "@selector", "@autoreleasepool", "@compatibility_alias", "@class", "nil", "@(", "@[", "@{", "id", "int", "self" } },
};
static const std::vector<std::string> OPS = { "(", ")", "{", "}", ";", "[", "]", ",", "<", ">", "=", "*", "&", ":", ".", "+", "-", "/", "%", "!", "?", "~", "^", "|", "&&", "||", "::", "->", "==", "!=", "<=", ">=", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "++", "--", "...", "->*", ".*", "=>", "??", "<<<", ">>>", "#", "##", "\\", "@", "`", "$" };
static const std::vector<std::string> LITS = { "0", "1", "42", "0x1F", "3.14", "1e10", "1.5e-3f", "10UL", "07", "0b101", "1i", "'a'", "'\\n'", "'\\''", "'\\\\'", "\"s\"", "\"\"", "\"a\\\"b\"", "\"\\\\\"", "L\"w\"", "L'x'", "u8\"u\"", "1.", ".5", "1_000", "1'000", "0xFFu", "R\"(raw)\"", "R\"d(a)\"b)d\"", "@\"v\"\"q\"" };
static const std::vector<std::string> PP = { "#if 0\n", "#if A\n", "#ifdef A\n", "#ifndef A\n", "#else\n", "#elif B\n", "#endif\n", "#define M\n", "#define M x\n", "#define F(a) a\n", "#undef M\n", "#include <a.h>\n", "#include \"b.h\"\n", "#pragma once\n", "#pragma omp parallel for\n", "#line 10 \"f\"\n", "#error e\n", "#warning w\n", "#\n", "# define X \\\n 1\n", "#region r\n", "#endregion\n", "#import <a.h>\n", "#define S \"unterminated\n", "#unknown d\n", "#if 1\n" };

// text that is markup, or looks like it, when it is not escaped, or escaped twice
static const std::vector<std::string> XMLISH = { "<&>", "<&>", "&amp;", "&lt;", "&gt;", "&#65;", "&#x0;", "]]>", "<![CDATA[x]]>", "<!-- -->", "<unit>", "</unit>", "<?x y?>", "&nosuch;", "&", "<a b=\"c\"/>" };

std::string stringLit(Ctx& c) {
    std::string s = c.pick({ "", "", "", "L", "u8" });
    s += '"';
    int n = c.size(12);
    for (int i = 0; i < n; ++i) {
        switch (c.draw(10)) {
        case 0: s += "\\\""; break;
        case 1: s += "\\\\"; break;
        case 2: s += "//"; break;
        case 3: s += "/*"; break;
        case 4: s += "'"; break;
        case 5: { std::string x = c.pick(XMLISH); for (char ch : x) if (ch != '"') s += ch; break; }
        case 6: s += "\\n"; break;
        default: s += word(c); break;
        }
    }
    return s + '"';
}

std::string comment(Ctx& c, bool multiline) {
    int n = c.size(10);
    std::string body;
    for (int i = 0; i < n; ++i) {
        switch (c.draw(9)) {
        case 0: body += " * "; break;
        case 1: body += c.pick(XMLISH); break;
        case 2: body += "\""; break;
        case 3: body += "'"; break;
        case 4: body += " //"; break;
        case 5: body += " "; break;
        case 6: body += "{ ; }"; break;
        default: body += word(c); break;
        }
    }
    if (multiline && c.boolean()) {
        // block comment: the body must not end it early
        std::string r = c.pick({ "/*", "/*", "/**", "/*!" });
        r += ' ';
        for (char ch : body) if (ch != '/') r += ch;
        if (c.chance(1, 3)) r += "\n more";
        return r + " */";
    }
    return std::string(c.pick({ "//", "//", "///", "//!" })) + " " + body + "\n";
}

std::string space(Ctx& c) {
    switch (c.draw(12)) {
    case 0: case 1: case 2: case 3: case 4: return " ";
    case 5: case 6: return "";
    case 7: return "\n";
    case 8: return "\t";
    case 9: return "  \n\t";
    case 10: return comment(c);
    default: return "\n\n";
    }
}

std::string token(Ctx& c, const std::string& lang) {
    switch (c.draw(20)) {
    case 0: case 1: case 2: case 3: return word(c);
    case 4: case 5: return c.pick(COMMON);
    case 6: case 7: case 8: return c.pick(KW.at(lang));
    case 9: case 10: case 11: case 12: case 13: return c.pick(OPS);
    case 14: return c.pick(LITS);
    case 15: return stringLit(c);
    case 16: return comment(c);
    case 17: return "\n" + c.pick(PP);
    case 18: return c.pick({ "(", ")", "{", "}", ";", ";\n", "<", ">" });
    default: return c.chance(1, 4) ? text(c, 4) : word(c);
    }
}

static uint32_t codepoint(Ctx& c, bool controls) {
    switch (c.draw(14)) {
    case 0: case 1: case 2: case 3: return 'a' + (uint32_t) c.draw(26);
    case 4: return ' ';
    case 5: return '\n';
    case 6: return 33 + (uint32_t) c.draw(94);
    case 7: { static const char* sp = "<>&\"'\\/*#]"; return sp[c.draw(10)]; }
    case 8: return 0xA0 + (uint32_t) c.draw(0x500);
    case 9: return 0x3040 + (uint32_t) c.draw(0x4000);
    case 10: return 0x1F300 + (uint32_t) c.draw(0x300);
    case 11: { static const uint32_t b[] = { 0x7F, 0x80, 0x85, 0xFF, 0x7FF, 0x800, 0x2028, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0x10000, 0x10FFFF, '\t' }; return b[c.draw(14)]; }
    case 12: if (controls) { uint32_t v = 1 + (uint32_t) c.draw(31); return v == '\r' ? 1 : v; } return '_';
    default: return '0' + (uint32_t) c.draw(10);
    }
}

std::string text(Ctx& c, int maxlen) {
    std::string s; int n = c.size(maxlen);
    bool controls = c.chance(1, 2);
    for (int i = 0; i < n; ++i) s += utf8(codepoint(c, controls));
    return s;
}

std::string plainText(Ctx& c, int maxlen) {
    std::string s; int n = c.size(maxlen);
    for (int i = 0; i < n; ++i) s += utf8(codepoint(c, false));
    return s;
}

std::string attrValue(Ctx& c, int maxlen) {
    std::string s; int n = c.size(maxlen);
    for (int i = 0; i < n; ++i) {
        switch (c.draw(8)) {
        case 0: case 1: case 2: s += (char)('a' + c.draw(26)); break;
        case 3: s += c.pick({ "&", "<", ">", "\"", "'", "&amp;", "&#65;", "]]>", "=", "/", " url=", " x=\"", "--" }); break;
        case 4: s += utf8(0xA1 + (uint32_t) c.draw(0x300)); break;
        case 5: s += c.pick({ " ", ".", "-", "_", ":", "/", "\\" }); break;
        case 6: s += utf8(0x4E00 + (uint32_t) c.draw(0x1000)); break;
        default: s += (char)('0' + c.draw(10)); break;
        }
    }
    return s;
}

std::string tokens(Ctx& c, const std::string& lang, int n) {
    std::string s;
    for (int i = 0; i < n; ++i) { s += token(c, lang); s += space(c); }
    return s;
}

// ---------------------------------------------------------------- program
static std::string expr(Ctx& c, const std::string& l, int d);
static std::string type(Ctx& c, const std::string& l) {
    std::string t = c.pick({ "int", "char", "T", "double", "foo", "unsigned int", "long" });
    if (l == "Java" || l == "C#") { t = c.pick({ "int", "String", "T", "double", "List<String>", "int[]", "Map<A,B>" }); return t; }
    if (l == "C++") t = c.pick({ "int", "char", "T", "std::string", "std::vector<int>", "auto", "const foo", "unsigned long" });
    if (c.chance(1, 4)) t += c.pick({ "*", " *", "**" });
    if (l == "C++" && c.chance(1, 5)) t += "&";
    return t;
}
static std::string expr(Ctx& c, const std::string& l, int d) {
    if (d <= 0 || c.chance(1, 3)) {
        if (c.chance(1, 2)) return word(c);
        if (c.chance(1, 4)) return stringLit(c);
        std::string s = c.pick(LITS);
        if (l != "C++" && (s == "1'000" || s.compare(0, 2, "R\"") == 0)) s = "\"raw\"";       // elsewhere not one literal
        return s;
    }
    switch (c.draw(12)) {
    case 0: case 1: case 2: return expr(c, l, d - 1) + c.pick({ " + ", "-", " * ", " == ", " < ", " && ", "||", " = ", " += ", ".", ">>", ", " }) + expr(c, l, d - 1);
    case 3: return word(c) + "(" + expr(c, l, d - 1) + ")";
    case 4: return word(c) + "[" + expr(c, l, d - 1) + "]";
    case 5: return "(" + expr(c, l, d - 1) + ")";
    case 6: return std::string(c.pick({ "!", "-", "++", "~", "*", "&" })) + expr(c, l, d - 1);
    case 7: return expr(c, l, d - 1) + " ? " + expr(c, l, d - 1) + " : " + expr(c, l, d - 1);
    case 8: return l == "C" ? "sizeof(" + type(c, l) + ")" : "new " + type(c, l) + "(" + expr(c, l, d - 1) + ")";
    case 9: return l == "C++" ? "[" + std::string(c.pick({ "", "&", "=", "a, &b" })) + "](int x) { return " + expr(c, l, d - 1) + "; }" : l == "Java" ? "(x) -> " + expr(c, l, d - 1) : l == "C#" ? "x => " + expr(c, l, d - 1) : l == "Objective-C" ? "[" + word(c) + " " + word(c) + ":" + expr(c, l, d - 1) + "]" : word(c) + "()";
    case 10: return "(" + type(c, l) + ")" + expr(c, l, d - 1);
    default: return word(c) + (l == "C++" && c.boolean() ? "->" : ".") + word(c);
    }
}
static std::string ind(int n) { return std::string(n * 2, ' '); }
static std::string stmt(Ctx& c, const std::string& l, int d, int in);
static std::string block(Ctx& c, const std::string& l, int d, int in) {
    std::string s = "{\n"; int n = (int) c.draw(4);
    for (int i = 0; i < n; ++i) s += stmt(c, l, d - 1, in + 1);
    return s + ind(in) + "}";
}
static std::string body(Ctx& c, const std::string& l, int d, int in) {
    if (d <= 0 || c.chance(1, 3)) return "\n" + ind(in + 1) + word(c) + "();";
    return " " + block(c, l, d, in);
}
static std::string stmt(Ctx& c, const std::string& l, int d, int in) {
    std::string s = ind(in);
    if (d <= 0) return s + expr(c, l, 2) + ";\n";
    switch (c.draw(18)) {
    case 0: case 1: s += expr(c, l, 3) + ";"; break;
    case 2: case 3: s += type(c, l) + " " + word(c) + (c.boolean() ? " = " + expr(c, l, 2) : "") + ";"; break;
    case 4: s += "if (" + expr(c, l, 2) + ")" + body(c, l, d, in) + (c.boolean() ? "\n" + ind(in) + "else" + body(c, l, d, in) : ""); break;
    case 5: s += "if (" + expr(c, l, 1) + ")" + body(c, l, d, in) + "\n" + ind(in) + "else if (" + expr(c, l, 1) + ")" + body(c, l, d, in) + "\n" + ind(in) + "else" + body(c, l, d, in); break;
    case 6: s += "while (" + expr(c, l, 2) + ")" + body(c, l, d, in); break;
    case 7: s += "for (" + (c.boolean() ? type(c, l) + " i = 0" : std::string(c.pick({ "", "i = 0" }))) + "; " + (c.boolean() ? expr(c, l, 2) : "") + "; " + (c.boolean() ? "++i" : "") + ")" + body(c, l, d, in); break;
    case 8: s += "do " + block(c, l, d, in) + " while (" + expr(c, l, 2) + ");"; break;
    case 9: s += "switch (" + expr(c, l, 1) + ") {\n" + ind(in) + "case " + expr(c, l, 0) + ":\n" + stmt(c, l, d - 1, in + 1) + ind(in + 1) + "break;\n" + ind(in) + "default:\n" + stmt(c, l, d - 1, in + 1) + ind(in) + "}"; break;
    case 10: s += "return " + (c.boolean() ? expr(c, l, 2) : "") + ";"; break;
    case 11: s += block(c, l, d, in); break;
    case 12: s += comment(c); if (s.back() == '\n') s.pop_back(); break;
    case 13: s += l == "C" ? "goto out;" : "try " + block(c, l, d, in) + " catch (" + (l == "C++" && c.boolean() ? "..." : "E e") + ") " + block(c, l, d, in) + ((l == "Java" || l == "C#") && c.boolean() ? " finally " + block(c, l, d, in) : ""); break;
    case 14: s += std::string(c.pick({ "break;", "continue;", ";", "label:" })); break;
    case 15: if (l == "Java") s += "for (String s : list)" + body(c, l, d, in); else if (l == "C#") s += "foreach (var v in list)" + body(c, l, d, in); else if (l == "C++") s += "for (auto& e : v)" + body(c, l, d, in); else s += "x++;"; break;
    case 16: if (l == "C++" || l == "C") { s = "\n" + c.pick(PP); return s; } s += word(c) + "." + word(c) + "();"; break;
    default: s += l == "C#" ? "using (" + expr(c, l, 1) + ")" + body(c, l, d, in) : l == "Java" ? "synchronized (this) " + block(c, l, d, in) : word(c) + "(" + expr(c, l, 1) + ");"; break;
    }
    return s + "\n";
}
static std::string params(Ctx& c, const std::string& l) {
    std::string s = "("; int n = (int) c.draw(4);
    for (int i = 0; i < n; ++i) s += (i ? ", " : "") + type(c, l) + " " + word(c) + (l == "C++" && c.chance(1, 5) ? " = " + expr(c, l, 0) : "");
    return s + ")";
}
static std::string func(Ctx& c, const std::string& l, int d, int in) {
    std::string s = ind(in);
    if (l == "Java" || l == "C#") s += c.pick({ "public ", "private static ", "", "protected " });
    if (l == "C++" && c.chance(1, 5)) s += "template <typename T>\n" + ind(in);
    s += (c.boolean() ? "void" : type(c, l)) + " " + word(c) + params(c, l);
    if (l == "C++" && in && c.chance(1, 4)) s += " const";
    if (l == "Java" && c.chance(1, 5)) s += " throws E";
    if (c.chance(1, 5)) return s + ";\n";
    return s + " " + block(c, l, d, in) + "\n";
}
static std::string cls(Ctx& c, const std::string& l, int d, int in) {
    std::string s = ind(in), n = word(c);
    if (l == "Java" || l == "C#") s += c.pick({ "public ", "", "abstract " });
    s += (l == "C" ? "struct " : c.chance(1, 5) && l != "Java" ? "struct " : "class ") + n;
    if (l != "C" && c.chance(1, 3)) s += l == "Java" ? " extends B implements I" : l == "C++" ? " : public B" : " : B";
    s += " {\n";
    int k = (int) c.draw(5);
    for (int i = 0; i < k; ++i) {
        if (l == "C++" && c.chance(1, 4)) s += ind(in) + c.pick({ "public:\n", "private:\n", "protected:\n" });
        switch (c.draw(5)) {
        case 0: case 1: s += ind(in + 1) + type(c, l) + " " + word(c) + ";\n"; break;
        case 2: s += l == "C" ? ind(in + 1) + "int f : 3;\n" : func(c, l, d - 1, in + 1); break;
        case 3: s += l == "C" ? "" : ind(in + 1) + n + params(c, l) + " " + block(c, l, d - 1, in + 1) + "\n"; break;
        default: s += ind(in + 1) + comment(c) + "\n"; if (d > 1 && l != "C") s += cls(c, l, d - 1, in + 1); break;
        }
    }
    return s + ind(in) + "}" + (l == "Java" || l == "C#" ? "" : ";") + "\n";
}
std::string program(Ctx& c, const std::string& l, int d) {
    std::string s; int n = 1 + (int) c.draw(4);
    for (int i = 0; i < n; ++i) {
        switch (c.draw(8)) {
        case 0: case 1: case 2: s += func(c, l, d, 0); break;
        case 3: case 4: s += l == "Objective-C" ? "@interface A : B\n- (void) " + word(c) + ":(int)x;\n@end\n" : cls(c, l, d, 0); break;
        case 5: s += type(c, l) + " " + word(c) + " = " + expr(c, l, 2) + ";\n"; break;
        case 6: s += comment(c) + "\n"; break;
        default:
            if (l == "C++" ) s += c.boolean() ? "namespace " + word(c) + " {\n" + func(c, l, d - 1, 1) + "}\n" : "using namespace std;\n";
            else if (l == "Java") s += "import java.util.*;\n";
            else if (l == "C#") s += "using System;\n";
            else s += c.pick(PP);
        }
    }
    return s;
}

static const std::vector<std::string>& corp(const std::string& lang) {
    static std::map<std::string, std::vector<std::string>> m;
    auto it = m.find(lang);
    if (it != m.end()) return it->second;
    std::string n = lang == "C++" ? "cpp" : lang == "C" ? "c" : lang == "Java" ? "java" : lang == "C#" ? "cs" : "m";
    const char* r = getenv("VERIF_ROOT");
    std::ifstream in(std::string(r ? r : VERIF_ROOT_DIR) + "/corpus/" + n + ".txt", std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(in)), {});
    std::vector<std::string>& v = m[lang];
    size_t p = 0;
    while (true) { size_t e = s.find('\x1e', p); v.push_back(s.substr(p, e == std::string::npos ? e : e - p)); if (e == std::string::npos) break; p = e + 1; }
    if (v.size() < 5) { fprintf(stderr, "corpus of %s is missing\n", lang.c_str()); _Exit(3); }
    return v;
}

std::string corpus(Ctx& c, const std::string& lang) { return c.pick(corp(lang)); }

std::string mutate(Ctx& c, std::string s, const std::string& lang) {
    int n = 1 + (int) c.draw(4);
    for (int i = 0; i < n; ++i) {
        size_t p = c.draw(s.size() + 1), q = std::min(s.size(), p + c.draw(12));
        // keep to character boundaries
        while (p > 0 && p < s.size() && (s[p] & 0xC0) == 0x80) --p;
        while (q < s.size() && (s[q] & 0xC0) == 0x80) ++q;
        if (q < p) q = p;
        switch (c.draw(6)) {
        case 0: s.erase(p, q - p); break;
        case 1: s.insert(p, s.substr(p, q - p)); break;
        case 2: s.insert(p, token(c, lang)); break;
        case 3: s.insert(p, corpus(c, lang)); break;
        case 4: s.resize(p); break;
        default: s.replace(p, q - p, token(c, lang)); break;
        }
    }
    return s;
}

std::string source(Ctx& c, const std::string& lang, int scale) {
    std::string s;
    int k = (int) c.draw(12);
    if (k < 2) { c.label("src:tokens"); s = tokens(c, lang, 1 + c.size(30 * scale)); }
    else if (k < 5) { c.label("src:program"); s = program(c, lang, 2 + (int) c.draw(2)); }
    else if (k < 7) { c.label("src:corpus"); int n = 1 + (int) c.draw(4); for (int i = 0; i < n; ++i) s += corpus(c, lang) + "\n"; }
    else if (k < 9) { c.label("src:mutated corpus"); s = mutate(c, corpus(c, lang), lang); }
    else if (k < 10) { c.label("src:mutated program"); s = mutate(c, program(c, lang, 2), lang); }
    else if (k < 11) { c.label("src:text"); s = text(c, 60 * scale); }
    else { c.label("src:mix"); s = program(c, lang, 1) + tokens(c, lang, c.size(10)) + text(c, 10) + corpus(c, lang); }
    std::string r;
    for (char ch : s) { if (ch == '\r' || ch == 0) ch = ' '; r += ch; }
    r = xmlSafe(r);
    while (r.compare(0, 3, "\xef\xbb\xbf") == 0) r.erase(0, 3);     // a leading byte order mark is removed by design
    return r;
}

bool validUtf8(const std::string& s) {
    for (size_t i = 0; i < s.size(); ) {
        unsigned char b = s[i]; int n = b < 0x80 ? 0 : (b >> 5) == 6 ? 1 : (b >> 4) == 14 ? 2 : (b >> 3) == 30 ? 3 : -1;
        if (n < 0) return false;
        uint32_t cp = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
        for (int k = 1; k <= n; ++k) { if (i + k >= s.size() || ((unsigned char) s[i + k] & 0xC0) != 0x80) return false; cp = cp << 6 | ((unsigned char) s[i + k] & 63); }
        if ((n == 1 && cp < 0x80) || (n == 2 && cp < 0x800) || (n == 3 && cp < 0x10000) || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) return false;
        i += n + 1;
    }
    return true;
}

std::string xmlSafe(const std::string& s) {
    std::string r; size_t p = 0;
    while (p < s.size()) {
        if (p + 2 < s.size() && (unsigned char) s[p] == 0xEF && (unsigned char) s[p + 1] == 0xBF && (unsigned char) s[p + 2] >= 0xBE) { r += "?"; p += 3; }
        else r += s[p++];
    }
    return r;
}

} // namespace gen
