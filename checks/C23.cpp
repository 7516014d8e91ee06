// build: asan
// Parsing ends, stays inside of its memory, and gives a document for any source at all.
#include "spec.hpp"
#include <unistd.h>
using namespace pbt; using namespace api; typedef std::string S;

// bytes of any kind
static S junk(Ctx& c, int n) {
    S r; while (n-- > 0) switch (c.range(0, 9)) {
        case 0: r += (char) c.draw(256); break;
        case 1: r += gen::utf8((uint32_t) c.draw(0x11000)); break;
        case 2: r += c.pick({ "\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\x80", "\xFF" }); break;
        default: r += (char) (32 + c.draw(95)); }
    return r;
}
static const std::vector<S> OPEN = { "(", "[", "{", "<", "f(", "a[", "if(", "while(", "for(", "{{", "((", "template<", "A<", "[](){", "[]{", "a?", "a?b:", "class A{", "struct{", "namespace A{", "switch(a){", "case 1:", "do ", "else ", "if(a)", "try{", "catch(", "=", ",", "!", "-", "*", "&", "~", "a.", "a->", "a::", "new A(", "(int)", "return ", "enum{", "public:", "@A(", "@selector(", "[a b:", "^{", "delegate{", "from a in ", "x=>", "x->", "#if A\n", "#define A ", "\"", "'", "/*", "R\"(", "@\"", "$\"{", "\\\n", "operator ", "typedef ", "extern \"C\"{", "__asm{", "asm(", "sizeof(", "decltype(", "alignas(", "throw ", "goto ", "requires ", "concept ", "static_assert(", "#pragma omp ", "synchronized(", "lock(", "using(", "where T:", "get{", "foreach(", "throws ", "import ", "using " };
static const std::vector<S> CLOSE = { ")", "]", "}", ">", ");", "};", "}}", "))", ":", ";", "#endif\n", "#else\n", "#elif B\n", "\"", "'", "*/", ")\"", "\n", " ", "a", "0", "int ", "a b ", "else", "while(a);", "catch(...){}", "const", "override", "= default;", "-> int", "noexcept", "...", "," };
static S nest(Ctx& c, int max) {
    S r; int n = c.size(max); S o = c.pick(OPEN), k = c.pick(CLOSE); bool same = c.boolean();
    for (int i = 0; i < n; ++i) r += same ? o : c.pick(OPEN);
    if (c.boolean()) for (int i = c.range(0, n + 2); i > 0; --i) r += same ? k : c.pick(CLOSE);
    return r;
}
static S mixed(Ctx& c, int n) { S r; while (n--) { switch (c.range(0, 3)) { case 0: r += c.pick(OPEN); break; case 1: r += c.pick(CLOSE); break; default: r += c.pick({ "a", "A", "int", "void", " ", " ", "\n", "1", "\"s\"", "auto", "class", "struct", "const", "static", "public", "return", "if", "else", "for", "while", "do", "switch", "case", "default", "template", "typename", "using", "operator", "new", "delete", "this", "try", "catch", "union", "enum", "friend", "virtual", "goto", "break", "~", "::", "->", ".", "*", "&", "&&", "=", "==", ":", "?", "#", "@", "$", "%", "\\", "/", "//", "...", "??", "=>", "-", "^", "|", "!", "_", "unsigned", "signed", "long", "extern", "inline", "explicit", "throw", "interface", "@interface", "@end", "@property", "@implementation", "package", "import", "event", "delegate", "yield", "ref", "out", "in", "is", "as", "where", "select", "from", "let", "join", "orderby", "group", "by", "into", "await", "async", "fixed", "unsafe", "checked", "__attribute__", "_Generic", "_Bool", "asm", "alignas", "decltype", "noexcept", "final", "override", "constexpr", "\t" }); } if (c.chance(1, 3)) r += ' '; } return r; }
static S cut(Ctx& c, S s) { if (s.empty()) return s; switch (c.range(0, 4)) { case 0: return s.substr(0, c.draw(s.size())); case 1: return s.substr(c.draw(s.size())); case 2: { size_t a = c.draw(s.size()), n = c.draw(8); return s.substr(0, a) + s.substr(std::min(s.size(), a + n)); } case 3: { size_t a = c.draw(s.size()); s.insert(a, c.boolean() ? c.pick(OPEN) : c.pick(CLOSE)); return s; } default: { size_t a = c.draw(s.size()), b = c.draw(s.size()); return s.substr(0, a) + s.substr(b); } } }

// known findings: these nested in themselves take time exponential in the depth
static bool deep(const S& s) {
    int generic = 0, op = 0; size_t word = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '<') ++generic; else if (s[i] == '>' && generic) --generic;
        if (s[i] == ';' || s[i] == '{' || s[i] == '}') generic = op = 0;
        if (isalnum((unsigned char) s[i]) || s[i] == '_') ++word; else word = 0;
        if (word == 8 && s.compare(i - 7, 8, "operator") == 0) ++op;
        if (generic > 9 || op > 9) return true;
    }
    return false;
}
static void ends(Ctx& c, const char* lang, const S& open, const S& close) {
    for (int n : { 4, 40 }) {
        S src; for (int i = 0; i < n; ++i) src += open; for (int i = 0; i < n; ++i) src += close;
        isolated(c, [&] { alarm(4); parse(src, lang); _exit(0); }); c.evals();
    }
}

static void prop(Ctx& c) {
    S lang = gen::language(c), src; const char* kind;
    switch (c.range(0, 9)) {
    case 0: kind = "bytes"; src = junk(c, c.size(200)); break;
    case 1: kind = "nesting"; src = nest(c, 60); break;
    case 2: kind = "tokens"; src = gen::tokens(c, lang, c.size(60)); break;
    case 3: case 4: kind = "pieces"; src = mixed(c, c.size(60)); break;
    case 5: kind = "cut corpus"; src = gen::corpus(c, gen::language(c)); for (int k = c.range(1, 4); k > 0; --k) src = cut(c, src); break;
    case 6: kind = "other language"; src = gen::source(c, gen::language(c)); break;
    case 7: kind = "cut program"; src = gen::program(c, lang, 3); for (int k = c.range(1, 3); k > 0; --k) src = cut(c, src); break;
    case 8: kind = "corpus with bytes"; src = gen::corpus(c, lang); for (int k = c.range(1, 4); k > 0 && !src.empty(); --k) src[c.draw(src.size())] = (char) c.draw(256); break;
    default: kind = "several"; src = gen::corpus(c, lang) + mixed(c, c.size(12)) + gen::corpus(c, lang); if (c.boolean()) src = cut(c, src); }
    if (deep(src)) { c.label("known to be slow"); c.discard(); }
    c.label(kind); c.note(lang + " " + kind + "\n" + src);
    srcml_archive* a = srcml_archive_create(); size_t o = 0;
    for (size_t b : { SRCML_OPTION_POSITION, SRCML_OPTION_CPP, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0 }) if (c.chance(1, 3)) o |= b;
    srcml_archive_set_options(a, o);
    if (c.chance(1, 6)) srcml_archive_register_namespace(a, "omp", OMP_NS);
    if (c.chance(1, 8)) srcml_archive_set_tabstop(a, c.range(1, 12));
    if (c.chance(1, 2)) srcml_archive_set_src_encoding(a, c.pick({ "UTF-8", "ISO-8859-1", "UTF-16", "UTF-8" }));
    char* b = nullptr; size_t n = 0; c.check(srcml_archive_write_open_memory(a, &b, &n) == 0, "open for output");
    srcml_unit* u = srcml_unit_create(a); c.check(srcml_unit_set_language(u, lang.c_str()) == 0, "language");
    // exactly as many bytes as given
    char* p = (char*) malloc(src.size() ? src.size() : 1); memcpy(p, src.data(), src.size());
    int st = srcml_unit_parse_memory(u, p, src.size()); free(p); c.evals();
    c.check(st == 0 || st == SRCML_STATUS_IO_ERROR || st == SRCML_STATUS_INVALID_INPUT, "status " + std::to_string(st));
    c.label(st ? "refused" : "parsed");
    S full = str(srcml_unit_get_srcml(u));
    bool hard = false; for (size_t i = 0; i < src.size(); ++i) hard = hard || (unsigned char) src[i] == 0 || (unsigned char) src[i] >= 0x80;      // NUL, U+FFFE, U+FFFF, and undecodable bytes cannot be in XML
    if (st == 0) {
        c.check(full.compare(0, 5, "<unit") == 0, "no srcML", full);
        if (!hard) { Doc t(full); c.check(t.ok(), "ill-formed", t.error + "\n" + full); }
        c.check(srcml_archive_write_unit(a, u) == 0, "write"); c.label("written");
    }
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); if (b) srcml_memory_free(b);
    c.nontrivial(src.size() > 3);
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C23"; k.prop = prop; k.quick_cases = 8000; k.thorough_cases = 1000000; k.cpu_limit = 20; k.wall_limit = 60;
    k.rule = "random bytes, deep nesting, token soup, pieces of constructs, cut and combined snippets of the corpus, programs in another language, under address and undefined-behavior sanitizers with limits on time; non-trivial: over 3 bytes";
    k.directed.push_back({ "nested-index", "Java, C#: a[a[a[... took time exponential in the depth", [](Ctx& c) { ends(c, "Java", "a[", "]"); ends(c, "C#", "a[", "]"); } });
    k.directed.push_back({ "nested-generic-arguments", "A<A<A<... takes time exponential in the depth", [](Ctx& c) { ends(c, "C++", "A<", ">"); } });
    k.directed.push_back({ "nested-operator-names", "C++: operator operator operator ... takes time exponential in the number", [](Ctx& c) { ends(c, "C++", "operator ", ""); } });
    for (const char* o : { "(", "f(", "{", "[](){", "a?b:", "if(a)", "class A{", "template<class A>", "new A(", "-" }) k.directed.push_back({ S("deep ") + o, S("C++: 300 times ") + o, [o](Ctx& c) { S src; for (int i = 0; i < 300; ++i) src += o; isolated(c, [&] { alarm(20); parse(src, "C++"); _exit(0); }); c.evals(); } });
    return run(k, argc, argv);
}
