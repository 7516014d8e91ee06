// Source -> srcML -> source round trip, for any text in any language under any markup options.
#include "api.hpp"
using namespace pbt; using namespace api;

static void roundtrip(Ctx& c, const std::string& src, const std::string& lang, const Opts& o, bool solitary) {
    std::string doc = document(src, lang, o, solitary);
    c.check(!doc.empty(), "parse-failed", "source could not be translated");
    std::string back; int st = -1;
    bool ok = unparse(doc, back, 0, &st);
    c.check(ok, "unparse-failed", "status " + std::to_string(st));
    c.eq(back, src, "roundtrip", "source from srcML differs");
    c.nontrivial(doc.find("</expr>") != std::string::npos || doc.find("<comment") != std::string::npos || doc.find("<escape") != std::string::npos);
    if (doc.find("<escape") != std::string::npos) c.label("has escape");
    if (src.size() > 1024) c.label("over 1024 bytes");
    c.evals();
}

static void prop(Ctx& c) {
    std::string lang = gen::language(c);
    Opts o;
    if (c.boolean()) o.options |= SRCML_OPTION_POSITION;
    if (c.boolean()) o.options |= SRCML_OPTION_CPP;
    if (c.boolean()) o.options |= SRCML_OPTION_CPP_TEXT_ELSE;
    if (c.boolean()) o.options |= SRCML_OPTION_CPP_MARKUP_IF0;
    o.src_encoding = "UTF-8";
    bool solitary = c.boolean();
    std::string src = gen::source(c, lang, 2);
    // sometimes larger than the internal buffers (1024 and 4096 characters)
    if (c.chance(1, 8)) { int n = 1 + c.range(0, 3); for (int i = 0; i < n; ++i) src += "\n" + gen::program(c, lang, 3); }
    c.note("lang " + lang + " options " + std::to_string(o.options) + " solitary " + std::to_string(solitary));
    c.note(src);
    roundtrip(c, src, lang, o, solitary);
}

static Directed regression(const char* name, const char* lang, const char* src) {
    std::string l = lang, s = src;
    return { name, std::string(lang) + ": " + src, [l, s](Ctx& c) {
        Opts o; o.src_encoding = "UTF-8";
        roundtrip(c, s, l, o, true); roundtrip(c, s, l, o, false);
        o.options = SRCML_OPTION_POSITION; roundtrip(c, s, l, o, true);
    } };
}

int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C01"; k.prop = prop; k.quick_cases = 50000; k.thorough_cases = 150000; k.cpu_limit = 10;
    k.rule = "source text is drawn in one of the five languages from token soup, generated programs, test-suite snippets, their mutations, and arbitrary valid UTF-8 text with control characters; "
             "it is parsed with random markup options (position, cpp, text else, markup if 0) into a solitary or archive document, the document is read back and the unit is unparsed; "
             "the bytes must be those of the source. Non-trivial: the srcML has at least one expression, comment or escape element";
    k.directed = {
        regression("condition-at-end", "C++", "#if a["),
        regression("condition-at-end-of-line", "C++", "#if a[\nx\n#elif [ // c\ny"),
        regression("del-character", "C++", "a\177b;\n"),
        regression("pause-overlap", "C++", "default ) ~ "),
        regression("pause-overlap-2", "C++", "x ) ~ y"),
        regression("java-enum-expression", "Java", "enum ifa {( b }"),
        regression("csharp-index-struct", "C#", "x[ struct a a a a a a"),
        regression("objc-index-enum", "Objective-C", "x[ enum a a a"),
    };
    return run(k, argc, argv);
}
