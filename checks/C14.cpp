// Languages: the language of a unit is that of the unit, else of the archive, else the one registered last for the extension.
#include "spec.hpp"
#include <optional>
#include <unistd.h>
using namespace pbt; using namespace api; using spec::opt;

typedef std::vector<std::pair<std::string, std::string>> Reg;
static Reg usual() { return { { "c", "C" }, { "h", "C" }, { "i", "C" }, { "cpp", "C++" }, { "CPP", "C++" }, { "cp", "C++" }, { "hpp", "C++" }, { "cxx", "C++" }, { "hxx", "C++" }, { "cc", "C++" }, { "hh", "C++" }, { "c++", "C++" }, { "h++", "C++" }, { "C", "C++" }, { "H", "C++" }, { "tcc", "C++" }, { "ii", "C++" }, { "java", "Java" }, { "aj", "Java" }, { "cs", "C#" } }; }
static std::string languageOf(const Reg& r, std::string path) {
    if (path.size() > 3 && path.substr(path.size() - 3) == ".gz") path.resize(path.size() - 3);
    size_t p = path.rfind('.'); if (p == std::string::npos) return "(null)";
    std::string e = path.substr(p + 1), l = "(null)"; for (auto& x : r) if (x.first == e) l = x.second;
    return l;
}
static std::string extension(Ctx& c, const Reg& r) {
    switch (c.range(0, 5)) { case 0: case 1: case 2: return r[c.draw(r.size())].first; case 3: return c.pick({ "m", "txt", "Cpp", "JAVA", "", "gz", "x", "c ", "cp p", "cppp", "hp", "\xC3\xA9" }); default: return gen::word(c).substr(0, 6); }
}
static std::string language(Ctx& c, bool* known = nullptr) {
    if (c.chance(1, 5)) { if (known) *known = false; return c.pick({ "", "c", "CPP", "C+", "C++ ", "java", "Python", "xml", "Objective", "C\xC3\xA9" }); }
    if (known) *known = true;
    return gen::language(c);
}
static std::string path(Ctx& c, const Reg& r, bool file = false) {
    std::string p = file ? "" : c.pick({ "", "", "dir/", "/a.b/", "a.java/", "./", "../" });
    p += c.pick({ "a", "b.c", "a.b", "", "f-1", "a.tar", "\xC3\xA9", "x y" });
    if (file && p.empty()) p = "f";
    int k = c.range(0, 8); if (k) p += "." + extension(c, r); if (k == 8) p += "." + extension(c, r);
    if (c.chance(1, 6)) p += c.pick({ ".gz", ".GZ", "gz", ".gz.gz" });
    return p;
}
struct A { srcml_archive* a; Reg r; opt language; };

static void prop(Ctx& c) {
    std::string d;
    if (c.chance(1, 8)) { isolated(c, [&] {
        Reg r = usual();
        for (int k = c.range(1, 12); k > 0; --k) {
            bool known; std::string e = extension(c, r), l = language(c, &known); d += "register " + e + " " + l + "\n";
            c.check(srcml_register_file_extension(e.c_str(), l.c_str()) == (known ? 0 : SRCML_STATUS_INVALID_INPUT), "status", d); if (known) r.push_back({ e, l });
            if (c.chance(1, 4)) c.check(srcml_register_file_extension(nullptr, "C") == SRCML_STATUS_INVALID_ARGUMENT && srcml_register_file_extension("c", nullptr) == SRCML_STATUS_INVALID_ARGUMENT, "status", d);
            for (int j = 0; j < 3; ++j) { std::string p = path(c, r); c.eq(str(srcml_check_extension(p.c_str())), languageOf(r, p), "language of " + p, d); c.evals(); }
        }
        srcml_archive* a = srcml_archive_create(); std::string p = path(c, r); c.eq(str(srcml_archive_check_extension(a, p.c_str())), languageOf(usual(), p), "language in a new archive of " + p, d); srcml_archive_free(a);
        c.check(!srcml_check_extension(nullptr), "null"); c.note("library\n" + d); c.label("library"); c.nontrivial(r.size() > 20);
    }); return; }
    // supported languages
    c.check(srcml_get_language_list_size() == gen::LANGS.size(), "number of languages");
    for (size_t i = 0; i < srcml_get_language_list_size(); ++i) { std::string l = str(srcml_get_language_list(i)); c.check(std::find(gen::LANGS.begin(), gen::LANGS.end(), l) != gen::LANGS.end(), "language in the list", l); c.check(srcml_check_language(l.c_str()) != 0, "language of the list is supported", l); }
    c.check(!srcml_get_language_list(gen::LANGS.size()), "language beyond the end");
    { bool known; std::string l = language(c, &known); c.check((srcml_check_language(l.c_str()) != 0) == known, "supported language", l); }

    spec::Scratch dir;
    std::vector<A> as = { { srcml_archive_create(), usual(), {} } };
    int parsed = 0;
    for (int k = c.range(1, 12); k > 0; --k) {
        size_t i = c.draw(as.size()); std::string n = "archive " + std::to_string(i) + ": "; A& x = as[i];
        switch (c.range(0, 6)) {
        case 0: if (as.size() < 3) { A y = x; y.a = srcml_archive_clone(x.a); as.push_back(y); d += n + "clone\n"; } break;
        case 1: x.language = c.chance(1, 3) ? opt() : opt(gen::language(c)); srcml_archive_set_language(x.a, x.language ? x.language->c_str() : nullptr); d += n + "language " + x.language.value_or("(none)") + "\n"; break;
        case 2: case 3: {
            bool known; std::string e = extension(c, x.r), l = language(c, &known); d += n + "register " + e + " " + l + "\n";
            c.check(srcml_archive_register_file_extension(x.a, e.c_str(), l.c_str()) == (known ? 0 : SRCML_STATUS_INVALID_INPUT), "status", d); if (known) x.r.push_back({ e, l });
            c.check(srcml_archive_register_file_extension(x.a, nullptr, "C") == SRCML_STATUS_INVALID_ARGUMENT && srcml_archive_register_file_extension(x.a, "c", nullptr) == SRCML_STATUS_INVALID_ARGUMENT && srcml_archive_register_file_extension(nullptr, "c", "C") == SRCML_STATUS_INVALID_ARGUMENT, "status", d);
            break; }
        default: {       // a unit
            opt ul; if (c.chance(1, 4)) ul = gen::language(c);
            std::string file = path(c, x.r, true), l = ul ? *ul : x.language ? *x.language : "(null)"; bool named = c.chance(3, 4); int how = c.range(0, 3);
            if (l == "(null)" && named) l = languageOf(x.r, file);
            std::string src = gen::source(c, l == "(null)" ? "C++" : l); opt fn; if (c.boolean()) { fn = path(c, x.r); if (fn->empty()) fn = "f"; }      // the filename of the unit says nothing about its language
            d += n + "parse " + (named ? file : std::string("memory")) + " language " + ul.value_or("-") + " filename " + fn.value_or("-") + " " + quote(src) + "\n";
            writeFile(dir.path(file), src);
            srcml_unit* u = srcml_unit_create(x.a); if (ul) srcml_unit_set_language(u, ul->c_str()); if (fn) srcml_unit_set_filename(u, fn->c_str());
            int st; if (named) st = srcml_unit_parse_filename(u, dir.path(file).c_str());
            else if (how == 1) { FILE* f = fopen(dir.path(file).c_str(), "r"); st = srcml_unit_parse_FILE(u, f); fclose(f); } else st = srcml_unit_parse_memory(u, src.data(), src.size());
            c.check(st == (l == "(null)" ? SRCML_STATUS_UNSET_LANGUAGE : 0), "status of parsing", std::to_string(st) + "\n" + d);
            c.eq(str(srcml_unit_get_language(u)), ul.value_or("(null)"), "language set on the unit", d);
            if (st == 0) {
                ++parsed; Opts o; if (fn) o.filename = *fn; Parsed w = parse(src, l, o);
                c.eq(canonDoc(str(srcml_unit_get_srcml(u))), canonDoc(w.srcml), "srcML of the unit, language " + l, d);
                srcml_archive* z = srcml_archive_clone(x.a); char* b = nullptr; size_t m = 0; srcml_archive_enable_solitary_unit(z); srcml_archive_write_open_memory(z, &b, &m); c.check(srcml_archive_write_unit(z, u) == 0, "write"); srcml_archive_close(z); srcml_archive_free(z);
                Doc t(std::string(b, m)); srcml_memory_free(b); c.check(t.ok(), "document"); c.eq(attr(t.root(), "language"), l, "language in the document", d);
                if (named && !ul && !x.language) c.label("language of the extension"); else c.label("language set");
            } else c.label("no language");
            c.evals(); srcml_unit_free(u); unlink(dir.path(file).c_str());
        } }
        for (auto& y : as) { std::string p = path(c, y.r); c.eq(str(srcml_archive_check_extension(y.a, p.c_str())), languageOf(y.r, p), "language of " + p, d); c.check(!srcml_archive_check_extension(y.a, nullptr) && !srcml_archive_check_extension(nullptr, "a.c"), "null"); c.evals(); }
    }
    c.note(d); c.nontrivial(parsed > 0 || as[0].r.size() > 20);
    for (auto& y : as) srcml_archive_free(y.a);
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C14"; k.prop = prop; k.quick_cases = 30000; k.thorough_cases = 300000;
    k.rule = "sequences of registrations of extensions, archive languages, clones, and units parsed from files with generated names, FILEs, or memory, on up to three archives or the library; the language of paths, the status, and the srcML are compared with a list in which the last registration wins. Non-trivial: a unit was parsed or an extension registered";
    return run(k, argc, argv);
}
