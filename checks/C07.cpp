// Hash and lines of code are those of the exact bytes of the source, on every path.
#include "spec.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace pbt; using namespace api;

struct IO { std::string d; size_t pos, chunk; };
static ssize_t rd(void* p, void* b, size_t n) { auto o = (IO*) p; size_t m = std::min({ n, o->d.size() - o->pos, o->chunk }); memcpy(b, o->d.data() + o->pos, m); o->pos += m; return (ssize_t) m; }

static void prop(Ctx& c) {
    struct Src { std::string lang, bytes, text, given; };
    std::vector<Src> srcs; int n = c.range(1, 4);
    std::string note;
    for (int i = 0; i < n; ++i) {
        Src s; s.lang = gen::language(c);
        std::string t = gen::source(c, s.lang, 1);
        if (c.chance(1, 3)) { int want = c.range(0, 5) * c.pick(std::vector<int>{ 55, 56, 64, 128, 1024, 4096 }) + c.range(-2, 2); std::string f = c.pick({ "int a;\n", "x\n\n", "é = 1;", "漢" }); while ((int) t.size() < want) t += f; }
        if (c.chance(1, 12)) t = c.pick({ "", "\n", "a", "\n\n" });
        int eol = (int) c.draw(4);
        if (eol) { std::string e; for (char ch : t) { if (ch == '\n') e += eol == 1 ? "\r\n" : eol == 2 ? "\r" : (c.boolean() ? "\n\r" : "\r\n"); else e += ch; } t = e; }
        std::string enc = c.pick({ "UTF-8", "UTF-8", "UTF-8-BOM", "ISO-8859-1", "UTF-16", "UTF-32LE" });
        s.text = lf(t); s.bytes = t; s.given = "UTF-8";
        if (enc == "UTF-8-BOM") { s.bytes = "\xef\xbb\xbf" + t; if (c.boolean()) s.given = ""; }
        else if (enc != "UTF-8" && conv(enc.c_str(), "UTF-8", t, s.bytes)) s.given = enc; else s.bytes = t;
        srcs.push_back(s);
        note += "unit " + s.lang + " given=" + s.given + " " + std::to_string(s.bytes.size()) + " bytes " + quote(s.bytes, 3000) + "\n";
    }
    bool hash = !c.chance(1, 5), reuse = c.chance(1, 3), solitary = n == 1 && c.boolean();
    int channel = (int) c.draw(4); size_t chunk = c.range(1, 700);
    c.note(std::string(hash ? "hash" : "no hash") + (reuse ? " reuse" : "") + " channel " + std::to_string(channel) + " chunk " + std::to_string(chunk) + "\n" + note);
    srcml_archive* a = srcml_archive_create();
    if (hash) srcml_archive_enable_hash(a); else srcml_archive_disable_hash(a);
    c.eq(std::to_string(srcml_archive_has_hash(a)), hash ? "1" : "0", "has-hash");
    if (solitary) srcml_archive_enable_solitary_unit(a); else srcml_archive_disable_solitary_unit(a);
    char* buf = nullptr; size_t size = 0;
    c.check(srcml_archive_write_open_memory(a, &buf, &size) == 0, "open");
    srcml_unit* u = nullptr;
    spec::Scratch tmp;
    for (auto& s : srcs) {
        if (!u || !reuse) { if (u) srcml_unit_free(u); u = srcml_unit_create(a); }
        srcml_unit_set_language(u, s.lang.c_str());
        srcml_unit_set_src_encoding(u, s.given.empty() ? nullptr : s.given.c_str());
        int st = -1;
        if (channel == 0) st = srcml_unit_parse_memory(u, s.bytes.data(), s.bytes.size());
        if (channel == 1) { IO io{ s.bytes, 0, chunk }; st = srcml_unit_parse_io(u, &io, rd, nullptr); }
        if (channel >= 2) { std::string f = tmp.path("a.src"); writeFile(f, s.bytes); if (channel == 2) st = srcml_unit_parse_filename(u, f.c_str()); else { FILE* fp = fopen(f.c_str(), "rb"); st = srcml_unit_parse_FILE(u, fp); fclose(fp); } }
        c.check(st == 0, "parse", std::to_string(st));
        c.eq(str(srcml_unit_get_hash(u)), hash ? sha1(s.bytes) : "(null)", "hash");
        c.eq(std::to_string(srcml_unit_get_loc(u)), std::to_string(lineCount(s.text)), "loc");
        Doc d(str(srcml_unit_get_srcml(u)));
        c.check(d.ok(), "ill-formed");
        bool has; std::string v = attr(d.root(), "hash", &has);
        c.eq(has ? v : "(null)", hash ? sha1(s.bytes) : "(null)", "hash-attribute");
        c.check(srcml_archive_write_unit(a, u) == 0, "write");
        c.evals();
    }
    srcml_unit_free(u);
    srcml_archive_close(a); srcml_archive_free(a);
    std::string doc(buf, size); srcml_memory_free(buf);
    a = srcml_archive_create();
    c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "read-open");
    for (auto& s : srcs) {
        u = srcml_archive_read_unit(a);
        c.check(u != nullptr, "read");
        c.eq(str(srcml_unit_get_hash(u)), hash ? sha1(s.bytes) : "(null)", "hash-read");
        c.eq(std::to_string(srcml_unit_get_loc(u)), std::to_string(lineCount(s.text)), "loc-read");
        srcml_unit_free(u);
    }
    srcml_archive_close(a); srcml_archive_free(a);
    if (reuse && n > 1) c.label("one unit parsed again"); if (!hash) c.label("no hash");
    size_t total = 0; for (auto& s : srcs) total += s.bytes.size();
    if (total > 1024) c.label("several reads");
    c.nontrivial(total > 8);
}

int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C07"; k.prop = prop; k.quick_cases = 8000; k.thorough_cases = 200000;
    k.rule = "1-4 sources in several encodings, with byte-order marks and LF, CR, CRLF and mixed line ends, with sizes around the hash block and read sizes, are parsed by memory, file, FILE, or callbacks with any chunk size into new units or the same unit again, with the hash on or off, written and read back; "
             "the hash must be the SHA-1 (OpenSSL) of the exact bytes, or absent, and the lines of code those of the decoded text, after parsing and after reading. Non-trivial: more than 8 bytes of source";
    return run(k, argc, argv);
}
