// Line ends: CR, LF, and CRLF are one line end in srcML; extraction writes the line end asked for.
#include "spec.hpp"
using namespace pbt; using namespace api;

struct IO { std::string d; size_t pos, chunk; };
static ssize_t rd(void* p, void* b, size_t n) { auto o = (IO*) p; size_t m = std::min({ n, o->d.size() - o->pos, o->chunk }); memcpy(b, o->d.data() + o->pos, m); o->pos += m; return (ssize_t) m; }
struct Sink { std::string d; };
static int wr(void* p, const char* b, int n) { ((Sink*) p)->d.append(b, n); return n; }

// independent reading of the line ends: every maximal CR LF pair, single CR, and LF is a line end
static std::string norm(const std::string& s, std::string eol) {
    std::string r; size_t i = 0;
    while (i < s.size()) {
        if (s[i] == '\r') { r += eol; i += i + 1 < s.size() && s[i + 1] == '\n' ? 2 : 1; }
        else if (s[i] == '\n') { r += eol; ++i; }
        else r += s[i++];
    }
    return r;
}
static const char* EOL[] = { "\n", "\n", "\r", "\r\n" };

static void run1(Ctx& c, const std::string& lang, const std::string& src, const std::string& enc, int channel, size_t chunk, bool archive, int docEol) {
    std::string want = norm(src, "\n"), bytes;
    if (!conv(enc.c_str(), "UTF-8", src, bytes)) c.discard();
    srcml_archive* a = srcml_archive_create();
    if (archive) srcml_archive_disable_solitary_unit(a);
    char* buf = nullptr; size_t size = 0;
    c.check(srcml_archive_write_open_memory(a, &buf, &size) == 0, "open");
    srcml_unit* u = srcml_unit_create(a);
    srcml_unit_set_language(u, lang.c_str()); srcml_unit_set_src_encoding(u, enc.c_str());
    spec::Scratch tmp; int st;
    if (channel == 0) st = srcml_unit_parse_memory(u, bytes.data(), bytes.size());
    else if (channel == 1) { std::string f = tmp.path("a"); writeFile(f, bytes); st = srcml_unit_parse_filename(u, f.c_str()); }
    else { IO io{ bytes, 0, chunk }; st = srcml_unit_parse_io(u, &io, rd, nullptr); }
    c.check(st == 0, "parse", std::to_string(st));
    Doc d(str(srcml_unit_get_srcml(u)));
    c.check(d.ok(), "ill-formed", d.error);
    c.eq(textOf(d.root()), want, "text of the srcML");
    c.check(str(srcml_unit_get_srcml(u)).find('\r') == std::string::npos, "cr-in-srcml");
    c.eq(std::to_string(srcml_unit_get_loc(u)), std::to_string(lineCount(want)), "loc");
    c.check(srcml_archive_write_unit(a, u) == 0, "write");
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a);
    std::string doc(buf, size); srcml_memory_free(buf);
    if (docEol) doc = norm(doc, EOL[docEol]);       // the document as a tool with other line ends stores it
    a = srcml_archive_create();
    c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "read-open");
    u = srcml_archive_read_unit(a);
    c.check(u != nullptr, "read");
    c.eq(std::to_string(srcml_unit_get_eol(u)), "0", "default eol");
    c.eq(std::to_string(srcml_unit_get_loc(u)), std::to_string(lineCount(want)), "loc of the unit read");
    size_t eol = 0;
    int n = c.range(1, 5);
    for (int k = 0; k < n; ++k) {
        int e = (int) c.draw(6);
        if (e < 4) { c.check(srcml_unit_set_eol(u, e) == 0, "set-eol"); eol = e; }
        else if (e == 4) { c.check(srcml_unit_set_eol(u, 4 + c.draw(3)) != 0, "set-bad-eol", "an unknown line end was accepted"); }
        c.eq(std::to_string(srcml_unit_get_eol(u)), std::to_string(eol), "eol");
        std::string oenc = c.pick({ "UTF-8", "UTF-8", "UTF-16LE" }), out, w, back;
        srcml_unit_set_src_encoding(u, oenc.c_str());
        srcml_unit* v = u;
        int och = (int) c.draw(3);
        if (och == 0) { char* b = nullptr; size_t m = 0; st = srcml_unit_unparse_memory(v, &b, &m); if (b) { out.assign(b, m); srcml_memory_free(b); } }
        else if (och == 1) { std::string f = tmp.path("o"); st = srcml_unit_unparse_filename(v, f.c_str()); out = readFile(f); }
        else { Sink s; st = srcml_unit_unparse_io(v, &s, wr, nullptr); out = s.d; }
        c.check(st == 0, "unparse", std::to_string(st));
        c.check(conv("UTF-8", oenc.c_str(), out, back), "encoding of the source");
        c.eq(back, norm(want, EOL[eol]), "source with line end " + std::to_string(eol));
        // a clone has the line end too
        if (c.chance(1, 4)) { srcml_unit* w2 = srcml_unit_clone(u); c.eq(std::to_string(srcml_unit_get_eol(w2)), std::to_string(eol), "eol of the clone"); srcml_unit_free(w2); }
        c.evals();
    }
    // what is extracted goes in again with the same meaning
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a);
}

static void prop(Ctx& c) {
    std::string lang = gen::language(c), t = gen::source(c, lang, 1), s;
    if (c.chance(1, 4)) { int want = c.pick(std::vector<int>{ 1024, 4096 }) + c.range(-3, 3); std::string f = c.pick({ "int a;\n", "\n", "x\n\n", "/* é\n*/" }); while ((int) t.size() < want) t += f; }
    int mode = (int) c.draw(6);
    for (char ch : t) {
        if (ch != '\n') s += ch;
        else switch (mode) {
            case 0: s += "\r\n"; break;
            case 1: s += "\r"; break;
            case 2: s += "\n"; break;
            case 3: s += c.pick({ "\n", "\r", "\r\n" }); break;
            default: s += c.pick({ "\n", "\r", "\r\n", "\n\r", "\r\r\n", "\r\n\r\n", "\n\n", "\r\r", "\\\r\n", " \r\n\t" });
        }
    }
    if (c.chance(1, 8)) s += "\r";
    if (c.chance(1, 10)) s = "\r\n" + s;
    std::string enc = c.pick({ "UTF-8", "UTF-8", "UTF-16LE", "UTF-32BE" });
    int channel = (int) c.draw(3); size_t chunk = c.boolean() ? c.range(1, 9) : c.range(1, 1500);
    bool archive = c.boolean(); int docEol = c.chance(1, 3) ? c.range(2, 3) : 0;
    c.note(lang + " " + enc + " channel " + std::to_string(channel) + " chunk " + std::to_string(chunk) + (archive ? " archive" : "") + " document line end " + std::to_string(docEol) + "\n" + quote(s, 5000));
    run1(c, lang, s, enc, channel, chunk, archive, docEol);
    c.label("mode " + std::to_string(mode)); c.nontrivial(s.find('\r') != std::string::npos);
}

int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C09"; k.prop = prop; k.quick_cases = 16000; k.thorough_cases = 200000;
    k.rule = "source with CR, LF, CRLF, and mixtures of them everywhere (in comments, strings, directives, after a backslash, at the end, over read boundaries of 1 to 1500 bytes, in UTF-8, 16, and 32) must give srcML without CR whose text and lines have one LF per line end; "
             "the unit read back, from the document with its line ends as written or changed to CR or CRLF, is extracted several times with each line end over memory, file, and callback: every line end of the source must come out as the one asked for, bad values refused. Non-trivial: the source has a CR";
    return run(k, argc, argv);
}
