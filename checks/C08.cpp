// Source in any encoding: the srcML holds the decoded text, source that cannot be decoded is reported, and extraction encodes back.
#include "spec.hpp"
using namespace pbt; using namespace api;

struct IO { std::string d; size_t pos, chunk; };
static ssize_t rd(void* p, void* b, size_t n) { auto o = (IO*) p; size_t m = std::min({ n, o->d.size() - o->pos, o->chunk }); memcpy(b, o->d.data() + o->pos, m); o->pos += m; return (ssize_t) m; }

static const std::vector<std::string> ENC = { "UTF-8", "UTF-8", "ISO-8859-1", "ISO-8859-15", "WINDOWS-1252", "KOI8-R", "SHIFT_JIS", "EUC-JP", "GB18030", "GBK", "BIG5", "EUC-KR", "ISO-2022-JP", "UTF-16LE", "UTF-16BE", "UTF-16", "UTF-32LE", "UTF-32", "US-ASCII", "IBM437", "ISO-8859-7" };
static const std::vector<std::string> CH = { "é", "ü", "ß", "€", "ж", "Я", "漢", "字", "あ", "ア", "ｱ", "한", "中", "𝒳", "😀", "α", "Ω", "•", "½", "¥", "\\", "~", "|", "\xc2\xa0", "\xc2\x85", "　", "，", "\xef\xbb\xbf" };

static bool xmlText(const std::string& s) {   // decoded text srcML can hold
    for (size_t i = 0; i < s.size(); ++i) { if (!s[i]) return false; if ((unsigned char) s[i] == 0xEF && i + 2 < s.size() && (unsigned char) s[i + 1] == 0xBF && (unsigned char) s[i + 2] >= 0xBE) return false; }
    return true;
}

static void prop(Ctx& c) {
    std::string lang = gen::language(c), enc = c.pick(ENC), t;
    int n = c.size(60);
    for (int i = 0; i < n; ++i) {
        std::string w = c.boolean() ? c.pick(CH) : c.chance(1, 3) ? gen::comment(c) : c.pick({ "a", ";", " ", "\n", "\"", "int b", "{", "}", "//", "/*", "*/", "'", "<&>", "x = 1" });
        std::string e, back;
        if (conv(enc.c_str(), "UTF-8", w, e) && conv("UTF-8", enc.c_str(), e, back) && back == w) t += w;
    }
    if (c.chance(1, 3)) { int want = c.range(1, 3) * 1024 + c.range(-9, 9); std::string f = t.empty() ? "a" : t; while ((int) t.size() < want) t += f; }
    int eol = c.chance(1, 3) ? 1 : 0; if (eol) { std::string e; for (char ch : t) { if (ch == '\n') e += "\r\n"; else e += ch; } t = e; }
    std::string bytes;
    if (!conv(enc.c_str(), "UTF-8", t, bytes)) c.discard();
    bool bom = bytes.compare(0, 3, "\xef\xbb\xbf") == 0 || bytes.compare(0, 2, "\xff\xfe") == 0 || bytes.compare(0, 2, "\xfe\xff") == 0;
    if (bom && enc != "UTF-16" && enc != "UTF-32") c.discard();      // the byte-order marks are C03
    bool bad = c.chance(1, 3) && bytes.size() > 6;
    if (bad) {
        size_t at = 4 + c.draw(bytes.size() - 4);
        switch (c.draw(3)) { case 0: bytes.erase(at); break; case 1: bytes[at] = (char) c.range(0, 255); break; case 2: bytes.insert(at, 1, (char) c.range(128, 255)); break; }
    }
    int channel = (int) c.draw(3); size_t chunk = c.boolean() ? c.range(1, 8) : c.range(1, 1500);
    int where = (int) c.draw(3);        // 0 unit, 1 archive, 2 the unit overrides the archive
    bool store = c.boolean(), lower = c.chance(1, 6);
    std::string given = enc; if (lower) for (auto& ch : given) ch = tolower(ch);
    c.note(lang + " " + given + " channel " + std::to_string(channel) + " chunk " + std::to_string(chunk) + " where " + std::to_string(where) + (bad ? " damaged" : "") + "\n" + quote(bytes, 4000));
    std::string text;
    bool good = conv("UTF-8", enc.c_str(), bytes, text);
    if (good && !xmlText(text)) c.discard();
    srcml_archive* a = srcml_archive_create();
    if (store) srcml_archive_enable_option(a, SRCML_OPTION_STORE_ENCODING);
    if (where) srcml_archive_set_src_encoding(a, where == 1 ? given.c_str() : "ISO-8859-2");
    char* buf = nullptr; size_t size = 0;
    c.check(srcml_archive_write_open_memory(a, &buf, &size) == 0, "open");
    srcml_unit* u = srcml_unit_create(a);
    srcml_unit_set_language(u, lang.c_str());
    if (where != 1) srcml_unit_set_src_encoding(u, given.c_str());
    int st;
    spec::Scratch tmp;
    if (channel == 0) st = srcml_unit_parse_memory(u, bytes.data(), bytes.size());
    else if (channel == 1) { IO io{ bytes, 0, chunk }; st = srcml_unit_parse_io(u, &io, rd, nullptr); }
    else { std::string f = tmp.path("a.src"); writeFile(f, bytes); st = srcml_unit_parse_filename(u, f.c_str()); }
    if (!good) {
        c.check(st != 0, "damage-not-reported", "source that is not " + enc + " was parsed with status 0");
        srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); if (buf) srcml_memory_free(buf);
        c.label("not " + enc); c.nontrivial(); return;
    }
    c.check(st == 0, "parse", "status " + std::to_string(st) + " for valid " + enc);
    c.eq(str(srcml_unit_get_src_encoding(u)), enc, "encoding");
    Doc d(str(srcml_unit_get_srcml(u)));
    c.check(d.ok(), "ill-formed", d.error);
    std::string want = lf(text);
    c.eq(textOf(d.root()), want, "text"); c.evals();
    bool has; std::string v = attr(d.root(), "src-encoding", &has);
    c.eq(has ? v : "(null)", store ? enc : "(null)", "src-encoding");
    c.check(srcml_archive_write_unit(a, u) == 0, "write");
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a);
    std::string doc(buf, size); srcml_memory_free(buf);
    // back to the same encoding
    a = srcml_archive_create();
    if (c.boolean()) srcml_archive_set_src_encoding(a, given.c_str()); else where = 0;
    c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "read-open");
    u = srcml_archive_read_unit(a);
    c.check(u != nullptr, "read");
    if (where == 0) srcml_unit_set_src_encoding(u, given.c_str());
    char* b = nullptr; size_t m = 0;
    st = srcml_unit_unparse_memory(u, &b, &m);
    c.check(st == 0, "unparse", std::to_string(st));
    std::string out(b, m), back; srcml_memory_free(b);
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a);
    c.check(conv("UTF-8", enc.c_str(), out, back), "extracted-not-encoded", quote(out, 2000));
    c.eq(back, want, "extracted");
    c.label(enc);
    for (unsigned char ch : text) if (ch >= 0x80) { c.nontrivial(); break; }
}

int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C08"; k.prop = prop; k.quick_cases = 15000; k.thorough_cases = 300000;
    k.rule = "text with characters of the encoding in code, comments, and strings, in 20 encodings (single-byte, multibyte, stateful, UTF-16 and 32), declared on the unit or the archive, a third with a byte damaged, cut, or inserted, is parsed by memory, file, or callbacks with chunks from 1 byte. "
             "When an independent whole-buffer iconv decodes the bytes, the text of the srcML must be the decoded text, the encoding recorded, and the source extracted in that encoding must decode to it again; when it does not decode, parsing must not report success. Non-trivial: non-ASCII text or undecodable bytes";
    return run(k, argc, argv);
}
