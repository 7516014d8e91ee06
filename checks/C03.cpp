// However the source arrives (memory, file, FILE, descriptor, callbacks with any chunking), the srcML is the same.
#include "spec.hpp"
#include <iconv.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
using namespace pbt; using namespace api;

static std::string encode(const std::string& s, const char* enc) {
    iconv_t ic = iconv_open(enc, "UTF-8");
    std::string in = s, out(s.size() * 6 + 16, 0);
    char* ip = in.data(); size_t il = in.size(); char* op = out.data(); size_t ol = out.size();
    size_t r = iconv(ic, &ip, &il, &op, &ol);
    iconv_close(ic);
    if (r == (size_t) -1) return "";
    out.resize(out.size() - ol);
    return out;
}

struct Result { int status = -1; std::string srcml, hash, enc; int loc = -1; };
static Result collect(srcml_unit* u, int st) {
    Result r; r.status = st;
    if (st == 0) { r.srcml = str(srcml_unit_get_srcml(u)); r.hash = str(srcml_unit_get_hash(u)); r.enc = str(srcml_unit_get_src_encoding(u)); r.loc = srcml_unit_get_loc(u); }
    return r;
}
struct IO { std::string data; size_t pos = 0; std::vector<size_t> chunks; size_t k = 0; int closed = 0; };
static ssize_t rd(void* p, void* b, size_t n) {
    IO* o = (IO*) p;
    size_t m = std::min(n, o->data.size() - o->pos);
    if (!o->chunks.empty()) { m = std::min(m, o->chunks[o->k % o->chunks.size()]); ++o->k; }
    memcpy(b, o->data.data() + o->pos, m); o->pos += m;
    return (ssize_t) m;
}
static int cl(void* p) { ++((IO*) p)->closed; return 0; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }

static void prop(Ctx& c) {
    std::string lang = gen::language(c);
    Opts o;
    if (c.boolean()) o.options |= SRCML_OPTION_POSITION;
    if (c.boolean()) o.options |= SRCML_OPTION_STORE_ENCODING;
    std::string src = gen::source(c, lang, 2);
    // sizes around the 1024 bytes the library reads at once
    if (c.chance(1, 2)) {
        int want = c.range(1, 4) * 1024 + c.range(-8, 8);
        std::string filler = c.pick({ "int a() { return 1; }\n", "é;\n", "// 漢字 comment\n", "x𝒳 = 1;\n", "/* aé */ b();\n" });
        while ((int) src.size() < want) src += filler;
        int cut = want; while (cut > 0 && ((unsigned char) src[cut] & 0xC0) == 0x80) --cut;
        src.resize(cut);
    }
    // line ends
    int eol = (int) c.draw(4);
    if (eol) { std::string t; for (char ch : src) { if (ch == '\n') t += eol == 1 ? "\r\n" : eol == 2 ? "\r" : (t.size() % 3 ? "\r\n" : "\n"); else t += ch; } src = t; }
    struct E { const char* iconv; const char* given; const char* bom; };
    static const std::vector<E> encs = {
        { "UTF-8", "UTF-8", "" }, { "UTF-8", "UTF-8", "\xef\xbb\xbf" }, { "UTF-8", nullptr, "\xef\xbb\xbf" }, { "UTF-8", nullptr, "" }, { "ISO-8859-1", "ISO-8859-1", "" }, { "ISO-8859-1", nullptr, "" },
        { "UTF-16LE", nullptr, "\xff\xfe" }, { "UTF-16BE", nullptr, "\xfe\xff" }, { "UTF-16LE", "UTF-16LE", "" }, { "UTF-16BE", "UTF-16BE", "" }, { "UTF-16LE", "UTF-16", "\xff\xfe" },
        { "UTF-32LE", "UTF-32LE", "" }, { "GB18030", "GB18030", "" }, { "ISO-8859-15", "ISO-8859-15", "" }, { "WINDOWS-1252", "WINDOWS-1252", "" } };
    E e = c.pick(encs);
    std::string raw = encode(src, e.iconv);
    if (raw.empty() && !src.empty()) { for (auto& ch : src) if ((unsigned char) ch >= 0x80) ch = '~'; raw = encode(src, e.iconv); }
    raw = std::string(e.bom) + raw;
    if (e.given) o.src_encoding = e.given;
    std::vector<size_t> chunks;
    int mode = (int) c.draw(4);
    if (mode == 1) chunks = { 1 };
    else if (mode) { int n = c.range(1, 4); for (int i = 0; i < n; ++i) chunks.push_back(1 + c.draw(mode == 2 ? 7 : 1100)); }
    std::string d = "lang " + lang + " encoding " + e.iconv + " given " + (e.given ? e.given : "(none)") + (*e.bom ? " bom" : "") + " options " + std::to_string(o.options) + " chunks";
    for (auto k : chunks) d += " " + std::to_string(k);
    c.note(d); c.note(src);

    spec::Scratch tmp;
    std::string file = tmp.path("source");
    writeFile(file, raw);
    bool nullclose = c.chance(1, 6);
    int before = fds();
    std::vector<std::pair<std::string, Result>> rs;
    for (int ch = 0; ch < 6; ++ch) {
        srcml_archive* a = archive(o);
        char* buf = nullptr; size_t size = 0;
        srcml_archive_write_open_memory(a, &buf, &size);
        srcml_unit* u = srcml_unit_create(a);
        srcml_unit_set_language(u, lang.c_str());
        int st = -1; const char* nm = "";
        if (ch == 0) { nm = "memory"; st = srcml_unit_parse_memory(u, raw.data(), raw.size()); }
        if (ch == 1) { nm = "filename"; st = srcml_unit_parse_filename(u, file.c_str()); }
        if (ch == 2) { nm = "FILE"; FILE* f = fopen(file.c_str(), "rb"); st = srcml_unit_parse_FILE(u, f); fclose(f); }
        if (ch == 3) { nm = "fd"; int fd = open(file.c_str(), O_RDONLY); st = srcml_unit_parse_fd(u, fd); c.check(fcntl(fd, F_GETFD) != -1, "fd-closed", "the descriptor of the caller was closed"); close(fd); }
        if (ch == 4) { nm = "io"; IO io{ raw, 0, chunks, 0, 0 }; st = srcml_unit_parse_io(u, &io, rd, nullclose ? nullptr : cl);
                       c.check(io.pos == raw.size() || st, "io-unread", std::to_string(io.pos) + " of " + std::to_string(raw.size()) + " bytes read");
                       if (!nullclose) c.check(io.closed == 1, "io-close", "close callback called " + std::to_string(io.closed) + " times"); }
        if (ch == 5) { nm = "pipe"; int p[2]; if (pipe(p)) c.discard();
                       if (raw.size() > 60000) { close(p[0]); close(p[1]); srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); if (buf) srcml_memory_free(buf); continue; }
                       ssize_t w = write(p[1], raw.data(), raw.size()); (void) w; close(p[1]); st = srcml_unit_parse_fd(u, p[0]); close(p[0]); }
        rs.emplace_back(nm, collect(u, st));
        srcml_unit_free(u);
        srcml_archive_close(a);
        srcml_archive_free(a);
        if (buf) srcml_memory_free(buf);
    }
    c.check(rs[0].second.status == 0, "parse-failed", "status " + std::to_string(rs[0].second.status));
    for (size_t i = 1; i < rs.size(); ++i) {
        auto& r = rs[i].second; auto& m = rs[0].second; const std::string& n = rs[i].first;
        c.check(r.status == m.status, "status", n + " " + std::to_string(r.status));
        c.eq(r.srcml, m.srcml, "srcml", n + " differs from memory");
        c.eq(r.hash, m.hash, "hash", n + " differs from memory");
        c.eq(r.enc, m.enc, "encoding", n + " differs from memory");
        c.eq(std::to_string(r.loc), std::to_string(m.loc), "loc", n + " differs from memory");
        c.evals();
    }
    // the whole source has to be there
    std::string want; { std::string t = src; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\r') { want += '\n'; if (i + 1 < t.size() && t[i + 1] == '\n') ++i; } else want += t[i]; } }
    if (!(std::string(e.iconv) == "UTF-8" && !e.given && !*e.bom)) {       // otherwise it is read as ISO-8859-1
        Doc x(rs[0].second.srcml);
        c.check(x.ok(), "ill-formed", x.error);
        c.eq(textOf(x.root()), want, "text", "text of the srcML is not the source");
    }
    c.check(fds() == before, "fd-leak", std::to_string(fds() - before) + " descriptors left open");
    c.label(std::string("encoding ") + e.iconv);
    if (raw.size() > 1024) c.label("over one read");
    if (raw.size() != src.size() || !gen::validUtf8(raw)) c.label("converted");
    c.nontrivial(raw.size() > 1024 || !chunks.empty());
}

static Directed small(const char* name, std::string raw, const char* enc, size_t chunk, std::string want) {
    return { name, name, [=](Ctx& c) {
        Opts o; if (enc) o.src_encoding = enc;
        srcml_archive* a = archive(o); char* buf = nullptr; size_t size = 0;
        srcml_archive_write_open_memory(a, &buf, &size);
        srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C++");
        IO io{ raw, 0, { chunk }, 0, 0 };
        int st = srcml_unit_parse_io(u, &io, rd, cl);
        c.check(st == 0, "status", std::to_string(st));
        Doc x(str(srcml_unit_get_srcml(u))); c.check(x.ok(), "ill-formed", x.error);
        c.eq(textOf(x.root()), want, "text");
        c.eq(str(srcml_unit_get_hash(u)), sha1(raw), "hash");
        srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); if (buf) srcml_memory_free(buf);
        c.nontrivial();
    } };
}

int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C03"; k.prop = prop; k.quick_cases = 4000; k.thorough_cases = 80000; k.cpu_limit = 10;
    k.rule = "generated sources (many sized around multiples of the 1024-byte read, with multibyte characters and mixed line ends) in one of 15 encoding/BOM configurations are parsed from memory, file name, FILE, file, pipe descriptor, and callbacks with random chunk sizes; "
             "srcML, hash, encoding, and lines of code must agree, the text must be the whole decoded source, no descriptor may leak, and the close callback runs once. Non-trivial: more than one read is needed";
    k.directed = { small("split-character-1-byte", "a\xc3\xa9;\n", "UTF-8", 1, "a\xc3\xa9;\n"), small("bom-1-byte", "\xef\xbb\xbf" "a;\n", nullptr, 1, "a;\n"),
                   small("bom-only", "\xef\xbb\xbf", nullptr, 3, ""), small("utf16-bom-first-read", std::string("\xff\xfe" "a\0;\0", 6), nullptr, 2, "a;") };
    return run(k, argc, argv);
}
