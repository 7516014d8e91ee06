// Wherever output goes (memory, file, FILE, descriptor, callback), the bytes are the same: archives and extracted source.
#include "spec.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace pbt; using namespace api;

struct Sink { std::string data; int closed = 0, writes = 0; };
static int wr(void* p, const char* b, int n) { auto s = (Sink*) p; s->data.append(b, n); ++s->writes; return n; }
static int cl(void* p) { ++((Sink*) p)->closed; return 0; }

static const char* CH[] = { "memory", "filename", "FILE", "fd", "io" };

static std::string write(Ctx& c, const spec::ArchiveSpec& s, int ch, spec::Scratch& tmp, int& status) {
    srcml_archive* a = spec::create(s);
    char* buf = nullptr; size_t size = 0; FILE* f = nullptr; int fd = -1; Sink sink;
    std::string file = tmp.path(std::string("out-") + CH[ch]);
    switch (ch) {
    case 0: status = srcml_archive_write_open_memory(a, &buf, &size); break;
    case 1: status = srcml_archive_write_open_filename(a, file.c_str()); break;
    case 2: f = fopen(file.c_str(), "wb"); status = srcml_archive_write_open_FILE(a, f); break;
    case 3: fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); status = srcml_archive_write_open_fd(a, fd); break;
    case 4: status = srcml_archive_write_open_io(a, &sink, wr, cl); break;
    }
    if (!status) status = spec::fill(a, s);
    srcml_archive_close(a);
    srcml_archive_free(a);
    std::string r;
    if (ch == 0) { if (buf) { r.assign(buf, size); c.check(buf[size] == 0, "terminator", "buffer is not terminated"); srcml_memory_free(buf); } }
    else if (ch == 4) { r = sink.data; c.check(sink.closed == 1, "close-callback", "called " + std::to_string(sink.closed) + " times"); }
    else {
        if (f) c.check(fclose(f) == 0, "FILE-closed", "the FILE of the caller was closed");
        if (fd != -1) c.check(::close(fd) == 0, "fd-closed", "the descriptor of the caller was closed");
        r = readFile(file);
    }
    return r;
}

static std::string unparse(Ctx& c, srcml_unit* u, int ch, spec::Scratch& tmp, int& status) {
    char* buf = nullptr; size_t size = 0; FILE* f = nullptr; int fd = -1; Sink sink;
    std::string file = tmp.path(std::string("src-") + CH[ch]), r;
    switch (ch) {
    case 0: status = srcml_unit_unparse_memory(u, &buf, &size); if (buf) { r.assign(buf, size); srcml_memory_free(buf); } return r;
    case 1: status = srcml_unit_unparse_filename(u, file.c_str()); return readFile(file);
    case 2: f = fopen(file.c_str(), "wb"); status = srcml_unit_unparse_FILE(u, f); c.check(fclose(f) == 0, "FILE-closed"); return readFile(file);
    case 3: fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); status = srcml_unit_unparse_fd(u, fd); c.check(::close(fd) == 0, "fd-closed"); return readFile(file);
    }
    status = srcml_unit_unparse_io(u, &sink, wr, cl);
    c.check(sink.closed == 1, "close-callback", "called " + std::to_string(sink.closed) + " times");
    return sink.data;
}

static void run1(Ctx& c, const spec::ArchiveSpec& s, const char* srcEnc, size_t eol) {
    spec::Scratch tmp;
    std::string doc;
    for (int ch = 0; ch < 5; ++ch) {
        int st = -1;
        std::string out = write(c, s, ch, tmp, st);
        c.check(st == 0, "write-status", std::string(CH[ch]) + " status " + std::to_string(st));
        if (!ch) doc = out;
        else c.eq(out, doc, "archive-bytes", std::string(CH[ch]) + " differs from memory");
        c.evals();
    }
    srcml_archive* a = srcml_archive_create();
    c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "read-open");
    int n = 0;
    while (srcml_unit* u = srcml_archive_read_unit(a)) {
        srcml_unit_set_src_encoding(u, srcEnc);
        srcml_unit_set_eol(u, eol);
        std::string mem;
        for (int ch = 0; ch < 5; ++ch) {
            int st = -1;
            std::string out = unparse(c, u, ch, tmp, st);
            c.check(st == 0, "unparse-status", std::string(CH[ch]) + " status " + std::to_string(st));
            if (!ch) mem = out;
            else c.eq(out, mem, "source-bytes", std::string(CH[ch]) + " differs from memory");
            c.evals();
        }
        srcml_unit_free(u);
        ++n;
    }
    srcml_archive_close(a); srcml_archive_free(a);
    c.check(n == (int) s.units.size(), "units", std::to_string(n) + " units read");
}

static void prop(Ctx& c) {
    spec::Want w; w.scale = 1; w.minUnits = 1;
    auto s = spec::make(c, w);
    // outputs larger than the buffers of the writer
    if (!s.units.empty() && c.chance(1, 6)) { auto& u = s.units[0]; std::string x = u.src; while (u.src.size() < 9000) u.src += "\n" + gen::program(c, u.lang, 3) + "\n/* é */"; }
    const char* enc = c.pick({ "UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16", "UTF-32LE", "US-ASCII" });
    size_t eol = c.draw(4);
    c.note(spec::describe(s) + "\nunparse " + enc + " eol " + std::to_string(eol));
    run1(c, s, enc, eol);
    c.label(std::string("unparse ") + enc);
    if (s.xmlEncoding) c.label("xml " + *s.xmlEncoding);
    c.nontrivial(s.xmlEncoding || strcmp(enc, "UTF-8") || s.units.size() > 1);
}

static Directed d(const char* name, const char* what, const char* xmlEnc, const char* srcEnc, const char* src) {
    return { name, what, [=](Ctx& c) {
        spec::ArchiveSpec s; s.srcEncoding = "UTF-8"; if (xmlEnc) s.xmlEncoding = xmlEnc;
        spec::UnitSpec u; u.lang = "C++"; u.src = src; s.units = { u, u };
        run1(c, s, srcEnc, 0); c.nontrivial();
    } };
}

int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C04"; k.prop = prop; k.quick_cases = 8000; k.thorough_cases = 80000; k.cpu_limit = 10;
    k.rule = "archives of 1-4 units with random settings are written to memory, a file, a FILE, a descriptor, and a callback; the bytes must be equal, the caller's FILE and descriptor stay open, and the close callback runs once. "
             "Every unit read back is extracted to the same five kinds of output in a random encoding and line end, again with equal bytes. Non-trivial: an XML or source encoding other than UTF-8, or several units";
    k.directed = { d("xml-latin1", "XML encoding ISO-8859-1 with non-ASCII source", "ISO-8859-1", "UTF-8", "\xc3\xa9 = \"\xe6\xbc\xa2\";\n"),
                   d("xml-utf16", "XML encoding UTF-16", "UTF-16", "UTF-8", "\xc3\xa9 = \"\xe6\xbc\xa2\";\n"),
                   d("src-utf16", "extraction in UTF-16LE", nullptr, "UTF-16LE", "a = \"\xc3\xa9\";\n") };
    return run(k, argc, argv);
}
