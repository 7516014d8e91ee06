// However a srcML document is read (memory, file, FILE, descriptor, pipe, callbacks with any chunks), the same archive and units come out.
#include "spec.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
using namespace pbt; using namespace api;

struct IO { std::string data; size_t pos; std::vector<size_t> chunks; size_t k; int closed; };
static int rd(void* p, char* b, int n) {
    auto o = (IO*) p;
    size_t m = std::min((size_t) n, o->data.size() - o->pos);
    if (!o->chunks.empty()) { m = std::min(m, o->chunks[o->k % o->chunks.size()]); ++o->k; }
    memcpy(b, o->data.data() + o->pos, m); o->pos += m;
    return (int) m;
}
static int cl(void* p) { ++((IO*) p)->closed; return 0; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }

static std::string view(srcml_archive* a) {
    std::string r = "archive url=" + str(srcml_archive_get_url(a)) + " version=" + str(srcml_archive_get_version(a)) + " revision=" + str(srcml_archive_get_revision(a)) +
        " encoding=" + str(srcml_archive_get_xml_encoding(a)) + " language=" + str(srcml_archive_get_language(a)) + " tabstop=" + std::to_string(srcml_archive_get_tabstop(a)) +
        " options=" + std::to_string(srcml_archive_get_options(a)) + " solitary=" + std::to_string(srcml_archive_is_solitary_unit(a)) +
        " pi=" + str(srcml_archive_get_processing_instruction_target(a)) + " " + str(srcml_archive_get_processing_instruction_data(a));
    for (size_t i = 0; i < srcml_archive_get_namespace_size(a); ++i) r += " " + str(srcml_archive_get_namespace_prefix(a, i)) + "=" + str(srcml_archive_get_namespace_uri(a, i));
    return r;
}
static std::string view(srcml_unit* u) {
    std::string r = "unit language=" + str(srcml_unit_get_language(u)) + " filename=" + str(srcml_unit_get_filename(u)) + " version=" + str(srcml_unit_get_version(u)) +
        " timestamp=" + str(srcml_unit_get_timestamp(u)) + " hash=" + str(srcml_unit_get_hash(u)) + " encoding=" + str(srcml_unit_get_src_encoding(u)) + " revision=" + str(srcml_unit_get_revision(u));
    r += " loc=" + std::to_string(srcml_unit_get_loc(u)) + "\n" + str(srcml_unit_get_srcml(u)) + "\n" + str(srcml_unit_get_srcml_outer(u)) + "\n" + str(srcml_unit_get_srcml_inner(u)) + "\n";
    srcml_unit_set_src_encoding(u, "UTF-8");
    char* b = nullptr; size_t n = 0;
    int st = srcml_unit_unparse_memory(u, &b, &n);
    r += std::to_string(st) + " " + (b ? std::string(b, n) : "");
    if (b) srcml_memory_free(b);
    return r;
}

static void prop(Ctx& c) {
    spec::Want w; w.scale = 2;
    auto s = spec::make(c, w);
    int grow = (int) c.draw(4);
    if (grow == 1) { auto& u = s.units[c.draw(s.units.size())]; int want = c.range(1, 3) * 4000; while ((int) u.src.size() < want) u.src += "\n" + gen::program(c, u.lang, 2) + c.pick({ "/* é<&> */", "x = \"漢字\";", "\n\n", "a < b && c;", "\"&lt;\"" }); }
    std::vector<size_t> chunks;
    // the XML library itself wants at least its look-ahead of 250 bytes from a read that is not the last
    int mode = (int) c.draw(4);
    if (mode == 1) chunks = { 256 };
    else if (mode) { int n = c.range(1, 4); for (int i = 0; i < n; ++i) chunks.push_back(256 + c.draw(mode == 2 ? 90 : 5000)); }
    std::string d = "chunks";
    for (auto k : chunks) d += " " + std::to_string(k);
    c.note(d + "\n" + spec::describe(s));
    std::string doc = spec::toMemory(s);
    bool nullclose = c.chance(1, 6);
    spec::Scratch tmp;
    std::string file = tmp.path("doc.xml");
    writeFile(file, doc);
    int before = fds();
    std::vector<std::pair<std::string, std::vector<std::string>>> rs;
    for (int ch = 0; ch < 6; ++ch) {
        srcml_archive* a = srcml_archive_create();
        IO io{ doc, 0, chunks, 0, 0 }; FILE* f = nullptr; int fd = -1; int st = -1; const char* nm = "";
        std::string copy = doc;
        if (ch == 0) { nm = "memory"; st = srcml_archive_read_open_memory(a, copy.data(), copy.size()); }
        if (ch == 1) { nm = "filename"; st = srcml_archive_read_open_filename(a, file.c_str()); }
        if (ch == 2) { nm = "FILE"; f = fopen(file.c_str(), "rb"); st = srcml_archive_read_open_FILE(a, f); }
        if (ch == 3) { nm = "fd"; fd = open(file.c_str(), O_RDONLY); st = srcml_archive_read_open_fd(a, fd); }
        if (ch == 4) { nm = "io"; st = srcml_archive_read_open_io(a, &io, rd, nullclose ? nullptr : cl); }
        if (ch == 5) { nm = "pipe"; if (doc.size() > 60000) { srcml_archive_free(a); continue; } int p[2]; if (pipe(p)) c.discard(); ssize_t k = write(p[1], doc.data(), doc.size()); (void) k; close(p[1]); fd = p[0]; st = srcml_archive_read_open_fd(a, fd); }
        c.check(st == 0, "open-status", std::string(nm) + " status " + std::to_string(st));
        std::vector<std::string> vs = { view(a) };
        while (srcml_unit* u = srcml_archive_read_unit(a)) { vs.push_back(view(u)); srcml_unit_free(u); }
        srcml_archive_close(a); srcml_archive_free(a);
        if (f) c.check(fclose(f) == 0, "FILE-closed", "the FILE of the caller was closed");
        if (fd != -1) close(fd);      // libxml2 closes the descriptor of an input itself
        if (ch == 4 && !nullclose) c.check(io.closed == 1, "io-close", "close callback called " + std::to_string(io.closed) + " times");
        rs.emplace_back(nm, vs);
    }
    c.check(rs[0].second.size() == s.units.size() + 1, "units", std::to_string(rs[0].second.size() - 1) + " of " + std::to_string(s.units.size()) + " units read");
    for (size_t i = 1; i < rs.size(); ++i) {
        c.check(rs[i].second.size() == rs[0].second.size(), "units", rs[i].first + " " + std::to_string(rs[i].second.size() - 1) + " of " + std::to_string(s.units.size()) + " units read");
        for (size_t k = 0; k < rs[0].second.size(); ++k) { c.eq(rs[i].second[k], rs[0].second[k], k ? "unit" : "archive", rs[i].first + " differs from memory"); c.evals(); }
    }
    c.check(fds() == before, "fd-leak", std::to_string(fds() - before) + " descriptors left open");
    if (doc.size() > 4096) c.label("over 4096 bytes");
    if (s.xmlEncoding) c.label("xml " + *s.xmlEncoding);
    c.nontrivial(doc.size() > 4096 || !chunks.empty());
}

int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C05"; k.prop = prop; k.quick_cases = 16000; k.thorough_cases = 80000; k.cpu_limit = 10; k.wall_limit = 20;
    k.rule = "generated documents (archives and solitary units in several XML encodings, a quarter above the 4096 bytes the reader takes at once) are read from memory, a file, a FILE, a descriptor, a pipe, and callbacks with random chunk sizes of at least 256 bytes; archive settings, the number of units, "
             "and every view of every unit (attributes, srcML, outer, inner, source, lines) must agree, the FILE of the caller stays open, no descriptor leaks, and the close callback runs once. Non-trivial: more than one read is needed";
    return run(k, argc, argv);
}
