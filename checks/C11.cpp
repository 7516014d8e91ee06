// The result of an operation depends on its inputs and settings only, not on what the process or the unit did before.
#include "spec.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>
using namespace pbt; using namespace api;

// runs f in a fresh process image (a fork made before anything else was done in this case)
template<class F> static std::string fresh(F f) {
    int p[2]; if (pipe(p)) return "(pipe)";
    pid_t k = fork();
    if (k == 0) { close(p[0]); std::string r = f(); size_t at = 0; while (at < r.size()) { ssize_t n = write(p[1], r.data() + at, r.size() - at); if (n <= 0) break; at += n; } _exit(0); }
    close(p[1]);
    std::string r; char b[8192]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n);
    close(p[0]); int st = 0; waitpid(k, &st, 0);
    if (st) r += " (status " + std::to_string(st) + ")";
    return r;
}

struct Op { std::string lang, src, filename, version, timestamp, enc, bytes; int archive; bool reuse; int kind; std::string xpath, file; };
struct Arch { size_t options; int tab; bool solitary, hash; std::string enc, url; std::vector<std::pair<std::string, std::string>> ns; };

static srcml_archive* make(const Arch& a) {
    srcml_archive* r = srcml_archive_create();
    srcml_archive_enable_option(r, a.options);
    if (!a.solitary) srcml_archive_disable_solitary_unit(r);
    if (!a.hash) srcml_archive_disable_hash(r);
    if (a.tab) srcml_archive_set_tabstop(r, a.tab);
    if (!a.enc.empty()) srcml_archive_set_src_encoding(r, a.enc.c_str());
    if (!a.url.empty()) srcml_archive_set_url(r, a.url.c_str());
    for (auto& n : a.ns) srcml_archive_register_namespace(r, n.first.c_str(), n.second.c_str());
    return r;
}
static std::string view(srcml_unit* u, int status) {
    if (status != 0) return std::to_string(status);         // what the unit then has is not specified
    std::string r = std::to_string(status) + " " + str(srcml_unit_get_hash(u)) + " " + std::to_string(srcml_unit_get_loc(u)) + " " + str(srcml_unit_get_src_encoding(u)) + "\n" +
        str(srcml_unit_get_srcml(u)) + "\n" + str(srcml_unit_get_srcml_outer(u)) + "\n" + str(srcml_unit_get_srcml_inner(u)) + "\n";
    {
        // from the document
        char* b = nullptr; size_t n = 0;
        srcml_archive* a = srcml_archive_create(); srcml_archive_write_open_memory(a, &b, &n);
        srcml_unit* v = srcml_unit_clone(u); srcml_unit_free(v);
        srcml_archive_write_unit(a, u); srcml_archive_close(a); srcml_archive_free(a);
        r += b ? std::string(b, n) : "(null)"; if (b) srcml_memory_free(b);
    }
    return r;
}
static int parseInto(srcml_unit* u, const Op& o) {
    srcml_unit_set_language(u, o.lang.empty() ? nullptr : o.lang.c_str());
    srcml_unit_set_filename(u, o.filename.empty() ? nullptr : o.filename.c_str());
    srcml_unit_set_version(u, o.version.empty() ? nullptr : o.version.c_str());
    srcml_unit_set_timestamp(u, o.timestamp.empty() ? nullptr : o.timestamp.c_str());
    srcml_unit_set_src_encoding(u, o.enc.empty() ? nullptr : o.enc.c_str());
    return o.file.empty() ? srcml_unit_parse_memory(u, o.bytes.data(), o.bytes.size()) : srcml_unit_parse_filename(u, o.file.c_str());
}
// other uses of the library between the parses
static std::string other(const Op& o, const std::string& doc) {
    std::string r;
    srcml_archive* a = srcml_archive_create();
    if (srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0) {
        int n = 0;
        if (o.kind >= 3) srcml_append_transform_xpath(a, o.xpath.c_str());
        while (srcml_unit* u = srcml_archive_read_unit(a)) {
            if (o.kind >= 3) {
                srcml_transform_result* t = nullptr;
                r += "transform " + std::to_string(srcml_unit_apply_transforms(a, u, &t));
                if (t) {
                    r += " type " + std::to_string(srcml_transform_get_type(t)) + " n " + std::to_string(srcml_transform_get_unit_size(t));
                    for (int i = 0; i < srcml_transform_get_unit_size(t); ++i) r += "\n" + str(srcml_unit_get_srcml_outer(srcml_transform_get_unit(t, i)));
                    srcml_transform_free(t);
                }
            } else r += "unit " + str(srcml_unit_get_srcml(u));
            srcml_unit_free(u); if (++n > 3) break;
        }
    }
    srcml_archive_close(a); srcml_archive_free(a);
    return r;
}

static void prop(Ctx& c) {
    int na = c.range(1, 3);
    std::vector<Arch> as; std::string d;
    for (int i = 0; i < na; ++i) {
        Arch a;
        a.options = c.pick(std::vector<size_t>{ 0, SRCML_OPTION_POSITION, SRCML_OPTION_CPP, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_STORE_ENCODING, SRCML_OPTION_NO_XML_DECL, SRCML_OPTION_POSITION | SRCML_OPTION_CPP });
        a.tab = c.chance(1, 3) ? c.range(1, 12) : 0; a.solitary = c.boolean(); a.hash = !c.chance(1, 4);
        if (c.chance(1, 4)) a.enc = c.pick({ "UTF-8", "ISO-8859-1", "UTF-16LE" });
        if (c.chance(1, 4)) a.url = "u" + std::to_string(i);
        if (c.chance(1, 4)) a.ns.push_back({ c.pick({ "p", "q", "src", "" }), c.pick({ SRC_NS, CPP_NS, POS_NS, "http://example.org/x" }) });
        as.push_back(a);
        d += "archive options " + std::to_string(a.options) + " tab " + std::to_string(a.tab) + " solitary " + std::to_string(a.solitary) + " hash " + std::to_string(a.hash) + " enc " + a.enc + " ns " + std::to_string(a.ns.size()) + "\n";
    }
    int n = c.range(2, 6); spec::Scratch files;
    std::vector<Op> ops;
    for (int i = 0; i < n; ++i) {
        Op o; o.archive = (int) c.draw(na); o.reuse = c.boolean(); o.kind = (int) c.draw(5);
        o.lang = gen::language(c); std::string srcLang = o.lang;
        o.src = i && c.chance(1, 3) ? ops[c.draw(ops.size())].src : gen::source(c, o.lang, 1);
        if (c.chance(1, 2)) o.filename = "f" + std::to_string(c.draw(3)) + gen::extensionFor(o.lang);
        if (!o.filename.empty() && c.chance(1, 3)) o.lang = "";
        if (c.chance(1, 4)) o.version = "1." + std::to_string(i);
        if (c.chance(1, 4)) o.timestamp = "t" + std::to_string(i);
        o.bytes = o.src;
        if (c.chance(1, 4)) { o.enc = c.pick({ "UTF-8", "ISO-8859-1", "UTF-16LE", "no-such-encoding" }); if (o.enc != "no-such-encoding") { std::string b; if (conv(o.enc.c_str(), "UTF-8", o.src, b)) o.bytes = b; } }
        if (c.chance(1, 8)) o.lang = "Klingon";        // an operation that fails
        if (c.chance(1, 8)) o.bytes = "";
        if (c.chance(1, 3)) {                           // the language from the name of the file, if the unit has none
            if (c.boolean()) o.lang = "";
            o.file = files.path("s" + std::to_string(i) + (c.chance(1, 8) ? std::string(".unknown") : gen::extensionFor(c.chance(1, 4) || o.lang == "Klingon" ? gen::language(c) : o.lang.empty() ? srcLang : o.lang)));
            std::ofstream(o.file, std::ios::binary).write(o.bytes.data(), o.bytes.size()); c.label("from a file");
        }
        o.xpath = c.pick({ "//src:name", "count(//src:*)", "//src:expr[", "string(//src:unit)", "//cpp:define", "1=1" });
        ops.push_back(o);
        d += "op archive " + std::to_string(o.archive) + (o.reuse ? " same unit" : " new unit") + " other " + std::to_string(o.kind) + " " + o.lang + " " + o.filename + " " + o.enc + " " + o.xpath + (o.file.empty() ? "" : " file " + o.file.substr(o.file.rfind('/') + 1)) + "\n" + o.src + "\n";
    }
    c.note(d);
    // without any history
    std::vector<std::string> want, wantOther; std::vector<std::string> docs;
    for (auto& o : ops) {
        want.push_back(fresh([&] { srcml_archive* a = make(as[o.archive]); char* b = nullptr; size_t m = 0; srcml_archive_write_open_memory(a, &b, &m); srcml_unit* u = srcml_unit_create(a); return view(u, parseInto(u, o)); }));
        docs.push_back(fresh([&] { Opts x; return document(o.src, o.lang.empty() || o.lang == "Klingon" ? "C++" : o.lang, x, o.archive == 0); }));
        wantOther.push_back(o.kind >= 2 ? fresh([&] { return other(o, docs.back()); }) : "");
    }
    std::vector<srcml_archive*> ar; std::vector<srcml_unit*> last; std::vector<char*> bufs(na); std::vector<size_t> sizes(na);
    for (int i = 0; i < na; ++i) { ar.push_back(make(as[i])); srcml_archive_write_open_memory(ar[i], &bufs[i], &sizes[i]); last.push_back(nullptr); }
    for (int i = 0; i < n; ++i) {
        auto& o = ops[i];
        if (o.kind >= 2) c.eq(other(o, docs[i]), wantOther[i], "other-operation", "operation " + std::to_string(i));
        srcml_unit* u = last[o.archive];
        bool reused = u && o.reuse;
        if (!reused) { if (u) srcml_unit_free(u); u = last[o.archive] = srcml_unit_create(ar[o.archive]); }
        c.eq(view(u, parseInto(u, o)), want[i], reused ? "unit-used-again" : "new-unit", "operation " + std::to_string(i));
        c.evals();
        if (reused) c.label("unit used again");
        if (want[i][0] != '0') c.label("failed operation");
    }
    for (int i = 0; i < na; ++i) { if (last[i]) srcml_unit_free(last[i]); srcml_archive_close(ar[i]); srcml_archive_free(ar[i]); if (bufs[i]) srcml_memory_free(bufs[i]); }
    c.nontrivial();
}
int main(int argc, char** argv) {
    quietXml();
    if (freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C11"; k.prop = prop; k.quick_cases = 8000; k.thorough_cases = 120000;
    k.rule = "a history of 2 to 6 operations over up to 3 archives with different options, encodings, and namespaces: parse from memory or a file into a new or an already used unit (also failing ones), write it, read another document, apply a query (also an invalid one); every result (status, hash, lines, encoding, srcML, views, document) has to be the one of the same operation made first in a fresh process. Non-trivial: all";
    return run(k, argc, argv);
}
