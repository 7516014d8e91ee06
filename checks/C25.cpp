// Input and output that fail: failures are reported, nothing is made up, and resources are released once.
#include "spec.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace pbt; using namespace api; typedef std::string S;

// ---- an output that stops working
struct Out { S got; size_t limit = (size_t) -1; int mode = 0; int fails = 0, closes = 0; bool shorts = false, closeFails = false; uint64_t rnd = 1; size_t calls = 0; };
static size_t next(uint64_t& r) { r = r * 6364136223846793005ull + 1442695040888963407ull; return r >> 33; }
static int out(void* x, const char* b, int n) {
    Out& w = *(Out*) x; w.calls++; if (n <= 0) return 0;
    size_t k = n; if (w.shorts) k = 1 + next(w.rnd) % n;
    if (w.got.size() + k > w.limit) {
        if (w.mode == 0 || w.got.size() == w.limit) { w.fails++; errno = ENOSPC; return -1; }      // nothing, or what still fits
        k = w.limit - w.got.size();
    }
    w.got.append(b, k); return (int) k;
}
static int outClose(void* x) { Out& w = *(Out*) x; w.closes++; return w.closeFails ? -1 : 0; }
static ssize_t cookieWrite(void* x, const char* b, size_t n) { int k = out(x, b, (int) n); return k < 0 ? 0 : k; }      // a stdio cookie reports errors as 0
static int cookieClose(void* x) { return 0; }

// ---- an input that stops working
struct In { S s; size_t p = 0, limit = (size_t) -1; int step = 1 << 30, least = 1; int fails = 0, closes = 0; bool once = false; uint64_t rnd = 1; };
static int in(void* x, char* b, int n) {
    In& r = *(In*) x;
    if (r.p >= r.limit) { if (r.once && r.fails) return 0; r.fails++; errno = EIO; return -1; }
    size_t k = std::min<size_t>(std::min(n, r.least + (int) (next(r.rnd) % r.step)), std::min(r.s.size(), r.limit) - r.p);
    memcpy(b, r.s.data() + r.p, k); r.p += k; return (int) k;
}
static ssize_t inSource(void* x, void* b, size_t n) { return in(x, (char*) b, (int) std::min<size_t>(n, 1 << 28)); }
static ssize_t cookieRead(void* x, char* b, size_t n) { return in(x, b, (int) n); }
static int inClose(void* x) { ((In*) x)->closes++; return 0; }

static S big(Ctx& c, const S& lang, int most) {
    size_t n = c.chance(1, 2) ? c.range(0, most) : 0, i = 0; S r, s = gen::source(c, lang); if (s.empty()) s = ";";
    while (r.size() < n) r += "{ a" + std::to_string(i++) + " = f(b, \"\xC3\xA9<&\"); } // c\n";
    r += s;
    return r;
}
static bool isPrefix(const S& p, const S& s) { return s.compare(0, p.size(), p) == 0; }
static void limits(Ctx& c, size_t total, size_t& limit) { switch (c.range(0, 4)) { case 0: limit = 0; break; case 1: limit = total; break; case 2: limit = total ? total - 1 - c.draw(std::min<size_t>(total, 20)) : 0; break; default: limit = c.draw(total + 1); } }
static S about(const Out& w, const S& want) { return "accepted " + std::to_string(w.got.size()) + " of " + std::to_string(want.size()) + ", limit " + std::to_string((long) w.limit) + ", failing calls " + std::to_string(w.fails); }

// source that cannot be read
static void source(Ctx& c) {
    S lang = gen::language(c), s = big(c, lang, 20000); Opts o; o.src_encoding = c.pick({ "UTF-8", "ISO-8859-1", "UTF-8" }); if (o.src_encoding != "UTF-8") for (auto& ch : s) if ((unsigned char) ch > 127) ch = 'x';
    In r; r.s = s; r.step = c.pick(std::vector<int>{ 1, 3, 100, 4096, 1 << 20 }); if (s.size() > 5000 && r.step < 100) r.step = 100; r.rnd = c.draw(1 << 20) + 1; r.once = c.boolean();
    bool fault = !c.chance(1, 5); if (fault) limits(c, s.size(), r.limit);
    int how = c.range(0, 1); bool close = c.chance(3, 4);
    c.label(how ? "source from a FILE" : "source from callbacks"); c.note((how ? "FILE " : "callbacks ") + S(fault ? "failing after " + std::to_string(r.limit) : "sound") + " of " + std::to_string(s.size()) + ", step " + std::to_string(r.step) + (r.once ? ", once" : "") + "\n" + lang + "\n" + s);
    c.nontrivial(fault);
    Parsed want = parse(s, lang, o);
    srcml_archive* a = archive(o); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, lang.c_str());
    bool before = c.boolean(); if (before) srcml_unit_parse_memory(u, "a;\n", 3);
    int st;
    if (how == 0) { st = srcml_unit_parse_io(u, &r, inSource, close ? inClose : nullptr); c.eq(std::to_string(r.closes), close ? "1" : "0", "close callback"); }
    else { FILE* f = fopencookie(&r, "r", { cookieRead, nullptr, nullptr, nullptr }); if (!f) c.discard(); if (c.boolean()) setvbuf(f, nullptr, _IONBF, 0); st = srcml_unit_parse_FILE(u, f); fclose(f); }
    c.evals();
    if (fault) c.check(st != SRCML_STATUS_OK, "reading the source failed, but the status is OK", std::to_string(r.p) + " bytes were read");
    else { c.check(st == want.status, "status", std::to_string(st)); c.eq(str(srcml_unit_get_srcml(u)), want.srcml, "srcML"); }
    // the unit and the archive are as usable as before
    st = srcml_unit_parse_memory(u, s.data(), s.size()); c.check(st == want.status, "status of the next parse", std::to_string(st)); c.eq(str(srcml_unit_get_srcml(u)), want.srcml, "srcML of the next parse");
    srcml_unit* v = srcml_unit_create(a); srcml_unit_set_language(v, lang.c_str()); st = srcml_unit_parse_memory(v, s.data(), s.size()); c.eq(str(srcml_unit_get_srcml(v)), want.srcml, "srcML of another unit"); c.evals(2);
    srcml_unit_free(v); srcml_unit_free(u); srcml_archive_free(a);
}

// source that cannot be written
static void unparsed(Ctx& c) {
    S lang = gen::language(c), s = big(c, lang, 40000), enc = c.pick({ "UTF-8", "UTF-16LE", "UTF-8", "ISO-8859-1" });
    Opts o; o.src_encoding = "UTF-8"; S doc = document(s, lang, o);
    srcml_archive* a = srcml_archive_create(); srcml_archive_set_src_encoding(a, enc.c_str()); c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open"); srcml_unit* u = srcml_archive_read_unit(a); c.check(u, "unit", doc);
    char* m = nullptr; size_t n = 0; int st0 = srcml_unit_unparse_memory(u, &m, &n); S want = m ? S(m, n) : S(); if (m) srcml_memory_free(m);
    if (st0) c.discard();
    Out w; w.rnd = c.draw(1 << 20) + 1; w.mode = c.range(0, 1); w.shorts = c.chance(1, 3); bool fault = !c.chance(1, 5); if (fault) limits(c, want.size(), w.limit); w.closeFails = c.chance(1, 8);
    int how = c.range(0, 2); if (how == 1) { w.shorts = w.closeFails = false; w.mode = 1; } bool close = how != 0 || c.chance(3, 4); if (!close) w.closeFails = false;
    if (how == 2) { w.closeFails = false; }
    c.label(how == 0 ? "source to callbacks" : how == 1 ? "source to a FILE" : "source to a full device");
    c.note("to " + std::to_string(how) + " limit " + std::to_string((long) w.limit) + " of " + std::to_string(want.size()) + (w.shorts ? " short writes" : "") + (w.closeFails ? " close fails" : "") + " mode " + std::to_string(w.mode) + " " + enc + "\n" + lang + "\n" + s);
    int st;
    if (how == 0) {
        st = srcml_unit_unparse_io(u, &w, out, close ? outClose : nullptr);
        c.eq(std::to_string(w.closes), close ? "1" : "0", "close callback");
    } else if (how == 1) {
        FILE* f = fopencookie(&w, "w", { nullptr, cookieWrite, nullptr, cookieClose }); if (!f) c.discard(); if (c.boolean()) setvbuf(f, nullptr, _IONBF, 0);
        st = srcml_unit_unparse_FILE(u, f); bool all = w.got == want; if (!all && w.limit >= want.size()) c.fail("the FILE is not flushed", about(w, want)); fclose(f);
    } else {
        int kind = c.range(0, 2);
        if (kind == 0) st = srcml_unit_unparse_filename(u, "/dev/full");
        else if (kind == 1) { int fd = open("/dev/full", O_WRONLY); if (fd < 0) c.discard(); st = srcml_unit_unparse_fd(u, fd); close = ::close(fd) == 0; }
        else { FILE* f = fopen("/dev/full", "w"); if (!f) c.discard(); st = srcml_unit_unparse_FILE(u, f); fclose(f); }
        if (want.size()) c.check(st != SRCML_STATUS_OK, "source written to a full device with status OK", std::to_string(kind));
    }
    c.evals(); c.nontrivial(fault || w.shorts || how == 2);
    if (how != 2) {
        c.check(isPrefix(w.got, want), "what is accepted is not the beginning of the source", quote(w.got));
        if (w.got != want) c.check(st != SRCML_STATUS_OK, "source is missing, but the status is OK", about(w, want));
        else if (w.closeFails) c.check(st != SRCML_STATUS_OK, "closing the output failed, but the status is OK");
        else if (!w.fails) c.check(st == SRCML_STATUS_OK, "the source is complete, but the status is not OK", std::to_string(st) + " " + about(w, want));
    }
    m = nullptr; c.check(srcml_unit_unparse_memory(u, &m, &n) == 0, "unparse again"); c.eq(S(m, n), want, "source afterwards"); srcml_memory_free(m); c.evals();
    srcml_unit_free(u); srcml_archive_free(a);
}

// srcML that cannot be written
static void written(Ctx& c) {
    struct U { S lang, s; }; std::vector<U> us; bool sol = c.chance(1, 4); for (int k = sol ? 1 : c.range(0, 5); k > 0; --k) { S l = gen::language(c); us.push_back({ l, big(c, l, 7000) }); }
    Opts o; o.src_encoding = "UTF-8"; S enc = c.pick({ "UTF-8", "UTF-8", "ISO-8859-1", "UTF-16" });
    bool raw = c.chance(1, 8);
    auto run = [&](srcml_archive* a, std::vector<int>* st, std::function<void()> after) {
        for (auto& x : us) {
            srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, x.lang.c_str()); c.check(srcml_unit_parse_memory(u, x.s.data(), x.s.size()) == 0, "parse");
            int k = srcml_archive_write_unit(a, u); if (raw && !k && !sol) k = srcml_archive_write_string(a, "<!-- c -->", 10); if (st) st->push_back(k); after(); srcml_unit_free(u);
        }
        srcml_archive_close(a);
    };
    auto make = [&]() { srcml_archive* a = archive(o); srcml_archive_set_xml_encoding(a, enc.c_str()); if (sol) srcml_archive_enable_solitary_unit(a); return a; };
    srcml_archive* a = make(); char* m = nullptr; size_t n = 0; c.check(srcml_archive_write_open_memory(a, &m, &n) == 0, "open"); run(a, nullptr, [] {}); S want(m, n); srcml_memory_free(m); c.check(srcml_archive_error_number(a) == 0, "error number of a sound archive"); srcml_archive_free(a);
    Out w; w.rnd = c.draw(1 << 20) + 1; w.mode = c.range(0, 1); w.shorts = c.chance(1, 3); bool fault = !c.chance(1, 5); if (fault) limits(c, want.size(), w.limit);
    int how = c.range(0, 2); if (how == 1) { w.shorts = false; w.mode = 1; } bool close = c.chance(3, 4);
    c.label(how == 0 ? "srcML to callbacks" : how == 1 ? "srcML to a FILE" : "srcML to a full device");
    S d = "to " + std::to_string(how) + " limit " + std::to_string((long) w.limit) + " of " + std::to_string(want.size()) + (w.shorts ? " short writes" : "") + " mode " + std::to_string(w.mode) + (raw ? " with raw strings " : " ") + enc + (sol ? " solitary" : "") + "\n"; for (auto& x : us) d += x.lang + " " + quote(x.s) + "\n"; c.note(d);
    c.nontrivial(fault || w.shorts || how == 2);
    a = make(); int fd = -1; FILE* f = nullptr; std::vector<int> st;
    if (how == 0) c.check(srcml_archive_write_open_io(a, &w, out, close ? outClose : nullptr) == 0, "open");
    else if (how == 1) { f = fopencookie(&w, "w", { nullptr, cookieWrite, nullptr, cookieClose }); if (!f) c.discard(); if (c.boolean()) setvbuf(f, nullptr, _IONBF, 0); c.check(srcml_archive_write_open_FILE(a, f) == 0, "open"); }
    else { w.fails = 1000000; if (c.boolean()) c.check(srcml_archive_write_open_filename(a, "/dev/full") == 0, "open"); else { fd = open("/dev/full", O_WRONLY); if (fd < 0) c.discard(); c.check(srcml_archive_write_open_fd(a, fd) == 0, "open"); } }
    int lastFails = 0; bool failed = false;
    run(a, &st, [&] {
        int k = st.back();
        // a failure that the library has seen is reported by the call, and by all later ones
        if (how == 0) { if (w.fails) failed = true; if (failed) c.check(k != SRCML_STATUS_OK, "writing failed, but the status of the unit is OK", std::to_string(st.size())); else c.check(k == SRCML_STATUS_OK, "status of a unit", std::to_string(k)); }
        lastFails = w.fails;
    });
    if (f) fclose(f); if (fd >= 0) ::close(fd); c.evals();
    int e = srcml_archive_error_number(a);
    if (how == 0) c.eq(std::to_string(w.closes), close ? "1" : "0", "close callback");
    if (how != 2) {
        c.check(isPrefix(w.got, want), "what is accepted is not the beginning of the srcML", quote(w.got));
        if (w.got != want) c.check(e != 0, "srcML is missing, but the archive has no error", about(w, want));
        else if (!w.fails) c.check(e == 0, "the srcML is complete, but the archive has an error", about(w, want));
    } else c.check(e != 0, "srcML written to a full device, and the archive has no error");
    // the archive can be used again
    m = nullptr; c.check(srcml_archive_write_open_memory(a, &m, &n) == 0, "open again"); run(a, nullptr, [] {}); c.eq(S(m, n), want, "srcML written again"); srcml_memory_free(m); c.evals();
    srcml_archive_free(a);
}

// srcML that cannot be read
static void readBack(Ctx& c) {
    std::vector<S> want; std::vector<size_t> ends; Opts o; o.src_encoding = "UTF-8"; S body;
    for (int k = c.range(1, 6); k > 0; --k) { S l = gen::language(c); Parsed p = parse(big(c, l, 6000), l, o); if (p.status) c.discard(); S x = p.srcml; x = x.substr(x.find("<unit")); want.push_back(x); }
    S doc = c.boolean() ? "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n" : ""; doc += "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\">\n\n";
    for (auto& x : want) { doc += x; ends.push_back(doc.size()); doc += "\n\n"; } doc += "</unit>\n";
    In r; r.s = doc; r.rnd = c.draw(1 << 20) + 1; r.step = c.pick(std::vector<int>{ 1, 2, 17, 200, 4096, 1 << 20 }); r.least = 16;      // libxml2 looks two characters ahead
    r.once = c.boolean();
    bool fault = !c.chance(1, 5); if (fault) limits(c, doc.size(), r.limit); bool skip = c.chance(1, 4), close = c.chance(3, 4), early = c.chance(1, 6); int how = c.range(0, 1);
    c.label(how ? "srcML from a FILE" : "srcML from callbacks"); c.note((fault ? "failing after " + std::to_string(r.limit) : S("sound")) + " of " + std::to_string(doc.size()) + ", step " + std::to_string(r.step) + "\n" + doc); c.nontrivial(fault || r.step < 4096);
    srcml_archive* a = srcml_archive_create(); FILE* f = nullptr;
    int st; if (how == 0) st = srcml_archive_read_open_io(a, &r, in, close ? inClose : nullptr);
    else { f = fopencookie(&r, "r", { cookieRead, nullptr, nullptr, nullptr }); if (!f) c.discard(); if (c.boolean()) setvbuf(f, nullptr, _IONBF, 0); st = srcml_archive_read_open_FILE(a, f); }
    size_t complete = 0; while (complete < ends.size() && ends[complete] <= r.limit) ++complete;
    size_t k = 0;
    if (st == 0) for (;;) {
        if (early && k == want.size() / 2) break;
        if (skip && k == 0) { if (!srcml_archive_skip_unit(a)) break; ++k; continue; }
        srcml_unit* u = srcml_archive_read_unit(a); if (!u) break;
        if (k >= want.size()) c.fail("units", "more units than there are"); S got = str(srcml_unit_get_srcml(u));
        if (k < complete) c.eq(canonDoc(got), canonDoc(want[k]), "srcML of unit " + std::to_string(k));
        srcml_unit_free(u); ++k; c.evals();
        if (k > want.size() + 2) c.fail("units", "reading does not end");
    }
    if (!early) { if (!fault) c.check(st == 0 && k == want.size(), "units read", std::to_string(k) + " of " + std::to_string(want.size())); else c.check(k >= complete, "units in front of the failure", std::to_string(k) + " of " + std::to_string(complete)); }
    srcml_archive_close(a); if (f) fclose(f); if (how == 0) c.eq(std::to_string(r.closes), close ? "1" : "0", "close callback");
    // the archive can be used again
    c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open again"); for (k = 0; srcml_unit* u = srcml_archive_read_unit(a); ++k) srcml_unit_free(u); c.check(k == want.size(), "units read again", std::to_string(k));
    srcml_archive_free(a); c.evals();
}

// files that cannot be opened
static void unopened(Ctx& c) {
    spec::Scratch dir; S missing = dir.dir + "/none", below = dir.dir + "/none/x.c", d = dir.dir;
    S name = c.pick(std::vector<S>{ missing, below, d, "" }); bool readonly = name == missing;
    int k = c.range(0, 6); c.label("cannot be opened"); c.nontrivial(true);
    srcml_archive* a = srcml_archive_create(); srcml_archive_set_src_encoding(a, "UTF-8"); int st; S what;
    S src = "a;\n", doc = document(src, "C");
    if (k == 0) { srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); what = "parse a file"; st = srcml_unit_parse_filename(u, name.c_str()); c.check(st != 0, what, name); c.check(srcml_archive_write_unit(a, u) != 0, "a unit that was never parsed is written", name); srcml_unit_free(u); }
    else if (k == 1) { if (name == d) { what = "read a directory as srcML"; st = srcml_archive_read_open_filename(a, name.c_str()); c.check(st != 0 || !srcml_archive_read_unit(a), what, name); } else { what = "read a file as srcML"; st = srcml_archive_read_open_filename(a, name.c_str()); c.check(st != 0, what, name); c.check(!srcml_archive_read_unit(a) && srcml_archive_skip_unit(a) == 0, "unit of a file that is not open"); } }
    else if (k == 2 && !readonly) { what = "write srcML to"; st = srcml_archive_write_open_filename(a, name.c_str()); c.check(st != 0, what, name); }
    else if (k == 3 && !readonly) { what = "unparse to"; srcml_archive_read_open_memory(a, doc.data(), doc.size()); srcml_unit* u = srcml_archive_read_unit(a); st = srcml_unit_unparse_filename(u, name.c_str()); c.check(st != 0, what, name); char* m = nullptr; size_t n = 0; c.check(srcml_unit_unparse_memory(u, &m, &n) == 0, "unparse afterwards"); c.eq(S(m, n), src, "source afterwards"); srcml_memory_free(m); srcml_unit_free(u); }
    else if (k == 4) { what = "parse a descriptor that is not open"; srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); st = srcml_unit_parse_fd(u, 987); c.check(st != 0, what); srcml_unit_free(u); }
    else if (k == 5) { what = "unparse to a descriptor that is not open"; srcml_archive_read_open_memory(a, doc.data(), doc.size()); srcml_unit* u = srcml_archive_read_unit(a); st = srcml_unit_unparse_fd(u, c.boolean() ? 987 : -1); c.check(st != 0, what); srcml_unit_free(u); }
    else { what = "srcml() from or to"; S f = dir.dir + "/a.c", g = dir.dir + "/a.xml"; writeFile(f, src); if (c.boolean()) st = srcml(name.c_str(), g.c_str()); else if (readonly) st = 1; else st = srcml(f.c_str(), name.c_str()); c.check(st != 0, what, name); }
    c.note(what + " " + std::to_string(name == missing ? 0 : name == below ? 1 : name == d ? 2 : 3) + " " + std::to_string(c.s->nchoices)); c.evals();
    // the archive is as usable as before
    srcml_archive_close(a); char* m = nullptr; size_t n = 0; c.check(srcml_archive_write_open_memory(a, &m, &n) == 0, "open"); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); c.check(srcml_unit_parse_memory(u, "a;\n", 3) == 0, "parse"); c.check(srcml_archive_write_unit(a, u) == 0, "write"); srcml_unit_free(u); srcml_archive_close(a); S r(m, n); srcml_memory_free(m); Doc t(r); c.check(t.ok() && units(t.root()).size() == 1, "document afterwards", r); srcml_archive_free(a);
}

static void prop(Ctx& c) {
    switch (c.range(0, 8)) { case 0: case 1: source(c); break; case 2: case 3: unparsed(c); break; case 4: case 5: written(c); break; case 6: case 7: readBack(c); break; default: unopened(c); }
}

int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C25"; k.prop = prop; k.quick_cases = 6000; k.thorough_cases = 300000;
    k.rule = "sources and archives are read from, and written to, callbacks, FILEs, and devices that fail after any number of bytes, also for good or once, with short reads and writes, and failing closes, and files that cannot be opened. Non-trivial: something fails or is short";
    return run(k, argc, argv);
}
