// build: tsan
// Archives that are open at the same time do not influence each other, whether used in turn by one thread or by threads of their own.
#include "spec.hpp"
#include <thread>
#include <memory>
using namespace pbt; using namespace api;

// one user of the library: a script of steps over an archive of its own, with a log of everything it sees
struct User {
    int kind; spec::ArchiveSpec s; std::string doc, xpath; std::vector<int> skips;
    std::string log;
    srcml_archive* a = nullptr; srcml_unit* u = nullptr; size_t k = 0; int phase = 0; char* b = nullptr; size_t n = 0;
    static std::string view(srcml_unit* u) {
        std::string r = str(srcml_unit_get_language(u)) + " " + str(srcml_unit_get_filename(u)) + " " + str(srcml_unit_get_version(u)) + " " + str(srcml_unit_get_hash(u)) + " " + std::to_string(srcml_unit_get_loc(u)) + "\n" +
            str(srcml_unit_get_srcml(u)) + "\n" + str(srcml_unit_get_srcml_outer(u)) + "\n" + str(srcml_unit_get_srcml_inner(u)) + "\n";
        char* b = nullptr; size_t n = 0;
        r += std::to_string(srcml_unit_unparse_memory(u, &b, &n)); if (b) { r += std::string(b, n); srcml_memory_free(b); }
        return r;
    }
    bool step() {       // false when done
        switch (kind) {
        case 0:         // writes an archive
            if (phase == 0) { a = spec::create(s); log += "open " + std::to_string(srcml_archive_write_open_memory(a, &b, &n)) + "\n"; phase = 1; return true; }
            if (phase == 1 && k < s.units.size()) { int st = 0; u = spec::unit(a, s.units[k], &st); log += "parse " + std::to_string(st) + "\n" + str(srcml_unit_get_srcml(u)); phase = 2; return true; }
            if (phase == 2) { log += "write " + std::to_string(srcml_archive_write_unit(a, u)) + "\n"; srcml_unit_free(u); u = nullptr; ++k; phase = 1; return true; }
            srcml_archive_close(a); srcml_archive_free(a); a = nullptr;
            log += b ? std::string(b, n) : "(null)"; if (b) srcml_memory_free(b); b = nullptr;
            return false;
        case 1: case 2: // reads an archive; applies a query
            if (phase == 0) { a = srcml_archive_create(); log += "open " + std::to_string(srcml_archive_read_open_memory(a, doc.data(), doc.size())) + " " + str(srcml_archive_get_url(a)) + " " + std::to_string(srcml_archive_is_solitary_unit(a)) + "\n"; if (kind == 2) log += "append " + std::to_string(srcml_append_transform_xpath(a, xpath.c_str())); phase = 1; return true; }
            if (phase == 1) {
                if (k < skips.size() && skips[k]) { log += "skip " + std::to_string(srcml_archive_skip_unit(a)) + "\n"; ++k; return true; }
                u = srcml_archive_read_unit(a); ++k;
                if (!u) { srcml_archive_close(a); srcml_archive_free(a); a = nullptr; log += "end"; return false; }
                phase = 2; return true;
            }
            log += view(u);
            if (kind == 2) {
                srcml_transform_result* t = nullptr;
                log += "transform " + std::to_string(srcml_unit_apply_transforms(a, u, &t));
                if (t) {
                    log += " type " + std::to_string(srcml_transform_get_type(t)) + " number " + std::to_string(srcml_transform_get_number(t)) + " string " + str(srcml_transform_get_string(t));
                    for (int i = 0; i < srcml_transform_get_unit_size(t); ++i) log += "\n" + view(srcml_transform_get_unit(t, i));
                    srcml_transform_free(t);
                }
            }
            srcml_unit_free(u); u = nullptr; phase = 1; return true;
        default:        // copies an archive
            if (phase == 0) { a = srcml_archive_create(); log += "open " + std::to_string(srcml_archive_read_open_memory(a, doc.data(), doc.size())); phase = 1; return true; }
            if (phase == 1) { o = srcml_archive_create(); srcml_archive_disable_solitary_unit(o); log += "open " + std::to_string(srcml_archive_write_open_memory(o, &b, &n)); phase = 2; return true; }
            if (phase == 2) { u = srcml_archive_read_unit(a); if (!u) { srcml_archive_close(a); srcml_archive_free(a); srcml_archive_close(o); srcml_archive_free(o); log += b ? std::string(b, n) : "(null)"; if (b) srcml_memory_free(b); b = nullptr; return false; } phase = 3; return true; }
            log += "write " + std::to_string(srcml_archive_write_unit(o, u)); srcml_unit_free(u); u = nullptr; phase = 2; return true;
        }
    }
    srcml_archive* o = nullptr;
};
static void reset(User& u) { u.log.clear(); u.k = 0; u.phase = 0; u.b = nullptr; u.n = 0; u.a = u.o = nullptr; u.u = nullptr; }

static void prop(Ctx& c) {
    int n = c.range(2, 4); bool threads = c.boolean();
    std::vector<User> us(n); std::string d = threads ? "threads\n" : "in turn\n";
    for (auto& u : us) {
        u.kind = (int) c.draw(4);
        spec::Want w; w.sources = !c.chance(1, 3); u.s = spec::make(c, w);
        u.xpath = c.pick({ "//src:name", "count(//src:*)", "//src:expr", "//src:unit", "string(//src:name)" });
        for (size_t i = 0; i < u.s.units.size(); ++i) u.skips.push_back(c.chance(1, 4));
        d += "user " + std::to_string(u.kind) + " " + u.xpath + " skips"; for (int k : u.skips) d += " " + std::to_string(k); d += "\n" + spec::describe(u.s) + "\n";
        if (u.kind) u.doc = spec::toMemory(u.s);
    }
    std::vector<int> turns;
    if (!threads) { int m = c.range(4, 40); for (int i = 0; i < m; ++i) { turns.push_back((int) c.draw(n)); d += std::to_string(turns.back()) + " "; } }
    c.note(d);
    std::vector<std::string> want;
    for (auto& u : us) { while (u.step()); want.push_back(u.log); reset(u); }
    if (threads) {
        std::vector<std::thread> ts;
        for (auto& u : us) ts.emplace_back([&u] { while (u.step()); });
        for (auto& t : ts) t.join();
    } else {
        std::vector<char> live(n, 1);
        for (int t : turns) if (live[t]) live[t] = us[t].step();
        for (bool any = true; any;) { any = false; for (int i = 0; i < n; ++i) if (live[i]) { live[i] = us[i].step(); any = true; } }
    }
    for (int i = 0; i < n; ++i) { c.eq(us[i].log, want[i], threads ? "threads" : "in-turn", "user " + std::to_string(i)); c.evals(); }
    c.label(threads ? "threads" : "in turn");
    int readers = 0; for (auto& u : us) readers += u.kind != 0;
    if (readers > 1) c.label("several readers");
    c.nontrivial();
}
int main(int argc, char** argv) {
    quietXml(); xmlInitParser();
    if (!getenv("KEEP_ERR") && freopen("/dev/null", "w", stderr) == nullptr) return 2;
    Check k; k.id = "C12"; k.prop = prop; k.quick_cases = 3000; k.thorough_cases = 80000; k.schedules = true; k.cpu_limit = 20; k.wall_limit = 30;
    k.rule = "2 to 4 users, each with an archive of its own that it writes, reads (with skips), queries, or copies; they take turns by a generated schedule of 4 to 40 single steps in one thread, or run in threads; what each sees has to be what it sees alone. Non-trivial: all";
    return run(k, argc, argv);
}
