// Settings of archives and units: a setting is what was set last, for this archive or unit only, and documents depend on nothing else.
#include "spec.hpp"
#include <optional>
using namespace pbt; using namespace api; using spec::opt;

struct M {      // model of the settings of an archive
    opt src, xml, language, url, version; int options = 0; size_t tab = 8; bool solitary = false, hash = true; std::optional<std::pair<std::string, std::string>> pi; size_t rev = SRCDIFF_REVISION_INVALID;
};
struct U { opt language, filename, version, timestamp; size_t eol = 0; };
static std::string o(const opt& v) { return v ? *v : "(null)"; }
static const char* p(const opt& v) { return v ? v->c_str() : nullptr; }
static std::string show(const M& m) { return "src-encoding " + o(m.src) + ", encoding " + o(m.xml) + ", language " + o(m.language) + ", url " + o(m.url) + ", version " + o(m.version) + ", options " + std::to_string(m.options) + ", tabstop " + std::to_string(m.tab) + (m.solitary ? ", solitary" : "") + (m.hash ? ", hash" : "") + ", pi " + (m.pi ? m.pi->first + " " + m.pi->second : "-") + ", revision " + std::to_string(m.rev); }
static std::string show(srcml_archive* a) {
    M m; auto g = [](const char* s) { return s ? opt(s) : opt(); };
    m.src = g(srcml_archive_get_src_encoding(a)); m.xml = g(srcml_archive_get_xml_encoding(a)); m.language = g(srcml_archive_get_language(a)); m.url = g(srcml_archive_get_url(a)); m.version = g(srcml_archive_get_version(a));
    m.options = srcml_archive_get_options(a); m.tab = srcml_archive_get_tabstop(a); m.solitary = srcml_archive_is_solitary_unit(a); m.hash = srcml_archive_has_hash(a); m.rev = srcml_archive_get_srcdiff_revision(a);
    if (srcml_archive_get_processing_instruction_target(a)) m.pi = { { srcml_archive_get_processing_instruction_target(a), str(srcml_archive_get_processing_instruction_data(a)) } };
    return show(m);
}
static std::string showGlobal(const M& like) {
    M m = like; auto g = [](const char* s) { return s ? opt(s) : opt(); };
    m.src = g(srcml_get_src_encoding()); m.xml = g(srcml_get_xml_encoding()); m.language = g(srcml_get_language()); m.url = g(srcml_get_url()); m.version = g(srcml_get_version());
    m.options = srcml_get_options(); m.tab = srcml_get_tabstop(); m.rev = srcml_get_srcdiff_revision(); m.pi.reset();
    if (srcml_get_processing_instruction_target()) m.pi = { { srcml_get_processing_instruction_target(), str(srcml_get_processing_instruction_data()) } };
    return show(m);
}
static std::string show(const U& u) { return "language " + o(u.language) + ", filename " + o(u.filename) + ", version " + o(u.version) + ", timestamp " + o(u.timestamp) + ", eol " + std::to_string(u.eol); }
static std::string show(srcml_unit* u) { U m; auto g = [](const char* s) { return s ? opt(s) : opt(); }; m.language = g(srcml_unit_get_language(u)); m.filename = g(srcml_unit_get_filename(u)); m.version = g(srcml_unit_get_version(u)); m.timestamp = g(srcml_unit_get_timestamp(u)); m.eol = srcml_unit_get_eol(u); return show(m); }

static opt value(Ctx& c) { if (c.chance(1, 5)) return {}; return gen::attrValue(c); }
static opt encoding(Ctx& c) { if (c.chance(1, 4)) return {}; return std::string(c.pick({ "UTF-8", "ISO-8859-1", "UTF-16", "US-ASCII", "utf-8", "latin1" })); }

// the archive after one random setting; a == nullptr: the global one
static std::string setting(Ctx& c, srcml_archive* a, M& m) {
    bool gl = !a; int st = -1, want = 0; std::string d;
    switch (c.range(0, gl ? 10 : 12)) {
    case 0: m.src = encoding(c); d = "src encoding " + o(m.src); st = gl ? srcml_set_src_encoding(p(m.src)) : srcml_archive_set_src_encoding(a, p(m.src)); break;
    case 1: m.xml = encoding(c); d = "encoding " + o(m.xml); st = gl ? srcml_set_xml_encoding(p(m.xml)) : srcml_archive_set_xml_encoding(a, p(m.xml)); break;
    case 2: m.language = c.chance(1, 4) ? opt() : opt(gen::language(c)); d = "language " + o(m.language); st = gl ? srcml_set_language(p(m.language)) : srcml_archive_set_language(a, p(m.language)); break;
    case 3: m.url = value(c); d = "url " + o(m.url); st = gl ? srcml_set_url(p(m.url)) : srcml_archive_set_url(a, p(m.url)); break;
    case 4: m.version = value(c); d = "version " + o(m.version); st = gl ? srcml_set_version(p(m.version)) : srcml_archive_set_version(a, p(m.version)); break;
    case 5: { size_t v = c.range(0, 63) * 2; m.options = v; d = "options " + std::to_string(v); st = gl ? srcml_set_options(v) : srcml_archive_set_options(a, v); break; }
    case 6: { size_t v = c.chance(1, 4) ? c.range(0, 63) * 2 : 2u << c.range(0, 5); m.options |= v; d = "enable " + std::to_string(v); st = gl ? srcml_enable_option(v) : srcml_archive_enable_option(a, v); break; }
    case 7: { size_t v = c.chance(1, 4) ? c.range(0, 63) * 2 : 2u << c.range(0, 5); m.options &= ~(int) v; d = "disable " + std::to_string(v); st = gl ? srcml_disable_option(v) : srcml_archive_disable_option(a, v); break; }
    case 8: m.tab = c.range(1, 12); d = "tabstop " + std::to_string(m.tab); st = gl ? srcml_set_tabstop(m.tab) : srcml_archive_set_tabstop(a, m.tab); break;
    case 9: {
        std::string t = c.pick({ "xml-stylesheet", "a", "target" }), v = gen::attrValue(c); while (v.find("?>") != std::string::npos) v.erase(v.find("?>"), 1);
        if (c.chance(1, 5)) { d = "no pi"; want = SRCML_STATUS_INVALID_ARGUMENT; bool first = c.boolean(); st = gl ? srcml_set_processing_instruction(first ? nullptr : "t", first ? "v" : nullptr) : srcml_archive_set_processing_instruction(a, first ? nullptr : "t", first ? "v" : nullptr); break; }
        m.pi = { { t, v } }; d = "pi " + t + " " + v; st = gl ? srcml_set_processing_instruction(t.c_str(), v.c_str()) : srcml_archive_set_processing_instruction(a, t.c_str(), v.c_str()); break; }
    case 10: { size_t r = c.range(0, 4); if (r > 1) want = SRCML_STATUS_INVALID_ARGUMENT; else m.rev = r; d = "revision " + std::to_string(r); st = gl ? srcml_set_srcdiff_revision(r) : srcml_archive_set_srcdiff_revision(a, r); break; }
    case 11: m.solitary = c.boolean(); d = m.solitary ? "solitary" : "archive"; st = m.solitary ? srcml_archive_enable_solitary_unit(a) : srcml_archive_disable_solitary_unit(a); break;
    case 12: m.hash = c.boolean(); d = m.hash ? "hash" : "no hash"; st = m.hash ? srcml_archive_enable_hash(a) : srcml_archive_disable_hash(a); break;
    }
    c.evals(); c.checkf(st == want, "status", [&] { return d + " gave " + std::to_string(st); });
    return d;
}
static std::string setting(Ctx& c, srcml_unit* u, U& m) {
    int st = -1, want = 0; std::string d;
    switch (c.range(0, 4)) {
    case 0: m.language = c.chance(1, 4) ? opt() : opt(gen::language(c)); d = "language " + o(m.language); st = srcml_unit_set_language(u, p(m.language)); break;
    case 1: m.filename = value(c); d = "filename " + o(m.filename); st = srcml_unit_set_filename(u, p(m.filename)); break;
    case 2: m.version = value(c); d = "version " + o(m.version); st = srcml_unit_set_version(u, p(m.version)); break;
    case 3: m.timestamp = value(c); d = "timestamp " + o(m.timestamp); st = srcml_unit_set_timestamp(u, p(m.timestamp)); break;
    case 4: { size_t e = c.range(0, 5); d = "eol " + std::to_string(e); if (e > 3) want = SRCML_STATUS_INVALID_ARGUMENT; else m.eol = e; st = srcml_unit_set_eol(u, e); break; }
    }
    c.evals(); c.checkf(st == want, "status", [&] { return d + " gave " + std::to_string(st); });
    return d;
}
static srcml_archive* direct(const M& m) {
    srcml_archive* a = srcml_archive_create();
    srcml_archive_set_src_encoding(a, p(m.src)); srcml_archive_set_xml_encoding(a, p(m.xml)); srcml_archive_set_language(a, p(m.language)); srcml_archive_set_url(a, p(m.url)); srcml_archive_set_version(a, p(m.version));
    srcml_archive_set_options(a, m.options); srcml_archive_set_tabstop(a, m.tab); if (m.solitary) srcml_archive_enable_solitary_unit(a); if (!m.hash) srcml_archive_disable_hash(a);
    if (m.pi) srcml_archive_set_processing_instruction(a, m.pi->first.c_str(), m.pi->second.c_str());
    return a;
}
// the document of one unit: status of the parse and the bytes
static std::string make(srcml_archive* a, srcml_unit* u, const std::string& src, int* status) {
    char* out = nullptr; size_t n = 0; if (srcml_archive_write_open_memory(a, &out, &n) != 0) return "(not opened)";
    *status = srcml_unit_parse_memory(u, src.data(), src.size());
    int w = *status == 0 ? srcml_archive_write_unit(a, u) : 0;
    srcml_archive_close(a); std::string r = (w ? "(write " + std::to_string(w) + ")" : "") + (out ? std::string(out, n) : "(null)"); if (out) srcml_memory_free(out);
    return r;
}
static void prop(Ctx& c) {
    std::string d; bool gl = c.chance(1, 6);
    if (gl) { isolated(c, [&] {
        M m; m.hash = true; U u; int k = c.range(1, 20); opt fn, ts; size_t eol = 0;
        for (int i = 0; i < k; ++i) {
            if (c.chance(1, 4)) switch (c.range(0, 2)) { case 0: fn = value(c); c.check(srcml_set_filename(p(fn)) == 0, "filename"); d += "filename " + o(fn) + "\n"; break; case 1: ts = value(c); c.check(srcml_set_timestamp(p(ts)) == 0, "timestamp"); d += "timestamp " + o(ts) + "\n"; break;
                case 2: { size_t e = c.range(0, 4); c.check(srcml_set_eol(e) == (e > 3 ? SRCML_STATUS_INVALID_ARGUMENT : 0), "eol"); if (e < 4) eol = e; d += "eol " + std::to_string(e) + "\n"; break; } }
            else d += setting(c, (srcml_archive*) nullptr, m) + "\n";
            c.eq(showGlobal(m), show(m), "global settings", d); c.eq(str(srcml_get_filename()), o(fn), "global filename", d); c.eq(str(srcml_get_timestamp()), o(ts), "global timestamp", d); c.check(srcml_get_eol() == eol, "global eol", d);
            c.eq(str(srcml_get_revision()), srcml_version_string(), "revision", d);
        }
        srcml_archive* a = srcml_archive_create(); c.eq(show(a), show(M()), "settings of a new archive", d); srcml_archive_free(a);
        c.note("global\n" + d); c.label("global"); c.nontrivial(k > 2);
    }); return; }
    std::vector<std::pair<srcml_archive*, M>> as; as.push_back({ srcml_archive_create(), M() });
    struct UM { srcml_unit* u; U m; size_t of; }; std::vector<UM> us;
    int k = c.range(1, 24);
    auto all = [&] { for (size_t i = 0; i < as.size(); ++i) { c.eq(show(as[i].first), show(as[i].second), "settings of archive", std::to_string(i) + "\n" + d); c.eq(str(srcml_archive_get_revision(as[i].first)), srcml_version_string(), "revision", d); }
        for (size_t i = 0; i < us.size(); ++i) c.eq(show(us[i].u), show(us[i].m), "settings of unit", std::to_string(i) + "\n" + d); c.evals(as.size() + us.size()); };
    bool clones = false;
    for (int i = 0; i < k; ++i) {
        int what = c.range(0, 9);
        if (what == 0 && as.size() < 4) { size_t f = c.draw(as.size()); d += "clone of archive " + std::to_string(f) + "\n"; as.push_back({ srcml_archive_clone(as[f].first), as[f].second }); clones = true; }
        else if (what == 1 && as.size() < 4) { d += "archive\n"; as.push_back({ srcml_archive_create(), M() }); }
        else if (what == 2 && us.size() < 4) { size_t f = c.draw(as.size()); d += "unit of archive " + std::to_string(f) + "\n"; us.push_back({ srcml_unit_create(as[f].first), U(), f }); }
        else if (what == 3 && us.size() && us.size() < 4) { size_t f = c.draw(us.size()); d += "clone of unit " + std::to_string(f) + "\n"; us.push_back({ srcml_unit_clone(us[f].u), us[f].m, us[f].of }); clones = true; }
        else if (what <= 5 && us.size()) { size_t f = c.draw(us.size()); d += "unit " + std::to_string(f) + " "; d += setting(c, us[f].u, us[f].m) + "\n"; }
        else { size_t f = c.draw(as.size()); d += "archive " + std::to_string(f) + " "; d += setting(c, as[f].first, as[f].second) + "\n"; }
        all();
    }
    if (us.empty()) { us.push_back({ srcml_unit_create(as[0].first), U(), 0 }); }
    // documents depend on the settings only
    std::string lang = gen::language(c), src = c.boolean() ? gen::source(c, lang, 1) : c.pick({ "a;", "#define A\na\tb;\n", "#if 0\na\n#else\nb\n#endif\n", "\xC3\xA9;\n" }); c.note(d); c.note(src);
    for (size_t i = 0; i < us.size(); ++i) {
        auto& x = us[i]; const M& m = as[x.of].second; if (m.rev != SRCDIFF_REVISION_INVALID) continue;
        int s1 = -1, s2 = -1, s3 = -1;
        std::string got = make(as[x.of].first, x.u, src, &s1);
        srcml_archive* a = direct(m); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, p(x.m.language)); srcml_unit_set_filename(u, p(x.m.filename)); srcml_unit_set_version(u, p(x.m.version)); srcml_unit_set_timestamp(u, p(x.m.timestamp));
        std::string want = make(a, u, src, &s2);
        c.check(s1 == s2, "parse status", std::to_string(s1) + " " + std::to_string(s2) + "\n" + d);
        c.check((s1 == SRCML_STATUS_UNSET_LANGUAGE) == (!x.m.language && !m.language), "language needed", std::to_string(s1) + "\n" + d);
        c.eq(got, want, "document", d); c.evals();
        if (s1 == 0) {
            Doc t(got); if (t.ok()) { auto v = units(t.root()); c.check((v.size() != 1 || v[0] != t.root()) == !m.solitary, "kind of document", d);
                auto has = [&](xmlNodePtr n, const char* name) { bool h = false; std::string w = attr(n, name, &h); return h ? w : std::string("(null)"); };
                c.eq(has(t.root(), "url"), o(m.url), "url", d); if (v.size() == 1) { c.eq(has(v[0], "filename"), o(x.m.filename), "filename", d); c.eq(has(v[0], "timestamp"), o(x.m.timestamp), "timestamp", d); c.eq(has(v[0], "language"), o(x.m.language ? x.m.language : m.language), "language", d);
                    c.eq(has(v[0], "version"), o(x.m.version), "version of the unit", d); c.check((has(v[0], "hash") != "(null)") == m.hash, "hash", d); if (!m.solitary) c.eq(has(t.root(), "version"), o(m.version), "version of the archive", d); } }
            srcml_unit* again = srcml_unit_clone(x.u); // into the same archive, opened again
            srcml_unit_free(again);
            std::string twice = make(as[x.of].first, x.u, src, &s3); c.check(s3 == 0, "parse again", d); c.eq(twice, got, "archive opened again", d); c.label("document");
        }
        srcml_unit_free(u); srcml_archive_free(a);
    }
    for (size_t i = 0; i < as.size(); ++i) c.eq(show(as[i].first), show(as[i].second), "settings after writing", std::to_string(i) + "\n" + d);
    for (auto& x : us) srcml_unit_free(x.u); for (auto& a : as) srcml_archive_free(a.first);
    if (clones) c.label("clones"); c.nontrivial(k > 3);
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C16"; k.prop = prop; k.quick_cases = 60000; k.thorough_cases = 300000;
    k.rule = "sequences of settings on up to four archives and units, also clones and the global settings, with refused values; after each step every getter of every archive and unit is compared with the model, and documents with those of archives that were set up directly. Non-trivial: more than three steps";
    return run(k, argc, argv);
}
