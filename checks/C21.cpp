// build: asan
// Calls that are refused change nothing: a history of calls with refused ones in it gives what it gives without them.
#include "spec.hpp"
#include <unistd.h>
#include <fcntl.h>
using namespace pbt; using namespace api; typedef std::string S;

enum { SETUP = 1, OPENED = 2, WRITING = 4, WRITTEN1 = 8, BUILDING = 16, BETWEEN = 32, READING = 64, READ = 128, AFTER = 256, CLOSED = 512 };
struct Env {
    srcml_archive* w = nullptr;      // written to
    srcml_archive* r = nullptr;      // read from
    srcml_unit* parsed = nullptr;    // of w, with srcML
    srcml_unit* fresh = nullptr;     // of w, nothing in it
    srcml_unit* built = nullptr;     // of w, started and not ended
    srcml_unit* got = nullptr;       // read from r
    const spec::Scratch* d = nullptr;
    int depth = 0; bool transforms = false;
    S dir(const char* n) const { return d->path(n); }
};
struct Refused { const char* name; int where; std::function<bool(Env&)> call; };     // true: it was refused
static int w3(void*, const char*, int n) { return n; }
static int r3(void*, char*, int) { return 0; }
static ssize_t s3(void*, void*, size_t) { return 0; }
static const int ALL = -1;

static std::vector<Refused> table() {
    std::vector<Refused> t;
    auto add = [&](const char* n, int where, std::function<bool(Env&)> f) { t.push_back({ n, where, f }); };
    // the archive or the unit is missing
#define NUL(x) add(#x " without", ALL, [](Env&) { return (x) != 0; });
#define NOTHING(x) add(#x " without", ALL, [](Env&) { return (x) == 0; });
    static char* buf; static size_t size; static srcml_transform_result* res; static int dummy;
    NUL(srcml_archive_write_unit(nullptr, nullptr)) NUL(srcml_archive_write_string(nullptr, "a", 1)) NUL(srcml_archive_write_open_filename(nullptr, "f")) NUL(srcml_archive_write_open_memory(nullptr, &buf, &size)) NUL(srcml_archive_write_open_FILE(nullptr, stdout)) NUL(srcml_archive_write_open_fd(nullptr, 1)) NUL(srcml_archive_write_open_io(nullptr, &dummy, w3, nullptr))
    NUL(srcml_archive_read_open_filename(nullptr, "f")) NUL(srcml_archive_read_open_memory(nullptr, "<unit/>", 7)) NUL(srcml_archive_read_open_FILE(nullptr, stdin)) NUL(srcml_archive_read_open_fd(nullptr, 0)) NUL(srcml_archive_read_open_io(nullptr, &dummy, r3, nullptr))
    NUL(srcml_archive_enable_solitary_unit(nullptr)) NUL(srcml_archive_disable_solitary_unit(nullptr)) NUL(srcml_archive_enable_hash(nullptr)) NUL(srcml_archive_disable_hash(nullptr)) NUL(srcml_archive_set_xml_encoding(nullptr, "UTF-8")) NUL(srcml_archive_set_src_encoding(nullptr, "UTF-8")) NUL(srcml_archive_set_language(nullptr, "C"))
    NUL(srcml_archive_set_options(nullptr, 1)) NUL(srcml_archive_enable_option(nullptr, 1)) NUL(srcml_archive_disable_option(nullptr, 1)) NUL(srcml_archive_set_tabstop(nullptr, 1)) NUL(srcml_archive_register_file_extension(nullptr, "a", "C")) NUL(srcml_archive_register_namespace(nullptr, "a", "b")) NUL(srcml_archive_set_processing_instruction(nullptr, "a", "b")) NUL(srcml_archive_set_url(nullptr, "a")) NUL(srcml_archive_set_version(nullptr, "a")) NUL(srcml_archive_set_srcdiff_revision(nullptr, 0))
    NOTHING(srcml_archive_clone(nullptr)) NOTHING(srcml_archive_is_solitary_unit(nullptr)) NOTHING(srcml_archive_has_hash(nullptr)) NOTHING(srcml_archive_get_xml_encoding(nullptr)) NOTHING(srcml_archive_get_src_encoding(nullptr)) NOTHING(srcml_archive_get_revision(nullptr)) NOTHING(srcml_archive_get_language(nullptr)) NOTHING(srcml_archive_get_url(nullptr)) NOTHING(srcml_archive_get_version(nullptr)) NOTHING(srcml_archive_get_options(nullptr)) NOTHING(srcml_archive_get_tabstop(nullptr)) NOTHING(srcml_archive_get_namespace_size(nullptr)) NOTHING(srcml_archive_get_namespace_prefix(nullptr, 0)) NOTHING(srcml_archive_get_prefix_from_uri(nullptr, "a")) NOTHING(srcml_archive_get_namespace_uri(nullptr, 0)) NOTHING(srcml_archive_get_uri_from_prefix(nullptr, "a")) NOTHING(srcml_archive_get_processing_instruction_target(nullptr)) NOTHING(srcml_archive_get_processing_instruction_data(nullptr)) NOTHING(srcml_archive_check_extension(nullptr, "a.c")) NOTHING(srcml_archive_read_unit(nullptr)) NOTHING(srcml_archive_skip_unit(nullptr))
    NUL(srcml_append_transform_xpath(nullptr, "//a")) NUL(srcml_append_transform_xpath_attribute(nullptr, "//a", "p", "u", "n", "v")) NUL(srcml_append_transform_xpath_element(nullptr, "//a", "p", "u", "n")) NUL(srcml_append_transform_xslt_filename(nullptr, "f")) NUL(srcml_append_transform_xslt_memory(nullptr, "<a/>", 4)) NUL(srcml_append_transform_xslt_FILE(nullptr, stdin)) NUL(srcml_append_transform_xslt_fd(nullptr, 0)) NUL(srcml_append_transform_relaxng_filename(nullptr, "f")) NUL(srcml_append_transform_relaxng_memory(nullptr, "<a/>", 4)) NUL(srcml_append_transform_relaxng_FILE(nullptr, stdin)) NUL(srcml_append_transform_relaxng_fd(nullptr, 0)) NUL(srcml_append_transform_param(nullptr, "a", "b")) NUL(srcml_append_transform_stringparam(nullptr, "a", "b")) NUL(srcml_clear_transforms(nullptr)) NUL(srcml_unit_apply_transforms(nullptr, nullptr, &res))
    NOTHING(srcml_transform_get_unit_size(nullptr)) NOTHING(srcml_transform_get_unit(nullptr, 0)) NOTHING(srcml_transform_get_string(nullptr)) 
    NOTHING(srcml_unit_create(nullptr)) NOTHING(srcml_unit_clone(nullptr)) NUL(srcml_unit_set_src_encoding(nullptr, "UTF-8")) NUL(srcml_unit_set_language(nullptr, "C")) NUL(srcml_unit_set_filename(nullptr, "a")) NUL(srcml_unit_set_version(nullptr, "a")) NUL(srcml_unit_set_timestamp(nullptr, "a")) NUL(srcml_unit_set_eol(nullptr, 0))
    NOTHING(srcml_unit_get_src_encoding(nullptr)) NOTHING(srcml_unit_get_revision(nullptr)) NOTHING(srcml_unit_get_language(nullptr)) NOTHING(srcml_unit_get_filename(nullptr)) NOTHING(srcml_unit_get_version(nullptr)) NOTHING(srcml_unit_get_timestamp(nullptr)) NOTHING(srcml_unit_get_hash(nullptr)) NUL(srcml_unit_get_loc(nullptr)) NOTHING(srcml_unit_get_eol(nullptr)) NOTHING(srcml_unit_get_srcml(nullptr)) NOTHING(srcml_unit_get_srcml_outer(nullptr)) NOTHING(srcml_unit_get_srcml_inner(nullptr))
    NUL(srcml_unit_parse_filename(nullptr, "a.c")) NUL(srcml_unit_parse_memory(nullptr, "a;", 2)) NUL(srcml_unit_parse_FILE(nullptr, stdin)) NUL(srcml_unit_parse_fd(nullptr, 0)) NUL(srcml_unit_parse_io(nullptr, &dummy, s3, nullptr)) NUL(srcml_unit_unparse_filename(nullptr, "a.c")) NUL(srcml_unit_unparse_memory(nullptr, &buf, &size)) NUL(srcml_unit_unparse_FILE(nullptr, stdout)) NUL(srcml_unit_unparse_fd(nullptr, 1)) NUL(srcml_unit_unparse_io(nullptr, &dummy, w3, nullptr))
    NUL(srcml_write_start_unit(nullptr)) NUL(srcml_write_end_unit(nullptr)) NUL(srcml_write_start_element(nullptr, nullptr, "a", nullptr)) NUL(srcml_write_end_element(nullptr)) NUL(srcml_write_namespace(nullptr, "a", "b")) NUL(srcml_write_attribute(nullptr, nullptr, "a", nullptr, "b")) NUL(srcml_write_string(nullptr, "a"))
    NOTHING(srcml_check_language(nullptr)) NOTHING(srcml_check_language("Cobol")) NOTHING(srcml_check_extension(nullptr)) NOTHING(srcml_check_extension("a.nothing")) NOTHING(srcml_check_extension("")) NOTHING(srcml_check_encoding(nullptr)) NOTHING(srcml_check_encoding("no such encoding")) NOTHING(srcml_get_language_list(1000000))
    NUL(srcml_set_eol(99)) NUL(srcml_register_file_extension(nullptr, "C")) NUL(srcml_register_file_extension("a", nullptr)) NUL(srcml_register_namespace(nullptr, "a")) NUL(srcml_register_namespace("a", nullptr)) NUL(srcml_set_processing_instruction(nullptr, "a")) NUL(srcml_set_processing_instruction("a", nullptr)) NUL(srcml_set_srcdiff_revision(99))
    // nothing to do
    add("free of nothing", ALL, [](Env&) { srcml_archive_free(nullptr); srcml_unit_free(nullptr); srcml_memory_free(nullptr); srcml_archive_close(nullptr); srcml_transform_free(nullptr); return true; });
    // another argument is missing, or not one of those there are
    for (int which = 0; which < 2; ++which) {
        auto A = [which](Env& e) { return which ? e.r : e.w; };
#define ARC(n, x) add(n, ALL, [A](Env& e) { auto a = A(e); if (!a) return true; return (x); });
        ARC("write_unit of nothing", srcml_archive_write_unit(a, nullptr) != 0) ARC("write_string of nothing", srcml_archive_write_string(a, nullptr, 3) != 0) ARC("write_string of negative length", srcml_archive_write_string(a, "a", -1) != 0)
        ARC("write_open_filename without name", srcml_archive_write_open_filename(a, nullptr) != 0) ARC("write_open_memory without buffer", srcml_archive_write_open_memory(a, nullptr, &size) != 0) ARC("write_open_memory without size", srcml_archive_write_open_memory(a, &buf, nullptr) != 0) ARC("write_open_FILE without file", srcml_archive_write_open_FILE(a, nullptr) != 0) ARC("write_open_fd negative", srcml_archive_write_open_fd(a, -1) != 0) ARC("write_open_io without context", srcml_archive_write_open_io(a, nullptr, w3, nullptr) != 0) ARC("write_open_io without write", srcml_archive_write_open_io(a, &dummy, nullptr, nullptr) != 0)
        ARC("write_open_filename in no directory", srcml_archive_write_open_filename(a, e.dir("none/f.xml").c_str()) != 0)
        ARC("read_open_filename without name", srcml_archive_read_open_filename(a, nullptr) != 0) ARC("read_open_memory without buffer", srcml_archive_read_open_memory(a, nullptr, 3) != 0) ARC("read_open_memory of nothing", srcml_archive_read_open_memory(a, "<unit/>", 0) != 0) ARC("read_open_FILE without file", srcml_archive_read_open_FILE(a, nullptr) != 0) ARC("read_open_fd negative", srcml_archive_read_open_fd(a, -1) != 0) ARC("read_open_io without context", srcml_archive_read_open_io(a, nullptr, r3, nullptr) != 0) ARC("read_open_io without read", srcml_archive_read_open_io(a, &dummy, nullptr, nullptr) != 0)
        ARC("read_open_filename of no file", srcml_archive_read_open_filename(a, e.dir("none.xml").c_str()) != 0)
        ARC("register_file_extension without extension", srcml_archive_register_file_extension(a, nullptr, "C") != 0) ARC("register_file_extension without language", srcml_archive_register_file_extension(a, "x", nullptr) != 0) ARC("register_file_extension of no language", srcml_archive_register_file_extension(a, "x", "Cobol") != 0)
        ARC("register_namespace without prefix", srcml_archive_register_namespace(a, nullptr, "urn:x") != 0) ARC("register_namespace without uri", srcml_archive_register_namespace(a, "x", nullptr) != 0) ARC("processing instruction without target", srcml_archive_set_processing_instruction(a, nullptr, "x") != 0) ARC("processing instruction without data", srcml_archive_set_processing_instruction(a, "x", nullptr) != 0) ARC("set_srcdiff_revision of none", srcml_archive_set_srcdiff_revision(a, 99) != 0)
        ARC("namespace past the end", srcml_archive_get_namespace_prefix(a, 1000) == 0 && srcml_archive_get_namespace_uri(a, (size_t) -1) == 0 && srcml_archive_get_namespace_uri(a, srcml_archive_get_namespace_size(a)) == 0 && srcml_archive_get_namespace_prefix(a, srcml_archive_get_namespace_size(a)) == 0) ARC("namespace there is none", srcml_archive_get_prefix_from_uri(a, "urn:none") == 0 && srcml_archive_get_uri_from_prefix(a, "none") == 0 && srcml_archive_get_prefix_from_uri(a, nullptr) == 0 && srcml_archive_get_uri_from_prefix(a, nullptr) == 0) ARC("extension there is none", srcml_archive_check_extension(a, "a.none") == 0)
        ARC("xpath without", srcml_append_transform_xpath(a, nullptr) != 0) ARC("xpath_attribute without xpath", srcml_append_transform_xpath_attribute(a, nullptr, "p", "u", "n", "v") != 0) ARC("xpath_attribute without prefix", srcml_append_transform_xpath_attribute(a, "//src:name", nullptr, "u", "n", "v") != 0) ARC("xpath_attribute without uri", srcml_append_transform_xpath_attribute(a, "//src:name", "p", nullptr, "n", "v") != 0) ARC("xpath_attribute without name", srcml_append_transform_xpath_attribute(a, "//src:name", "p", "u", nullptr, "v") != 0) ARC("xpath_attribute without value", srcml_append_transform_xpath_attribute(a, "//src:name", "p", "u", "n", nullptr) != 0) ARC("xpath_element without", srcml_append_transform_xpath_element(a, "//src:name", "p", "u", nullptr) != 0) ARC("xpath_element without prefix", srcml_append_transform_xpath_element(a, "//src:name", nullptr, "u", "n") != 0) ARC("xpath_element without uri", srcml_append_transform_xpath_element(a, "//src:name", "p", nullptr, "n") != 0)
        ARC("xslt without name", srcml_append_transform_xslt_filename(a, nullptr) != 0) ARC("xslt of no file", srcml_append_transform_xslt_filename(a, e.dir("none.xsl").c_str()) != 0) ARC("xslt without buffer", srcml_append_transform_xslt_memory(a, nullptr, 3) != 0) ARC("xslt of nothing", srcml_append_transform_xslt_memory(a, "<a/>", 0) != 0) ARC("xslt not well-formed", srcml_append_transform_xslt_memory(a, "<a", 2) != 0) ARC("xslt that is not", srcml_append_transform_xslt_memory(a, "<a/>", 4) != 0) ARC("xslt with an error", srcml_append_transform_xslt_memory(a, "<x:stylesheet version='1.0' xmlns:x='http://www.w3.org/1999/XSL/Transform'><x:template/></x:stylesheet>", 102) != 0 || (srcml_clear_transforms(a), false)) ARC("xslt without FILE", srcml_append_transform_xslt_FILE(a, nullptr) != 0) ARC("xslt of negative fd", srcml_append_transform_xslt_fd(a, -1) != 0)
        ARC("relaxng without name", srcml_append_transform_relaxng_filename(a, nullptr) != 0) ARC("relaxng of no file", srcml_append_transform_relaxng_filename(a, e.dir("none.rng").c_str()) != 0) ARC("relaxng without buffer", srcml_append_transform_relaxng_memory(a, nullptr, 3) != 0) ARC("relaxng of nothing", srcml_append_transform_relaxng_memory(a, "<a/>", 0) != 0) ARC("relaxng not well-formed", srcml_append_transform_relaxng_memory(a, "<a", 2) != 0) ARC("relaxng that is not", srcml_append_transform_relaxng_memory(a, "<a/>", 4) != 0) ARC("relaxng without FILE", srcml_append_transform_relaxng_FILE(a, nullptr) != 0) ARC("relaxng of negative fd", srcml_append_transform_relaxng_fd(a, -1) != 0)
        ARC("param without name", srcml_append_transform_param(a, nullptr, "v") != 0) ARC("param without value", srcml_append_transform_param(a, "n", nullptr) != 0) ARC("stringparam without name", srcml_append_transform_stringparam(a, nullptr, "v") != 0) ARC("stringparam without value", srcml_append_transform_stringparam(a, "n", nullptr) != 0)
        add("param without transformation", ALL, [A](Env& e) { auto a = A(e); if (!a || (a == e.r && e.transforms)) return true; return srcml_append_transform_param(a, "n", "1") == SRCML_STATUS_NO_TRANSFORMATION && srcml_append_transform_stringparam(a, "n", "v") == SRCML_STATUS_NO_TRANSFORMATION; });
        ARC("apply_transforms to nothing", srcml_unit_apply_transforms(a, nullptr, &res) != 0)
    }
    // units
    for (int which = 0; which < 4; ++which) {
        auto U = [which](Env& e) { return which == 0 ? e.parsed : which == 1 ? e.fresh : which == 2 ? e.built : e.got; };
#define UNI(n, x) add(n, ALL, [U](Env& e) { auto u = U(e); if (!u) return true; return (x); });
        UNI("set_eol of none", srcml_unit_set_eol(u, 99) == SRCML_STATUS_INVALID_ARGUMENT)
        UNI("parse_filename without name", srcml_unit_parse_filename(u, nullptr) != 0) UNI("parse_filename of no file", srcml_unit_parse_filename(u, e.dir("none.c").c_str()) == SRCML_STATUS_IO_ERROR) UNI("parse_memory without buffer", srcml_unit_parse_memory(u, nullptr, 3) != 0) UNI("parse_FILE without file", srcml_unit_parse_FILE(u, nullptr) != 0) UNI("parse_fd negative", srcml_unit_parse_fd(u, -1) != 0) UNI("parse_io without context", srcml_unit_parse_io(u, nullptr, s3, nullptr) != 0) UNI("parse_io without read", srcml_unit_parse_io(u, &dummy, nullptr, nullptr) != 0)
        UNI("unparse_filename without name", srcml_unit_unparse_filename(u, nullptr) != 0) UNI("unparse_filename in no directory", srcml_unit_unparse_filename(u, e.dir("none/a.c").c_str()) != 0) UNI("unparse_memory without buffer", srcml_unit_unparse_memory(u, nullptr, &size) != 0) UNI("unparse_memory without size", srcml_unit_unparse_memory(u, &buf, nullptr) != 0) UNI("unparse_FILE without file", srcml_unit_unparse_FILE(u, nullptr) != 0) UNI("unparse_fd negative", srcml_unit_unparse_fd(u, -1) != 0) UNI("unparse_io without context", srcml_unit_unparse_io(u, nullptr, w3, nullptr) != 0) UNI("unparse_io without write", srcml_unit_unparse_io(u, &dummy, nullptr, nullptr) != 0)
        UNI("write_start_element without name", srcml_write_start_element(u, nullptr, nullptr, nullptr) != 0) UNI("write_start_element of unit", srcml_write_start_element(u, nullptr, "unit", nullptr) != 0) UNI("write_start_element of an empty name", srcml_write_start_element(u, nullptr, "", nullptr) != 0) UNI("write_namespace without uri", srcml_write_namespace(u, "p", nullptr) != 0) UNI("write_attribute without name", srcml_write_attribute(u, nullptr, nullptr, nullptr, "v") != 0) UNI("write_attribute of an empty name", srcml_write_attribute(u, nullptr, "", nullptr, "v") != 0) UNI("write_attribute without content", srcml_write_attribute(u, nullptr, "n", nullptr, nullptr) != 0) UNI("write_string of nothing", srcml_write_string(u, nullptr) != 0)
        if (which != 2) { UNI("write_end_unit not started", srcml_write_end_unit(u) == SRCML_STATUS_INVALID_INPUT) UNI("write_start_element not started", srcml_write_start_element(u, nullptr, "a", nullptr) == SRCML_STATUS_INVALID_INPUT) UNI("write_end_element not started", srcml_write_end_element(u) == SRCML_STATUS_INVALID_INPUT) UNI("write_namespace not started", srcml_write_namespace(u, "a", "urn:a") == SRCML_STATUS_INVALID_INPUT) UNI("write_attribute not started", srcml_write_attribute(u, nullptr, "a", nullptr, "b") == SRCML_STATUS_INVALID_INPUT) UNI("write_string not started", srcml_write_string(u, "a") == SRCML_STATUS_INVALID_INPUT) }
        if (which == 1 || which == 2) { UNI("get_srcml of none", srcml_unit_get_srcml(u) == 0 && srcml_unit_get_srcml_outer(u) == 0 && srcml_unit_get_srcml_inner(u) == 0) UNI("write_unit of none", !e.w || srcml_archive_write_unit(e.w, u) == SRCML_STATUS_UNINITIALIZED_UNIT) }
        if (which == 0) UNI("unparse of an archive that is written", srcml_unit_unparse_memory(u, &buf, &size) == SRCML_STATUS_INVALID_IO_OPERATION)
        if (which == 0 || which == 3) {
            UNI("write_unit to what is read", !e.r || srcml_archive_write_unit(e.r, u) == SRCML_STATUS_INVALID_IO_OPERATION)
            UNI("parse in no language", ([&] { S l = str(srcml_unit_get_language(u)); srcml_unit_set_language(u, "Cobol"); int k = srcml_unit_parse_memory(u, "a;", 2); srcml_unit_set_language(u, l == "(null)" ? nullptr : l.c_str()); return k == SRCML_STATUS_UNSET_LANGUAGE; })())
        }
        if (which == 0) UNI("parse in no encoding", ([&] { auto q = srcml_unit_clone(u); srcml_unit_set_src_encoding(q, "no such encoding"); int k = srcml_unit_parse_memory(q, "a;", 2); bool none = srcml_unit_get_srcml(q) == 0; srcml_unit_free(q); return k == SRCML_STATUS_INVALID_ARGUMENT && none; })())
    }
    add("read of what is written", WRITING | WRITTEN1 | BUILDING | OPENED | SETUP, [](Env& e) { return !e.w || (srcml_archive_read_unit(e.w) == nullptr && srcml_archive_skip_unit(e.w) == 0); });
    add("read of what is closed", CLOSED, [](Env& e) { return !e.r || (srcml_archive_read_unit(e.r) == nullptr && srcml_archive_skip_unit(e.r) == 0); });
    add("close again", CLOSED | SETUP, [](Env& e) { if (e.w) srcml_archive_close(e.w); if (e.r) srcml_archive_close(e.r); return true; });
    add("write_unit to what is not open", SETUP | CLOSED, [](Env& e) { return !e.w || !e.parsed || srcml_archive_write_unit(e.w, e.parsed) == SRCML_STATUS_INVALID_IO_OPERATION; });
    add("second unit where there is one", WRITTEN1, [](Env& e) { return !e.w || !e.parsed || !srcml_archive_is_solitary_unit(e.w) || srcml_archive_write_unit(e.w, e.parsed) != 0; });
    add("end of an element that is not open", BUILDING, [](Env& e) { return !e.built || e.depth || srcml_write_end_element(e.built) == SRCML_STATUS_INVALID_INPUT; });
    add("attribute after the start tag", BUILDING, [](Env& e) { return !e.built || e.depth || (srcml_write_attribute(e.built, nullptr, "a", nullptr, "b") == SRCML_STATUS_INVALID_INPUT && srcml_write_namespace(e.built, "a", "urn:a") == SRCML_STATUS_INVALID_INPUT); });
    add("transform to a unit with nothing", ALL, [](Env& e) { if (!e.fresh || !e.r || !e.transforms) return true; srcml_transform_result* r = nullptr; bool ok = srcml_unit_apply_transforms(e.r, e.fresh, &r) != 0; srcml_transform_free(r); return ok; });
    return t;
}

// ---- what is seen of an archive and a unit
static S seen(const srcml_archive* a) {
    if (!a) return "no archive";
    S r; auto add = [&](const S& s) { r += s + "|"; };
    add(str(srcml_archive_get_xml_encoding(a))); add(str(srcml_archive_get_src_encoding(a))); add(str(srcml_archive_get_revision(a))); add(str(srcml_archive_get_language(a))); add(str(srcml_archive_get_url(a))); add(str(srcml_archive_get_version(a))); add(std::to_string(srcml_archive_get_options(a))); add(std::to_string(srcml_archive_get_tabstop(a)));
    add(std::to_string(srcml_archive_is_solitary_unit(a)) + std::to_string(srcml_archive_has_hash(a))); add(str(srcml_archive_get_processing_instruction_target(a)) + str(srcml_archive_get_processing_instruction_data(a))); add(std::to_string(srcml_archive_get_srcdiff_revision(a))); add(str(srcml_archive_check_extension(a, "a.x"))); add(str(srcml_archive_check_extension(a, "a.c")));
    for (size_t i = 0; i < srcml_archive_get_namespace_size(a); ++i) add(str(srcml_archive_get_namespace_prefix(a, i)) + "=" + str(srcml_archive_get_namespace_uri(a, i)));
    return r;
}
static S seen(srcml_unit* u) {
    if (!u) return "no unit";
    S r; auto add = [&](const S& s) { r += s + "|"; };
    add(str(srcml_unit_get_src_encoding(u))); add(str(srcml_unit_get_revision(u))); add(str(srcml_unit_get_language(u))); add(str(srcml_unit_get_filename(u))); add(str(srcml_unit_get_version(u))); add(str(srcml_unit_get_timestamp(u))); add(str(srcml_unit_get_hash(u))); add(std::to_string(srcml_unit_get_loc(u))); add(std::to_string(srcml_unit_get_eol(u)));
    add(str(srcml_unit_get_srcml(u))); add(str(srcml_unit_get_srcml_outer(u))); add(str(srcml_unit_get_srcml_inner(u)));
    return r;
}
static S seenGlobal() {
    S r; auto add = [&](const S& s) { r += s + "|"; };
    add(str(srcml_get_src_encoding())); add(str(srcml_get_xml_encoding())); add(str(srcml_get_language())); add(str(srcml_get_filename())); add(str(srcml_get_url())); add(str(srcml_get_version())); add(str(srcml_get_timestamp())); add(std::to_string(srcml_get_options())); add(std::to_string(srcml_get_tabstop())); add(std::to_string(srcml_get_eol())); add(std::to_string(srcml_get_srcdiff_revision())); add(str(srcml_get_processing_instruction_target())); add(str(srcml_check_extension("a.a"))); add(std::to_string(srcml_get_namespace_size()));
    return r;
}

struct Plan {                       // the history, drawn once
    spec::ArchiveSpec s; bool build = false, memory = true; int transform = 0;
    std::vector<int> build_ops; S words;
};
struct Insert { int at; int which; };
struct Runner {
    Ctx& c; const Plan& p; const std::vector<Refused>& t; const std::vector<Insert>* in; bool check;
    Env e; int point = 0; std::vector<S> out; spec::Scratch d;
    Runner(Ctx& c, const Plan& p, const std::vector<Refused>& t, const std::vector<Insert>* in, bool check) : c(c), p(p), t(t), in(in), check(check) { e.d = &d; }
    void status(const char* w, int s) { out.push_back(S(w) + " " + std::to_string(s)); }
    void at(int kind) {
        ++point; if (!in) return;
        for (auto& i : *in) if (i.at == point) {
            auto& r = t[i.which]; if (!(r.where == ALL || (r.where & kind))) continue;
            S a1, a2, u1, u2, u3, u4, g; if (check) { a1 = seen(e.w); a2 = seen(e.r); u1 = seen(e.parsed); u2 = seen(e.fresh); u3 = seen(e.built); u4 = seen(e.got); g = seenGlobal(); }
            bool ok = r.call(e); c.evals(); c.check(ok, S("not refused: ") + r.name);
            if (check) { S k = S(" changed by: ") + r.name; c.eq(seen(e.w), a1, "written archive" + k); c.eq(seen(e.r), a2, "read archive" + k); c.eq(seen(e.parsed), u1, "parsed unit" + k); c.eq(seen(e.fresh), u2, "fresh unit" + k); c.eq(seen(e.built), u3, "built unit" + k); c.eq(seen(e.got), u4, "read unit" + k); c.eq(seenGlobal(), g, "settings" + k); }
        }
    }
    void go() {
        S doc; char* buf = nullptr; size_t size = 0;
        e.w = spec::create(p.s); e.fresh = srcml_unit_create(e.w); at(SETUP);
        { e.parsed = spec::unit(e.w, p.s.units[0]); at(SETUP); srcml_unit_free(e.parsed); e.parsed = nullptr; }
        if (p.memory) status("open", srcml_archive_write_open_memory(e.w, &buf, &size)); else status("open", srcml_archive_write_open_filename(e.w, d.path("a.xml").c_str()));
        at(OPENED);
        for (size_t i = 0; i < p.s.units.size(); ++i) {
            int st = 0; e.parsed = spec::unit(e.w, p.s.units[i], &st); status("parse", st); at(i ? WRITING : OPENED);
            status("write", srcml_archive_write_unit(e.w, e.parsed)); at(WRITING | WRITTEN1); out.push_back(seen(e.parsed));
            srcml_unit_free(e.parsed); e.parsed = nullptr;
        }
        if (p.build) {
            e.built = srcml_unit_create(e.w); srcml_unit_set_language(e.built, "C++"); status("start", srcml_write_start_unit(e.built)); at(BUILDING);
            for (int o : p.build_ops) {
                switch (o) {
                case 0: status("element", srcml_write_start_element(e.built, nullptr, "name", nullptr)); ++e.depth; break;
                case 1: status("element", srcml_write_start_element(e.built, "x", "thing", "urn:x")); ++e.depth; break;
                case 2: status("attribute", srcml_write_attribute(e.built, nullptr, "at", nullptr, p.words.c_str())); break;
                case 3: status("namespace", srcml_write_namespace(e.built, "n", "urn:n")); break;
                case 4: status("string", srcml_write_string(e.built, p.words.c_str())); break;
                default: if (e.depth) { status("end", srcml_write_end_element(e.built)); --e.depth; } break;
                }
                at(BUILDING);
            }
            status("end", srcml_write_end_unit(e.built)); e.depth = 0; out.push_back(seen(e.built)); status("write", srcml_archive_write_unit(e.w, e.built)); srcml_unit_free(e.built); e.built = nullptr; at(WRITING);
        }
        srcml_archive_close(e.w); at(CLOSED); srcml_unit_free(e.fresh); e.fresh = nullptr; srcml_archive_free(e.w); e.w = nullptr;
        doc = p.memory ? S(buf ? buf : "", size) : readFile(d.path("a.xml")); srcml_memory_free(buf); out.push_back(doc);
        // read
        e.r = srcml_archive_create(); srcml_archive_set_src_encoding(e.r, "UTF-8"); e.fresh = srcml_unit_create(e.r); at(BETWEEN);
        status("open", srcml_archive_read_open_memory(e.r, doc.data(), doc.size())); at(READING);
        if (p.transform & 1) { status("xpath", srcml_append_transform_xpath(e.r, "//src:name")); e.transforms = true; at(READING); }
        if (p.transform & 2) { status("attribute", srcml_append_transform_xpath_attribute(e.r, "//src:name", "x", "urn:x", "a", "v")); e.transforms = true; at(READING); }
        for (int n = 0; n < 20; ++n) {
            if (p.transform & 8 && n == 1) { status("skip", srcml_archive_skip_unit(e.r)); at(READING); }
            e.got = srcml_archive_read_unit(e.r); if (!e.got) break;
            at(READ);
            if (e.transforms) { srcml_transform_result* r = nullptr; status("apply", srcml_unit_apply_transforms(e.r, e.got, &r)); if (r) { at(READ); out.push_back(std::to_string(srcml_transform_get_type(r))); int k = srcml_transform_get_unit_size(r); c.check(srcml_transform_get_unit(r, k) == nullptr && srcml_transform_get_unit(r, -1) == nullptr && srcml_transform_get_unit(r, k + 5) == nullptr, "result past the end"); for (int i = 0; i < k; ++i) out.push_back(seen(srcml_transform_get_unit(r, i))); srcml_transform_free(r); } }
            char* b = nullptr; size_t z = 0; int st = srcml_unit_unparse_memory(e.got, &b, &z); status("unparse", st); if (!st) out.push_back(S(b, z)); srcml_memory_free(b);
            out.push_back(seen(e.got)); at(READ); srcml_unit_free(e.got); e.got = nullptr; at(READING);
        }
        out.push_back(seen(e.r)); srcml_archive_close(e.r); at(CLOSED); srcml_unit_free(e.fresh); e.fresh = nullptr; srcml_archive_free(e.r); e.r = nullptr;
    }
};
static const std::vector<Refused>& refused() { static const std::vector<Refused> t = table(); return t; }

static void prop(Ctx& c) {
    isolated(c, [&] {
        int null = open("/dev/null", O_WRONLY); if (null >= 0) { dup2(null, 2); close(null); }
        Plan p; spec::Want w; w.maxUnits = 3; p.s = spec::make(c, w); p.memory = c.chance(3, 4); if (p.s.solitary && p.s.units.size() > 1) p.s.units.resize(1);
        p.build = !p.s.solitary && c.chance(1, 2); if (p.build) { int k = c.range(0, 6); for (int i = 0; i < k; ++i) p.build_ops.push_back(c.draw(6)); p.words = c.pick({ "a", "x < y", "", "\"q\" & 'r'" }); }
        p.transform = c.chance(1, 3) ? c.range(1, 15) : c.boolean() ? 0 : 8;
        auto& t = refused();
        Runner a(c, p, t, nullptr, false); a.go();
        int n = c.range(1, 12); std::vector<Insert> in; S say; for (int i = 0; i < n; ++i) { in.push_back({ c.range(1, a.point), (int) c.draw(t.size()) }); say += "  at " + std::to_string(in.back().at) + ": " + t[in.back().which].name + "\n"; }
        bool check = c.boolean(); c.note(spec::describe(p.s) + (p.build ? " with a built unit" : "") + (p.transform ? " transform " + std::to_string(p.transform) : S()) + (check ? "" : " (ends compared only)") + "\n" + say);
        Runner b(c, p, t, &in, check); b.go();
        for (size_t i = 0; i < a.out.size() && i < b.out.size(); ++i) c.eq(b.out[i], a.out[i], "result");
        c.check(a.out.size() == b.out.size(), "number of results", std::to_string(b.out.size()) + " want " + std::to_string(a.out.size()));
        for (auto& i : in) c.label(S("kind ") + (t[i.which].where == ALL ? "missing or unknown argument" : "call out of turn"));
        if (p.build) c.label("built unit"); if (p.transform & 7) c.label("transformation"); c.nontrivial();
    });
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C21"; k.prop = prop; k.quick_cases = 4000; k.thorough_cases = 60000;
    k.rule = "one process per case, with AddressSanitizer: a drawn archive is written, read back and transformed, once as it is, and once with 1 to 12 calls in it, at drawn points, that have to be refused; non-trivial: all that have both runs";
    // every refused call, at every point of one history
    k.directed = { { "every-call", "every refused call at every point of a history", [](Ctx& c) {
        auto& t = refused(); Plan p; p.s.units = { { "C++", "int a;\n", "a.cpp", {}, {} }, { "C", "b;", {}, {}, {} } }; p.build = true; p.build_ops = { 0, 2, 4, 1, 3, 5, 5, 4 }; p.words = "w"; p.transform = 3;
        int points = 0; isolated(c, [&] { Runner a(c, p, t, nullptr, false); a.go(); }); { Runner a(c, p, t, nullptr, false); a.go(); points = a.point; }
        for (int q = 1; q <= points; ++q) isolated(c, [&] { int null = open("/dev/null", O_WRONLY); if (null >= 0) { dup2(null, 2); close(null); }
            Runner a(c, p, t, nullptr, false); a.go(); std::vector<Insert> in; for (size_t i = 0; i < t.size(); ++i) in.push_back({ q, (int) i });
            Runner b(c, p, t, &in, true); b.go(); for (size_t i = 0; i < a.out.size() && i < b.out.size(); ++i) c.eq(b.out[i], a.out[i], "result"); c.check(a.out.size() == b.out.size(), "number of results", "at point " + std::to_string(q)); });
    } } };
    return run(k, argc, argv);
}
