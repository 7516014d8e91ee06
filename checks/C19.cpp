// srcDiff: with a revision selected, every view of a unit is that of the revision, as if only it had been there.
#include "spec.hpp"
using namespace pbt; using namespace api; typedef std::string S;

struct Node { int kind = 0; S text, attrs; std::vector<Node> in; };      // 0 text, 1 element, 2 original only, 3 modified only, 4 both, 5 escape
static const char* const NAMES[] = { "expr", "name", "block", "expr_stmt", "literal", "comment", "operator" };
static S esc(const S& s) { S r; for (char x : s) r += x == '&' ? S("&amp;") : x == '<' ? "&lt;" : x == '>' ? "&gt;" : S(1, x); return r; }

static std::vector<Node> content(Ctx& c, int d) {
    std::vector<Node> r; int k = c.range(0, d > 2 ? 4 : 3);
    while (k-- > 0) {
        Node n; n.kind = d <= 0 ? 0 : c.pick(std::vector<int>{ 0, 0, 1, 1, 2, 3, 4, 5 });
        if (n.kind == 0) n.text = c.pick({ "a", " ", "\n", "x < y", "b && c", "diff:insert", "\"q\"", "\t", "\xc3\xa9", "insert", "a > b", "]", "/" });
        else if (n.kind == 1) { n.text = NAMES[c.draw(7)]; if (c.chance(1, 4)) n.attrs = c.pick({ " type=\"number\"", " type=\"a &lt; b\"", " type=\"diff:delete\"", " type=\"/\"" }); }
        else if (n.kind == 5) n.text = c.pick({ "0x1", "0xc", "0x1f" });
        else if (n.kind != 5) n.attrs = c.pick({ "", "", " type=\"replace\"", " type=\"whitespace\"", " move=\"1\"" });
        if (n.kind >= 1 && n.kind <= 4) n.in = content(c, d - 1);
        r.push_back(n);
    }
    return r;
}
// markup with the diff elements (revision -1) or of one revision
static S markup(const std::vector<Node>& v, int rev, int mode = 4) {
    S r; bool seen = rev < 0 || mode == 4 || (mode == 2 && rev == 0) || (mode == 3 && rev == 1);
    for (auto& n : v) switch (n.kind) {
    case 0: if (seen) r += esc(n.text); break;
    case 5: if (seen) r += "<escape char=\"" + n.text + "\"/>"; break;
    case 1: { S in = markup(n.in, rev, mode); if (!seen) r += in; else r += "<" + n.text + n.attrs + (in.empty() && rev < 0 ? "/>" : ">" + in + "</" + n.text + ">"); break; }
    default: { S in = markup(n.in, rev, n.kind); S w = n.kind == 2 ? "diff:delete" : n.kind == 3 ? "diff:insert" : "diff:common"; if (rev < 0) r += "<" + w + n.attrs + (in.empty() ? "/>" : ">" + in + "</" + w + ">"); else r += in; }
    }
    return r;
}
static S source(const std::vector<Node>& v, int rev, int mode = 4) {
    S r; bool seen = rev < 0 || mode == 4 || (mode == 2 && rev == 0) || (mode == 3 && rev == 1);
    for (auto& n : v) { if (n.kind == 0) { if (seen) r += n.text; } else if (n.kind == 5) { if (seen) r += (char) strtol(n.text.c_str(), nullptr, 0); } else r += source(n.in, rev, n.kind == 1 ? mode : n.kind); }
    return r;
}
static bool has(const std::vector<Node>& v, int k) { for (auto& n : v) if (n.kind == k || has(n.in, k)) return true; return false; }
static S both(Ctx& c, S& a, S& b) { a = c.pick({ "a.cpp", "x/y.c", "1", "v 2" }); b = c.pick({ "b.cpp", "z.c", "2", "", a.c_str() }); if (c.boolean()) { b = a; return a; } return a + "|" + b; }

struct U { std::vector<Node> in; S file, fa, fb, ver, va, vb; };
static void prop(Ctx& c) {
    bool solitary = c.chance(1, 3); int k = solitary ? 1 : c.range(1, 3); std::vector<U> us;
    for (int i = 0; i < k; ++i) { U u; u.in = content(c, c.range(1, 4)); if (c.chance(1, 2)) u.file = both(c, u.fa, u.fb); if (c.chance(1, 3)) u.ver = both(c, u.va, u.vb); us.push_back(u); }
    auto attrs = [&](const U& u, int rev) { S r; if (!u.file.empty()) r += " filename=\"" + (rev < 0 ? u.file : rev ? u.fb : u.fa) + "\""; if (!u.ver.empty()) r += " version=\"" + (rev < 0 ? u.ver : rev ? u.vb : u.va) + "\""; return r; };
    // the document, and what it would be if only the revision had been there
    auto document = [&](int rev) {
        S ns = S(" xmlns=\"") + SRC_NS + "\"" + (rev < 0 ? S(" xmlns:diff=\"") + DIFF_NS + "\"" : S()); S r = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";
        auto unit = [&](const U& u, const S& n) { S in = markup(u.in, rev); return "<unit" + n + " revision=\"1.0.0\" language=\"C++\"" + attrs(u, rev) + (in.empty() ? "/>" : ">" + in + "</unit>"); };
        if (solitary) return r + unit(us[0], ns) + "\n";
        r += "<unit" + ns + " revision=\"1.0.0\">\n\n"; for (auto& u : us) r += unit(u, "") + "\n\n"; return r + "</unit>\n";
    };
    S doc = document(-1); c.note(doc);
    std::vector<int> revs; int n = c.range(1, 3); for (int i = 0; i < n; ++i) revs.push_back(c.range(-1, 1));       // -1: not selected (only at first)
    bool different = false, seenAny = false;
    for (int rev = 0; rev < 2; ++rev) {
        // every unit by itself
        auto a = srcml_archive_create(); srcml_archive_set_src_encoding(a, "UTF-8"); bool early = c.boolean();
        if (early) c.check(srcml_archive_set_srcdiff_revision(a, rev) == 0, "select");
        c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open");
        if (!early) c.check(srcml_archive_set_srcdiff_revision(a, rev) == 0, "select");
        c.check(srcml_archive_get_srcdiff_revision(a) == (size_t) rev, "selected");
        auto w = srcml_archive_create(); if (solitary) srcml_archive_enable_solitary_unit(w); else srcml_archive_disable_solitary_unit(w); srcml_archive_disable_hash(w); char* buf = nullptr; size_t size = 0; c.check(srcml_archive_write_open_memory(w, &buf, &size) == 0, "open for writing");
        for (size_t i = 0; i < us.size(); ++i) {
            auto u = srcml_archive_read_unit(a); c.check(u != nullptr, "unit is missing"); if (!u) return;
            for (int r : revs) {            // also selected otherwise in between
                if (r >= 0 && c.boolean()) srcml_archive_set_srcdiff_revision(a, r); else r = rev, srcml_archive_set_srcdiff_revision(a, rev);
                S m = markup(us[i].in, r), s = source(us[i].in, r);
                for (int v = 0; v < 4; ++v) switch (c.draw(4)) {
                case 0: { Doc x("<unit xmlns=\"" + S(SRC_NS) + "\" xmlns:diff=\"" + DIFF_NS + "\">" + str(srcml_unit_get_srcml_inner(u)) + "</unit>"), y("<unit xmlns=\"" + S(SRC_NS) + "\">" + m + "</unit>"); c.check(x.ok(), "inner view is not well-formed", str(srcml_unit_get_srcml_inner(u))); c.eq(canon(x.root()), canon(y.root()), "inner view"); break; }
                case 1: { S o = str(srcml_unit_get_srcml_outer(u)); Doc x(o); c.check(x.ok(), "outer view is not well-formed", o); S in; for (auto q = x.root()->children; q; q = q->next) in += canon(q); Doc y("<unit>" + m + "</unit>"); S want; for (auto q = y.root()->children; q; q = q->next) want += canon(q); c.eq(in, want, "outer view"); break; }
                case 2: { S o = str(srcml_unit_get_srcml(u)); Doc x(o); c.check(x.ok(), "srcML is not well-formed", o); S in; for (auto q = x.root()->children; q; q = q->next) in += canon(q); Doc y("<unit xmlns=\"" + S(SRC_NS) + "\">" + m + "</unit>"); S want; for (auto q = y.root()->children; q; q = q->next) want += canon(q); c.eq(in, want, "srcML"); break; }
                default: { char* b = nullptr; size_t z = 0; c.check(srcml_unit_unparse_memory(u, &b, &z) == 0, "unparse"); c.eq(S(b ? b : "", z), s, "source"); srcml_memory_free(b); }
                }
                c.evals(4);
            }
            srcml_archive_set_srcdiff_revision(a, rev); c.check(srcml_archive_write_unit(w, u) == 0, "write"); srcml_unit_free(u);
            different |= markup(us[i].in, 0) != markup(us[i].in, 1); seenAny |= has(us[i].in, 2) || has(us[i].in, 3) || has(us[i].in, 4);
        }
        c.check(srcml_archive_read_unit(a) == nullptr, "unit too many"); srcml_archive_close(a); srcml_archive_free(a); srcml_archive_close(w); srcml_archive_free(w); S got(buf ? buf : "", size); srcml_memory_free(buf);
        c.eq(canonDoc(got), canonDoc(document(rev)), "document of the revision");
        c.check(got.find(DIFF_NS) == S::npos, "document of a revision with the namespace of srcDiff", got);
    }
    // without a revision everything is there
    { auto a = srcml_archive_create(); srcml_archive_set_src_encoding(a, "UTF-8"); c.check(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "open"); c.check(srcml_archive_get_srcdiff_revision(a) == SRCDIFF_REVISION_INVALID, "selected without");
      for (auto& q : us) { auto u = srcml_archive_read_unit(a); c.check(u != nullptr, "unit is missing"); if (!u) return; char* b = nullptr; size_t z = 0; c.check(srcml_unit_unparse_memory(u, &b, &z) == 0, "unparse"); c.eq(S(b ? b : "", z), source(q.in, -1), "source without a revision"); srcml_memory_free(b); srcml_unit_free(u); }
      srcml_archive_close(a); srcml_archive_free(a); }
    if (different) c.nontrivial(), c.label("revisions differ"); if (seenAny) c.label("diff elements"); if (!solitary) c.label("archive");
}
static std::function<void(Ctx&)> fixed(const char* in, S i0, S i1, S s0, S s1) {
    return [=](Ctx& c) { S doc = S("<unit xmlns=\"") + SRC_NS + "\" xmlns:diff=\"" + DIFF_NS + "\" revision=\"1.0.0\" language=\"C++\">" + in + "</unit>"; c.note(doc);
        for (int rev = 0; rev < 2; ++rev) { auto a = srcml_archive_create(); srcml_archive_set_src_encoding(a, "UTF-8"); srcml_archive_set_srcdiff_revision(a, rev); srcml_archive_read_open_memory(a, doc.data(), doc.size()); auto u = srcml_archive_read_unit(a); c.check(u, "unit"); c.eq(str(srcml_unit_get_srcml_inner(u)), rev ? i1 : i0, "inner view"); char* b = nullptr; size_t z = 0; c.check(srcml_unit_unparse_memory(u, &b, &z) == 0, "unparse"); c.eq(S(b ? b : "", z), rev ? s1 : s0, "source"); srcml_memory_free(b); srcml_unit_free(u); srcml_archive_free(a); } };
}
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C19"; k.prop = prop; k.quick_cases = 16000; k.thorough_cases = 200000;
    k.rule = "srcDiff documents with nested common, deleted, and inserted parts, read with each revision selected before or after opening, and again in between; non-trivial: the two revisions of some unit differ";
    k.directed = {
        { "text-after-the-last-tag", "text after the last tag", fixed("<diff:delete>a</diff:delete>b;\n", "ab;\n", "b;\n", "ab;\n", "b;\n") },
        { "empty-diff-element", "an empty element of srcDiff", fixed("<name>a</name><diff:insert/><name>b</name>", "<name>a</name><name>b</name>", "<name>a</name><name>b</name>", "ab", "ab") },
        { "common-in-inserted", "what is common in what is inserted", fixed("<diff:insert><block>{<diff:common>a</diff:common>}</block></diff:insert>", "a", "<block>{a}</block>", "a", "{a}") },
    };
    return run(k, argc, argv);
}
