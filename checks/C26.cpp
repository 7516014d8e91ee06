// Markup: programs made together with their expected srcML.
#include "markup.hpp"
#include <string>
using namespace pbt; using namespace api;
using S = std::string;
static void prop(Ctx& c) {
    std::string lang = gen::language(c); markup::Gen g(c, lang); g.fuel = c.chance(1, 4) ? 150 : 50;
    std::string m = g.program(c.range(1, 4));
    int style = c.range(0, 3); bool comments = style == 1 && c.chance(1, 3);
    std::string src = markup::source(c, m, style, comments);
    c.note(lang + "\n" + src);
    Parsed p = parse(src, lang); c.check(p.status == 0, "status"); c.evals();
    Doc t(p.srcml); c.check(t.ok(), "well-formed", t.error);
    std::string got; markup::tightNode(t.root(), got, !comments);
    std::string want = markup::tight(m);
    if (comments) { Doc w("<unit xmlns:cpp=\"http://www.srcML.org/srcML/cpp\">" + want + "</unit>"); want.clear(); markup::tightNode(w.root(), want, false); }
    else { Doc w("<unit xmlns:cpp=\"http://www.srcML.org/srcML/cpp\">" + want + "</unit>"); if (!w.ok()) c.fail("model", w.error + want); want.clear(); markup::tightNode(w.root(), want, true); }
    c.eq(got, want, "markup " + lang, src);
    for (auto& s : g.seen) c.label(s);
    c.nontrivial(src.size() > 20 && g.seen.size() > 1);
}
// one fixed program: expected elements as source with marks, checked by comparing the markup without white space
static void expect(Ctx& c, const char* lang, const char* src, const char* want) {
    c.note(S(lang) + "\n" + src); Parsed p = parse(src, lang); c.check(p.status == 0, "status");
    Doc t(p.srcml); c.check(t.ok(), "well-formed", t.error);
    S got; markup::tightNode(t.root(), got, true); Doc w(S("<unit xmlns:cpp=\"http://www.srcML.org/srcML/cpp\">") + want + "</unit>"); S x; markup::tightNode(w.root(), x, true);
    c.eq(got, x, "markup", src); c.nontrivial(true);
}
static const struct { const char *key, *lang, *src, *want; } TABLE[] = {
    { "lambda-argument", "Java", R"x(class A { int x = f(a -> b, 1), y; })x",
      R"x(<class>class <name>A</name> <block>{ <decl_stmt><decl><type><name>int</name></type> <name>x</name> <init>= <expr><call><name>f</name><argument_list>(<argument><expr><lambda><parameter_list type="pseudo"><parameter><decl><name>a</name></decl></parameter></parameter_list> -&gt;<block type="pseudo"><block_content> <expr><name>b</name></expr></block_content></block></lambda></expr></argument>, <argument><expr><literal type="number">1</literal></expr></argument>)</argument_list></call></expr></init></decl>, <decl><type ref="prev"/><name>y</name></decl>;</decl_stmt> }</block></class>)x" },
    { "lambda-condition", "C++", R"x(void f() { if (any(b, [&](A& a){ int z; return z; })) x; })x",
      R"x(<function><type><name>void</name></type> <name>f</name><parameter_list>()</parameter_list> <block>{<block_content> <if_stmt><if>if <condition>(<expr><call><name>any</name><argument_list>(<argument><expr><name>b</name></expr></argument>, <argument><expr><lambda><capture>[<argument><modifier>&amp;</modifier></argument>]</capture><parameter_list>(<parameter><decl><type><name>A</name><modifier>&amp;</modifier></type> <name>a</name></decl></parameter>)</parameter_list><block>{<block_content> <decl_stmt><decl><type><name>int</name></type> <name>z</name></decl>;</decl_stmt> <return>return <expr><name>z</name></expr>;</return> </block_content>}</block></lambda></expr></argument>)</argument_list></call></expr>)</condition><block type="pseudo"><block_content> <expr_stmt><expr><name>x</name></expr>;</expr_stmt></block_content></block></if></if_stmt> </block_content>}</block></function>)x" },
    { "constructor-after-nested-class", "C++", R"x(class A { class B { }; A(); };)x",
      R"x(<class>class <name>A</name> <block>{<private type="default"> <class>class <name>B</name> <block>{<private type="default"> </private>}</block>;</class> <constructor_decl><name>A</name><parameter_list>()</parameter_list>;</constructor_decl> </private>}</block>;</class>)x" },
    { "default-with-calls", "C++", R"x(void f(int a = g(h(1, 2), 3), int b) { })x",
      R"x(<function><type><name>void</name></type> <name>f</name><parameter_list>(<parameter><decl><type><name>int</name></type> <name>a</name> <init>= <expr><call><name>g</name><argument_list>(<argument><expr><call><name>h</name><argument_list>(<argument><expr><literal type="number">1</literal></expr></argument>, <argument><expr><literal type="number">2</literal></expr></argument>)</argument_list></call></expr></argument>, <argument><expr><literal type="number">3</literal></expr></argument>)</argument_list></call></expr></init></decl></parameter>, <parameter><decl><type><name>int</name></type> <name>b</name></decl></parameter>)</parameter_list> <block>{<block_content> </block_content>}</block></function>)x" },
    { "complement-ternary", "C++", R"x(int a = ~b ? c : d;)x",
      R"x(<decl_stmt><decl><type><name>int</name></type> <name>a</name> <init>= <expr><ternary><condition><expr><operator>~</operator><name>b</name></expr> ?</condition><then> <expr><name>c</name></expr> </then><else>: <expr><name>d</name></expr></else></ternary></expr></init></decl>;</decl_stmt>)x" },
    { "member-call-is-no-constructor", "C#", R"x(class A { void f() { a.a(); } })x",
      R"x(<class>class <name>A</name> <block>{ <function><type><name>void</name></type> <name>f</name><parameter_list>()</parameter_list> <block>{<block_content> <expr_stmt><expr><call><name><name>a</name><operator>.</operator><name>a</name></name><argument_list>()</argument_list></call></expr>;</expr_stmt> </block_content>}</block></function> }</block></class>)x" },
    { "lambda-ternary-body", "Java", R"x(class A { int z = f(a -> b ? c : d, e); })x",
      R"x(<class>class <name>A</name> <block>{ <decl_stmt><decl><type><name>int</name></type> <name>z</name> <init>= <expr><call><name>f</name><argument_list>(<argument><expr><lambda><parameter_list type="pseudo"><parameter><decl><name>a</name></decl></parameter></parameter_list> -&gt;<block type="pseudo"><block_content> <expr><ternary><condition><expr><name>b</name></expr> ?</condition><then> <expr><name>c</name></expr> </then><else>: <expr><name>d</name></expr></else></ternary></expr></block_content></block></lambda></expr></argument>, <argument><expr><name>e</name></expr></argument>)</argument_list></call></expr></init></decl>;</decl_stmt> }</block></class>)x" },
    { "lambda-in-parentheses", "C#", R"x(class A { void f() { if ((a => b) + 1) d; } })x",
      R"x(<class>class <name>A</name> <block>{ <function><type><name>void</name></type> <name>f</name><parameter_list>()</parameter_list> <block>{<block_content> <if_stmt><if>if <condition>(<expr><operator>(</operator><lambda><parameter_list type="pseudo"><parameter><decl><name>a</name></decl></parameter></parameter_list> =&gt;<block type="pseudo"><block_content> <expr><name>b</name></expr></block_content></block></lambda><operator>)</operator> <operator>+</operator> <literal type="number">1</literal></expr>)</condition><block type="pseudo"><block_content> <expr_stmt><expr><name>d</name></expr>;</expr_stmt></block_content></block></if></if_stmt> </block_content>}</block></function> }</block></class>)x" },
};
int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C26"; k.prop = prop; k.quick_cases = 60000; k.thorough_cases = 1000000;
    k.rule = "programs of C, C++, C#, Java and Objective-C generated as trees together with their markup and rendered with drawn white space and comments; non-trivial: over 20 bytes and at least two kinds of construct besides declarations and expression statements";
    for (auto& t : TABLE) k.directed.push_back({t.key, t.src, [&t](Ctx& c) { expect(c, t.lang, t.src, t.want); }});
    return run(k, argc, argv);
}
