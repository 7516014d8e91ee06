// Programs with their expected markup. Tokens are marked, so that the source with any white space and the markup come from the same tree.
// The programs are within the part of the languages where the markup does not depend on what names are declared as.
#ifndef MARKUP_HPP
#define MARKUP_HPP
#include "api.hpp"
#include <set>

namespace markup {
using pbt::Ctx;
typedef std::string S;

const char TOK = '\x1e', LINE = '\x1d';       // before a token; the token has to start a line / the line has to end

struct Gen {
    Ctx& c; S lang; bool cxx, java, cs, cfam; int fuel = 60; bool cpp = true; int nolambda = 0; bool conditionals = false;     // conditionals: many, with #elif, #else, and #if 0
    std::set<S> seen;
    Gen(Ctx& c, const S& l) : c(c), lang(l), cxx(l == "C++"), java(l == "Java"), cs(l == "C#"), cfam(l == "C++" || l == "C" || l == "Objective-C") {}

    static S esc(const S& s) { S r; for (char x : s) { if (x == '<') r += "&lt;"; else if (x == '>') r += "&gt;"; else if (x == '&') r += "&amp;"; else r += x; } return r; }
    static S T(const S& t) { return S(1, TOK) + esc(t); }
    static S E(const S& n, const S& in, const S& at = "") { return "<" + n + (at.empty() ? "" : " " + at) + ">" + in + "</" + n + ">"; }
    S N(const S& t) { return E("name", T(t)); }
    S op(const S& t) { return E("operator", T(t)); }
    bool more() { return fuel > 0; }
    void use(const char* w) { seen.insert(w); }

    // ---- names
    S id() { static const char* const W[] = { "a", "b", "x", "foo", "bar1", "_y", "Value", "aVeryLongIdentifierName", "i", "getName", "z9", "total_count" }; return W[c.draw(12)]; }
    S typeId() { static const char* const W[] = { "A", "B", "T1", "Foo", "Widget", "my_type", "Q" }; return W[c.draw(7)]; }
    S scope() { return java || cs ? "." : "::"; }
    // a variable or member: a, a.b, p->q, A::b, with indices
    S variable(int d) {
        int k = c.range(0, 7);
        if (k < 4) return N(id());
        S in = N(id()); int n = 1; bool index = false;
        if (c.chance(1, 5) && cxx) { in = N(typeId()) + op("::") + N(id()); ++n; use("qualified name"); }
        while (n < 4 && c.chance(n == 1 ? 2 : 1, 3)) { in += op(cfam && c.chance(1, 3) ? "->" : ".") + N(id()); ++n; }
        if (d > 0 && c.chance(1, 3)) { int z = c.range(1, 2); while (z--) { ++nolambda; in += E("index", T("[") + expr(d - 1) + T("]")); --nolambda; } index = true; ++n; use("index"); }
        (void) index;
        return n > 1 ? E("name", in) : in;
    }
    S callee() {
        S in = N(id()); int n = 1;
        if (c.chance(1, 6) && cxx) { in = N(typeId()) + op("::") + N(id()); ++n; }
        else if (c.chance(1, 3)) { in += op(cfam && c.chance(1, 3) ? "->" : ".") + N(id()); ++n; if (c.chance(1, 3)) { in += op(".") + N(id()); ++n; } }
        return n > 1 ? E("name", in) : in;
    }
    S arguments(int d, const char* o = "(", const char* e = ")") {
        S r = T(o); int n = c.range(0, 3);
        for (int i = 0; i < n; ++i) r += (i ? T(",") : "") + E("argument", expr(d - 1));
        return E("argument_list", r + T(e));
    }
    S call(int d) { use("call"); return E("call", callee() + arguments(d)); }

    // ---- expressions
    S number() { static const char* const W[] = { "0", "1", "42", "3.14", "0x1F", "1e10", "2.5e-3", "100L", "7" }; if (cxx && c.chance(1, 8)) { static const char* const X[] = { "1'000", "1'000'000ul", "0xFF'ab", "1'0.5e3" }; return E("literal", T(X[c.draw(4)]), "type=\"number\""); } return E("literal", T(W[c.draw(9)]), "type=\"number\""); }
    S string() { static const char* const W[] = { "\"\"", "\"s\"", "\"a b\"", "\"\\\"q\\\"\"", "\"// no\"", "\"/* no */\"", "\"{;}\"", "\"if (a) <b>\"", "\"\\\\\"", "\"'\"" }; return E("literal", T(W[c.draw(10)]), "type=\"string\""); }
    S character() { static const char* const W[] = { "'a'", "'\\''", "'\"'", "';'", "'\\n'", "'{'", "'\\\\'" }; return E("literal", T(W[c.draw(7)]), "type=\"char\""); }
    S literal() {
        switch (c.range(0, 6)) {
        case 0: case 1: case 2: return number();
        case 3: return string();
        case 4: return character();
        case 5: if (lang == "C" || lang == "Objective-C") return number(); return E("literal", T(c.boolean() ? "true" : "false"), "type=\"boolean\"");
        default: if (cxx) return E("literal", T("nullptr"), "type=\"null\""); if (java || cs) return E("literal", T("null"), "type=\"null\""); return number();
        }
    }
    S binary() {
        static const char* const W[] = { "+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">=", "&&", "||", "&", "|", "^", "<<" };
        return op(W[c.draw(16)]);
    }
    S operand(int d) {
        --fuel;
        if (d <= 0 || !more()) return c.boolean() ? N(id()) : literal();
        switch (c.range(0, 13)) {
        case 0: case 1: case 2: return variable(d);
        case 3: case 4: return literal();
        case 5: case 6: return call(d);
        case 7: { use("call after call"); S r = call(d - 1); r += op(cfam && c.chance(1, 4) ? "->" : ".") + (c.boolean() ? call(d - 1) : N(id())); return r; }
        case 8: { S in = flat(d - 1, true); return op("(") + in + op(")"); }
        case 9: return op(c.pick({ "!", "-", "~", "++", "--", "+" })) + (c.boolean() ? N(id()) : variable(d - 1));
        case 10: return variable(d - 1) + op(c.boolean() ? "++" : "--");
        case 11: if (cxx || java || cs) { use("new"); S t = N(typeId()); if (c.chance(1, 3)) { S i = [&] { ++nolambda; S r = E("name", t + E("index", T("[") + expr(d - 1) + T("]"))); --nolambda; return r; }(); return op("new") + i; } return op("new") + E("call", t + arguments(d)); }
            use("sizeof"); return E("sizeof", T("sizeof") + E("argument_list", T("(") + E("argument", E("expr", N(id()))) + T(")")));
        case 12: if (cxx) { use("cast"); S k = c.pick({ "static", "dynamic", "const", "reinterpret" }); return E("cast", T(k + "_cast") + E("argument_list", T("<") + E("argument", E("expr", N(typeId()) + (c.boolean() ? op("*") : S()))) + T(">"), "type=\"generic\"") + E("argument_list", T("(") + E("argument", expr(d - 1)) + T(")")), "type=\"" + k + "\""); }
            if (cs) { use("typeof"); return E("typeof", T("typeof") + E("argument_list", T("(") + E("argument", E("expr", N(typeId()))) + T(")"))); }
            return call(d);
        default:
            if (cxx || cs || java) return N("this");
            return variable(d);
        }
    }
    // operands and operators; inner: in parentheses
    S flat(int d, bool inner = false) {
        S r = operand(d); int n = c.chance(1, 2) ? 0 : c.range(1, inner ? 2 : 3);
        while (n-- && more()) r += binary() + operand(d - 1);
        return r;
    }
    S branch(int d) { if (!cxx) ++nolambda; S r = expr(d); if (!cxx) --nolambda; return r; }      // no lambda before the colon of a ternary
    S ternary(int d) { use("ternary"); return E("ternary", E("condition", E("expr", flat(d - 1)) + T("?")) + E("then", branch(d - 1)) + E("else", T(":") + expr(d - 1))); }
    S lambda(int d) {
        use("lambda");
        if (cxx) {
            S cap; switch (c.range(0, 3)) { case 0: break; case 1: cap = E("argument", E("modifier", T("="))); break; case 2: cap = E("argument", E("modifier", T("&"))); break; case 3: cap = E("argument", N(id())); break; }
            return E("lambda", E("capture", T("[") + cap + T("]")) + parameters(d - 1) + block(d - 1));
        }
        if (java) return E("lambda", E("parameter_list", T("(") + E("parameter", E("decl", N(id()))) + T(")")) + T("->") + (c.boolean() ? block(d - 1) : E("block", E("block_content", plain(d - 1)), "type=\"pseudo\"")));
        return E("lambda", E("parameter_list", T("(") + E("parameter", E("decl", N(id()))) + T(")")) + T("=>") + (c.boolean() ? block(d - 1) : E("block", E("block_content", plain(d - 1)), "type=\"pseudo\"")));
    }
    S expr(int d) {
        if (d > 1 && c.chance(1, 10)) return E("expr", ternary(d));
        if (d > 1 && more() && c.chance(1, 14) && (cxx || java || cs) && !nolambda) return E("expr", lambda(d));
        return E("expr", flat(d));
    }

    // ---- types and declarations
    S baseType() {
        switch (c.range(0, 4)) {
        case 0: case 1: return N(c.pick({ "int", "char", "double", "float", "long" }));
        case 2: if (cfam) return c.boolean() ? N("unsigned") + N(c.pick({ "int", "long", "char" })) : N("long") + N("long"); return N(java ? "boolean" : "bool");
        default: return N(typeId());
        }
    }
    S generic(int d) {      // A<B, C>
        use("generic type"); S in = N(typeId()), r = T("<"); int n = c.range(1, 2);
        for (int i = 0; i < n; ++i) { S a = d > 0 && c.chance(1, 4) && !cxx ? generic(d - 1) : N(cfam || cs ? S(c.pick({ "int", "A", "B" })) : typeId()); r += (i ? T(",") : "") + E("argument", cxx ? E("expr", a) : a); }
        return E("name", in + E("argument_list", r + T(">"), "type=\"generic\""));
    }
    // type without specifiers; fixed number of pointers
    S type(bool local) {
        (void) local;
        if ((cxx || java || cs) && c.chance(1, 8)) return generic(1);
        if ((java || cs) && c.chance(1, 8)) return E("name", N(c.boolean() ? "int" : typeId()) + E("index", T("[") + T("]")));
        if (cxx && c.chance(1, 8)) return E("name", N(c.boolean() ? "std" : typeId()) + op("::") + N(typeId()));
        if (!cfam && c.chance(1, 10)) return E("name", N(typeId()) + op(".") + N(typeId()));
        S t = baseType();
        if (cfam && c.chance(1, 4)) t += E("modifier", T("*"));
        else if (cxx && c.chance(1, 8)) t += E("modifier", T("&"));
        return t;
    }
    S specifier(const char* s) { return E("specifier", T(s)); }
    S init(int d) { return E("init", T("=") + expr(d)); }
    S decl(int d, bool field = false) {      // decl_stmt
        --fuel; S sp;
        if (c.chance(1, 4)) {
            if (cfam) sp = specifier(field ? cxx ? c.pick({ "static", "const", "mutable" }) : "const" : c.pick({ "static", "const", "volatile" }));
            else if (java) sp = specifier(field ? c.pick({ "private", "public", "protected", "static", "final" }) : "final");
            else sp = specifier(field ? c.pick({ "private", "public", "protected", "static", "internal", "readonly" }) : "const");
        }
        bool ty = c.chance(1, 10) && (cxx || cs) && !field; S t = ty ? N(cxx ? "auto" : "var") : type(!field);
        if (ty) sp.clear();      // auto after a specifier is a specifier
        S in = E("type", sp + t); bool array = cfam && c.chance(1, 6);
        S name = array ? E("name", N(id()) + E("index", T("[") + (cxx || cfam ? expr(0) : S()) + T("]"))) : N(id());
        in += name;
        if (ty || c.boolean()) in += init(d);
        S r = E("decl", in);
        if (!ty && c.chance(1, 5)) { use("several declarators"); int n = c.range(1, 2); while (n--) { bool ptr = cfam && c.chance(1, 4); r += T(",") + E("decl", E("type", ptr ? E("modifier", T("*")) : S(), "ref=\"prev\"") + N(id()) + (c.boolean() ? init(d - 1) : S())); } }
        return E("decl_stmt", r + T(";"));
    }
    S parameters(int d) {
        S r = T("("); int n = c.range(0, 3);
        for (int i = 0; i < n; ++i) {
            S sp = c.chance(1, 5) ? cfam ? specifier("const") : java ? specifier("final") : E("modifier", T(c.pick({ "ref", "out" }))) : S();
            r += (i ? T(",") : "") + E("parameter", E("decl", E("type", sp + (cs && !sp.empty() ? baseType() : type(true))) + N(id()) + ((cxx || cs) && sp.empty() && c.chance(1, 6) ? init(std::min(d, 1)) : S())));
        }
        return E("parameter_list", r + T(")"));
    }

    // ---- statements
    S block(int d) { S r; int n = d > 0 && more() ? c.range(0, 3) : c.range(0, 1); for (int i = 0; i < n; ++i) r += stmt(d - 1); return E("block", T("{") + E("block_content", r) + T("}")); }
    // body of a control statement: a block or a single statement
    S body(int d, bool nodecl = true) {
        if (c.chance(2, 3)) return block(d);
        use("body without a block"); (void) nodecl;
        return E("block", E("block_content", simple(d - 1)), "type=\"pseudo\"");
    }
    S plain(int d) { ++nolambda; S r = expr(d); --nolambda; return r; }      // body of a lambda
    S condition(int d) { return E("condition", T("(") + expr(d) + T(")")); }
    S exprStmt(int d) {
        --fuel; S lhs;
        switch (c.range(0, 3)) {
        case 0: return E("expr_stmt", E("expr", call(d)) + T(";"));
        case 1: return E("expr_stmt", E("expr", c.boolean() ? op("++") + N(id()) : N(id()) + op("--")) + T(";"));
        default: lhs = variable(1); }
        static const char* const W[] = { "=", "=", "=", "+=", "-=", "*=", "/=", "|=", "<<=", "&=", "^=", "%=", ">>=" };
        S as = op(W[c.draw(13)]);
        if (d > 1 && c.chance(1, 8)) return E("expr_stmt", E("expr", lhs + as + ternary(d)) + T(";"));
        if (d > 1 && more() && c.chance(1, 12) && (cxx || java || cs) && !nolambda) return E("expr_stmt", E("expr", lhs + as + lambda(d)) + T(";"));
        return E("expr_stmt", E("expr", lhs + as + flat(d)) + T(";"));
    }
    S simple(int d) {      // what can be a body without a block and needs no care about a following else
        --fuel;
        switch (c.range(0, 7)) {
        case 0: use("return"); return E("return", T("return") + (c.chance(1, 4) ? S() : expr(d)) + T(";"));
        case 1: return E("break", T("break") + T(";"));
        case 2: return E("continue", T("continue") + T(";"));
        case 3: if (lang == "C" || lang == "Objective-C") return exprStmt(d); use("throw"); return E("throw", T("throw") + E("expr", op("new") + E("call", N(typeId()) + arguments(d))) + T(";"));
        case 4: return E("empty_stmt", T(";"));
        default: return exprStmt(d);
        }
    }
    S ifStmt(int d) {
        use("if"); S r = E("if", T("if") + condition(d) + body(d));
        int n = c.chance(1, 3) ? c.range(1, 2) : 0;
        while (n--) { use("else if"); r += E("if", T("else") + T("if") + condition(d) + body(d), "type=\"elseif\""); }
        if (c.chance(1, 3)) { use("else"); r += E("else", T("else") + body(d)); }
        return E("if_stmt", r);
    }
    S forStmt(int d) {
        use("for"); S i, k, n;
        switch (c.range(0, 2)) { case 0: break; case 1: i = E("decl", E("type", N("int")) + N(id()) + init(0)); break; case 2: i = E("expr", N(id()) + op("=") + flat(0)); break; }
        if (c.chance(3, 4)) k = E("expr", flat(d - 1));
        if (c.chance(3, 4)) n = E("incr", E("expr", c.boolean() ? op("++") + N(id()) : N(id()) + op("+=") + number())); else n = E("incr", "");
        return E("for", T("for") + E("control", T("(") + E("init", i + T(";")) + E("condition", k + T(";")) + n + T(")")) + body(d));
    }
    S foreachStmt(int d) {
        use("foreach"); S t = E("type", cs ? N("var") : cxx ? N("auto") : N(typeId()));
        return E(cs ? "foreach" : "for", T(cs ? "foreach" : "for") + E("control", T("(") + E("init", E("decl", t + N(id()) + E("range", T(cs ? "in" : ":") + expr(cs ? 0 : std::min(d, 1))))) + T(")")) + body(d));
    }
    S switchStmt(int d) {
        use("switch"); S r; int n = c.range(0, 3);
        for (int i = 0; i < n; ++i) { r += E("case", T("case") + E("expr", c.boolean() ? number() : N(id())) + T(":")); int m = c.range(0, 2); while (m--) r += stmt(d - 1); if (c.boolean()) r += E("break", T("break") + T(";")); }
        if (c.boolean()) { r += E("default", T("default") + T(":")); if (c.boolean()) r += simple(d - 1); }
        return E("switch", T("switch") + condition(d - 1) + E("block", T("{") + E("block_content", r) + T("}")));
    }
    S tryStmt(int d) {
        use("try"); S r = T("try") + block(d); int n = c.range(1, 2);
        for (int i = 0; i < n; ++i) r += E("catch", T("catch") + E("parameter_list", T("(") + E("parameter", E("decl", E("type", N(typeId()) + (cxx ? E("modifier", T("&")) : S())) + N(id()))) + T(")")) + block(d - 1));
        if (!cxx && c.boolean()) r += E("finally", T("finally") + block(d - 1));
        return E("try", r);
    }
    S comment() {
        S t, f; use("comment");
        if (c.boolean()) {
            t = c.pick({ "// a comment", "// if (a) { b; }", "// \"quote", "//it's", "// */", "// <b>&", "/// doc", "//! doc", "//", "///", "//// a", "//< a" });
            if (t.size() > 2 && (t[2] == '/' || t[2] == '!')) f = "doxygen";
            return E("comment", T(t) + S(1, LINE), "type=\"line\"" + (f.empty() ? S() : " format=\"" + f + "\""));
        }
        t = c.pick({ "/* a */", "/* if (a) { */", "/* \" */", "/* // */", "/* ' */", "/***/", "/**/", "/** doc */", "/*! doc */", "/**< a\n b */", "/* a\n\n b; */", "/*/ a */" });
        if (t.size() > 4 && t[2] == '*') f = java ? "javadoc" : "doxygen"; else if (t[2] == '!' && !java) f = "doxygen";
        return E("comment", T(t), "type=\"block\"" + (f.empty() ? S() : " format=\"" + f + "\""));
    }
    S directive() {
        use("directive"); S r;
        switch (c.range(0, 7)) {
        case 0: r = E("cpp:include", T("#") + E("cpp:directive", T("include")) + E("cpp:file", T(c.boolean() ? "<a/b.h>" : "\"c.h\""))); break;
        case 1: r = E("cpp:define", T("#") + E("cpp:directive", T("define")) + E("cpp:macro", N(c.pick({ "M", "MAX_A" }))) + (c.boolean() ? E("cpp:value", T(c.pick({ "1", "a+b", "(x)", "f(1,2)", "{", "if(a)", "\"s\"" }))) : S())); break;
        case 2: r = E("cpp:undef", T("#") + E("cpp:directive", T("undef")) + N("M")); break;
        case 3: r = E("cpp:pragma", T("#") + E("cpp:directive", T("pragma")) + N("once")); break;
        default: {      // a conditional group around complete statements is added by the callers
            return ""; } }
        return S(1, LINE) + r + S(1, LINE);
    }
    S group(const S& inside) {
        use("conditional"); S r, o;
        switch (c.range(0, 2)) {
        case 0: o = E("cpp:ifdef", T("#") + E("cpp:directive", T("ifdef")) + N(c.pick({ "A", "DEBUG_1" }))); break;
        case 1: o = E("cpp:ifndef", T("#") + E("cpp:directive", T("ifndef")) + N(c.pick({ "A", "DEBUG_1" }))); break;
        default: o = E("cpp:if", T("#") + E("cpp:directive", T("if")) + E("expr", E("call", N("defined") + E("argument_list", T("(") + E("argument", E("expr", N("A"))) + T(")"))))); }
        return S(1, LINE) + o + S(1, LINE) + inside + S(1, LINE) + E("cpp:endif", T("#") + E("cpp:directive", T("endif"))) + S(1, LINE);
    }
    template <class F> S groups(F item) {
        use("conditional"); S r; auto dir = [&](const S& in) { return S(1, LINE) + in + S(1, LINE); };
        auto items = [&] { S i; for (int n = c.range(0, 2); n > 0; --n) i += item(); return i; };
        auto cond = [&](const S& w) {
            switch (c.range(0, 5)) {
            case 0: case 1: if (w == "if") { use("#if 0"); return E("expr", E("literal", T("0"), "type=\"number\"")); }   // falls through
            case 2: return E("expr", N(c.pick({ "A", "DEBUG_1" })));
            case 3: use("0 as a part"); return E("expr", E("literal", T("0"), "type=\"number\"") + op(c.pick({ "||", "==", "<" })) + N("A"));
            case 4: return E("expr", E("literal", T(c.pick({ "1", "1", "0x10", "01", "10" })), "type=\"number\""));
            default: return E("expr", E("call", N("defined") + E("argument_list", T("(") + E("argument", E("expr", N("A"))) + T(")"))));
            } };
        switch (c.range(0, 3)) {
        case 0: r = dir(E("cpp:ifdef", T("#") + E("cpp:directive", T("ifdef")) + N("A"))); break;
        case 1: r = dir(E("cpp:ifndef", T("#") + E("cpp:directive", T("ifndef")) + N("A"))); break;
        default: r = dir(E("cpp:if", T("#") + E("cpp:directive", T("if")) + cond("if"))); }
        r += items();
        for (int n = c.chance(1, 3) ? c.range(1, 2) : 0; n > 0; --n) { use("#elif"); r += dir(E("cpp:elif", T("#") + E("cpp:directive", T("elif")) + cond("elif"))) + items(); }
        if (c.boolean()) { use("#else"); r += dir(E("cpp:else", T("#") + E("cpp:directive", T("else")))) + items(); }
        return r + dir(E("cpp:endif", T("#") + E("cpp:directive", T("endif"))));
    }
    S stmt(int d) {
        --fuel; S r;
        if (c.chance(1, 12)) r += comment();
        if (cpp && cfam && c.chance(1, 16)) r += directive();
        if (conditionals ? cpp && cfam && d > 0 && more() && c.chance(1, 4) : cpp && cfam && c.chance(1, 20) && d > 0) return r + (conditionals ? groups([&] { return stmt(d - 1); }) : group(stmt0(d - 1)));
        return r + stmt0(d);
    }
    S stmt0(int d) {
        if (d <= 0 || !more()) return simple(0);
        switch (c.range(0, 18)) {
        case 0: case 1: return simple(d);
        case 2: case 3: case 4: return exprStmt(d);
        case 5: case 6: case 7: return decl(d);
        case 8: case 9: return ifStmt(d);
        case 10: use("while"); return E("while", T("while") + condition(d) + body(d));
        case 11: return forStmt(d);
        case 12: use("do"); return E("do", T("do") + body(d) + T("while") + condition(d - 1) + T(";"));
        case 13: return switchStmt(d);
        case 14: if (lang == "C" || lang == "Objective-C") return forStmt(d); return tryStmt(d);
        case 15: return block(d);
        case 16: if (lang == "C" || lang == "Objective-C") return ifStmt(d); return foreachStmt(d);
        case 17:
            if (cs) switch (c.range(0, 3)) { case 0: use("lock"); return E("lock", T("lock") + E("init", T("(") + expr(1) + T(")")) + block(d)); case 1: use("using"); return E("using_stmt", T("using") + E("init", T("(") + E("decl", E("type", N("var")) + N(id()) + init(1)) + T(")")) + block(d)); case 2: return E("checked", T("checked") + block(d)); case 3: use("yield"); return E("return", specifier("yield") + T("return") + expr(1) + T(";")); }
            if (java) switch (c.range(0, 1)) { case 0: use("synchronized"); return E("synchronized", T("synchronized") + E("init", T("(") + expr(1) + T(")")) + block(d)); case 1: use("assert"); return E("assert", T("assert") + E("expr", flat(1)) + T(";")); }
            if (cxx) switch (c.range(0, 2)) { case 0: use("using"); return E("using", T("using") + E("namespace", T("namespace") + N(id()) + T(";"))); case 1: use("typedef"); return E("typedef", T("typedef") + E("type", type(true)) + N(typeId()) + T(";")); case 2: use("using"); return E("using", T("using") + N(typeId()) + E("init", T("=") + E("type", type(true))) + T(";")); }
            use("typedef"); return E("typedef", T("typedef") + E("type", type(true)) + N(typeId()) + T(";"));
        default: if (cfam || cs) { use("label"); return c.boolean() ? E("goto", T("goto") + N("label1") + T(";")) : E("label", N("label1") + T(":")) + exprStmt(d); } return exprStmt(d);
        }
    }

    // ---- top level
    S function(int d, bool member) {
        use("function"); S sp; bool body = c.chance(3, 4);
        if (member && !cfam && c.chance(2, 3)) { sp = specifier(c.pick({ "public", "private", "protected" })); if (c.chance(1, 4)) sp += specifier("static"); }
        else if (cfam && c.chance(1, 5)) sp = specifier(cxx && member && c.boolean() ? "virtual" : cxx && c.boolean() ? "inline" : "static");
        if (!body && java) sp += specifier("abstract");
        S t = E("type", sp + (c.chance(1, 3) ? N("void") : type(false)));
        S name = !member && cxx && c.chance(1, 5) ? E("name", N(typeId()) + op("::") + N(id())) : N(id());
        S in = t + name + parameters(d);
        if (cxx && member && c.chance(1, 4)) in += specifier("const");
        if (java && c.chance(1, 6)) { use("throws"); in += E("throws", T("throws") + E("argument", E("expr", N(typeId())))); }
        if (!body) return E("function_decl", in + T(";"));
        return E("function", in + block(d));
    }
    S member(int d, const S& cls) {
        --fuel; S r; if (c.chance(1, 12)) r += comment();
        switch (c.range(0, 8)) {
        case 0: case 1: case 2: return r + decl(d, true);
        case 3: case 4: case 5: return r + function(d, true);
        case 6: {
            use("constructor"); S sp = !cfam && c.boolean() ? specifier("public") : S(); S in = sp + N(cls) + parameters(d);
            if (cxx && c.boolean()) { use("member init"); S l = T(":"); int n = c.range(1, 2); for (int i = 0; i < n; ++i) l += (i ? T(",") : "") + E("call", N(id()) + arguments(1)); in += E("member_init_list", l); }
            else if (cs && c.chance(1, 3)) in += E("member_init_list", T(":") + E("call", N(c.boolean() ? "base" : "this") + arguments(1)));
            return r + E("constructor", in + block(d)); }
        case 7:
            if (cxx) { use("destructor"); return r + (c.boolean() ? E("destructor", E("name", T("~") + T(cls)) + E("parameter_list", T("(") + T(")")) + block(d)) : E("destructor_decl", E("name", T("~") + T(cls)) + E("parameter_list", T("(") + T(")")) + T(";"))); }
            if (cs) { use("property"); S in = E("type", (c.boolean() ? specifier("public") : S()) + type(false)) + N(id()), b; if (c.boolean()) b = E("function_decl", N("get") + T(";")) + E("function_decl", N("set") + T(";")); else b = E("function", N("get") + block(d)) + (c.boolean() ? E("function", N("set") + block(d)) : S()); return r + E("property", in + E("block", T("{") + b + T("}"))); }
            return r + function(d, true);
        default: if (d > 0) return r + classDef(d - 1); return r + decl(d, true);
        }
    }
    S classDef(int d) {
        use("class"); bool st = cfam ? !cxx || c.chance(1, 3) : false; S cls = typeId(), in; const char* kw = st ? "struct" : "class";
        if (java && c.chance(1, 4)) { use("annotation"); in += E("annotation", T("@") + N(typeId())); }
        if (!cfam && c.chance(1, 3)) in += specifier("public");
        if (!cfam && c.chance(1, 6)) in += specifier("abstract");
        in += T(kw) + N(cls);
        if (c.chance(1, 3)) {
            if (cxx) { use("super"); S l = T(":"); int n = c.range(1, 2); for (int i = 0; i < n; ++i) l += (i ? T(",") : "") + E("super", (c.boolean() ? specifier(c.pick({ "public", "private", "protected" })) : S()) + N(typeId())); in += E("super_list", l); }
            else if (java) { use("super"); S l; if (c.boolean()) l += E("extends", T("extends") + E("super", N(typeId()))); if (l.empty() || c.boolean()) { S m = T("implements"); int n = c.range(1, 2); for (int i = 0; i < n; ++i) m += (i ? T(",") : "") + E("super", N(typeId())); l += E("implements", m); } in += E("super_list", l); }
            else if (cs) { use("super"); S l = T(":"); int n = c.range(1, 2); for (int i = 0; i < n; ++i) l += (i ? T(",") : "") + E("super", N(typeId())); in += E("super_list", l); }
        }
        S b; int n = more() ? c.range(0, 3) : 0;
        if (cfam && !cxx) { for (int i = 0; i < n; ++i) b += decl(0, true); }
        else if (cxx) {
            S sec; for (int i = 0; i < n; ++i) sec += member(d, cls);
            b = E(st ? "public" : "private", sec, "type=\"default\"");
            for (int k = c.range(0, 2); k > 0; --k) { use("access section"); const char* a = c.pick({ "public", "private", "protected" }); S m = T(a) + T(":"); for (int i = c.range(0, 2); i > 0; --i) m += member(d, cls); b += E(a, m); }
        } else for (int i = 0; i < n; ++i) b += member(d, cls);
        in += E("block", T("{") + b + T("}"));
        if (cfam) in += T(";");
        return E(kw, in);
    }
    S enumDef() {
        use("enum"); S b; int n = c.range(1, 3);
        for (int i = 0; i < n; ++i) b += (i ? T(",") : "") + E("decl", N(S("E") + char('1' + i)) + (!java && c.chance(1, 3) ? E("init", T("=") + E("expr", number())) : S()));
        return E("enum", T("enum") + N(typeId()) + E("block", T("{") + b + T("}")) + (cfam ? T(";") : S()));
    }
    S top(int d) {
        --fuel; S r; if (c.chance(1, 10)) r += comment();
        if (cpp && cfam && c.chance(1, 8)) r += directive();
        if (conditionals && cpp && cfam && d > 0 && more() && c.chance(1, 2)) return r + groups([&] { return top(d - 1); });
        switch (c.range(0, 9)) {
        case 0: case 1: if (!cfam) return r + classDef(d); return r + function(d, false);
        case 2: if (!cfam) return r + classDef(d); return r + decl(d);
        case 3: case 4: return r + classDef(d);
        case 5: return r + enumDef();
        case 6: if (cxx || cs) { use("namespace"); S in; for (int i = c.range(0, 2); i > 0 && more(); --i) in += top(d - 1); return r + E("namespace", T("namespace") + N(id()) + E("block", T("{") + in + T("}"))); } return r + (java ? classDef(d) : function(d, false));
        case 7: if (cxx) {
                use("template"); S p; int n = c.range(1, 2); for (int i = 0; i < n; ++i) p += (i ? T(",") : "") + E("parameter", E("type", N(c.pick({ "class", "typename" }))) + N(typeId()));
                S t = E("template", T("template") + E("parameter_list", T("<") + p + T(">"))), f = c.boolean() ? function(d, false) : classDef(d);
                size_t k = f.find('>'); return r + f.substr(0, k + 1) + t + f.substr(k + 1); }
            if (java) { use("interface"); S b; for (int i = c.range(0, 2); i > 0; --i) b += E("function_decl", E("type", type(false)) + N(id()) + parameters(0) + T(";")); return r + E("interface", T("interface") + N(typeId()) + E("block", T("{") + b + T("}"))); }
            if (cs) { use("interface"); S b; for (int i = c.range(0, 2); i > 0; --i) b += E("function_decl", E("type", type(false)) + N(id()) + parameters(0) + T(";")); return r + E("interface", T("interface") + N(typeId()) + E("block", T("{") + b + T("}"))); }
            return r + function(d, false);
        case 8: if (cxx && c.boolean()) return r + E("extern", T("extern") + E("literal", T("\"C\""), "type=\"string\"") + E("block", T("{") + E("block_content", decl(0)) + T("}"))); if (cpp && cfam && d > 0) return r + group(top(d - 1)); return r + (cfam ? function(d, false) : classDef(d));
        default: if (java) return r + classDef(d); return r + (cfam ? function(d, false) : classDef(d));
        }
    }
    S program(int d) {
        S r; int n = c.range(1, 3);
        if (java && c.chance(1, 3)) { r += E("package", T("package") + E("name", N("a") + op(".") + N("b")) + T(";")); }
        if (java && c.chance(1, 3)) r += E("import", T("import") + E("name", N("java") + op(".") + N("util") + op(".") + N(typeId())) + T(";"));
        if (cs && c.chance(1, 3)) r += E("using", T("using") + N("System") + T(";"));
        while (n-- && more()) r += top(d);
        return r;
    }
};

// the source of marked markup, with white space (and comments) as drawn; style 0: one blank everywhere
inline S source(Ctx& c, const S& m, int style, bool comments) {
    std::vector<S> t; S cur; bool tag = false; bool line = false; std::vector<int> brk;
    auto push = [&] { if (!cur.empty()) { t.push_back(cur); cur.clear(); } };
    for (size_t i = 0; i < m.size(); ++i) {
        char x = m[i];
        if (tag) { if (x == '>') tag = false; continue; }
        if (x == '<') { tag = true; continue; }
        if (x == TOK || x == LINE) { push(); if (x == LINE) t.push_back(S(1, LINE)); continue; }
        if (x == '&') { if (m.compare(i, 4, "&lt;") == 0) { cur += '<'; i += 3; } else if (m.compare(i, 4, "&gt;") == 0) { cur += '>'; i += 3; } else { cur += '&'; i += 4; } continue; }
        cur += x;
    }
    push(); (void) line;
    S r; S prev; bool directive = false;
    auto word = [](char x) { return isalnum((unsigned char) x) || x == '_' || (x & 0x80) || x == '"' || x == '\'' || x == '@' || x == '.'; };
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i][0] == LINE) { if (!r.empty() && r.back() != '\n') r += '\n'; prev.clear(); directive = false; continue; }
        bool need = false;
        if (!prev.empty()) {
            char a = prev.back(), b = t[i][0]; bool wa = word(a), wb = word(b);
            if (wa && wb) need = true;
            else if (!wa && !wb) need = !(strchr("()[]{};,", a) || strchr("()[]{};,", b));
            if (a == '.' || b == '.') need = isdigit((unsigned char) a) || isdigit((unsigned char) b) || (a == '.' && b == '.');      // also a.b
            if (a == '/' || b == '/') need = true;
            if (t[i][0] == '#') need = false;
        }
        if (t[i] == "#") directive = true;
        S ws;
        if (prev.empty()) ws = style && !directive && c.chance(1, 4) ? S(c.draw(4), ' ') : S();
        else if (directive) ws = prev == "#" ? "" : need || (t[i][0] != '(' && style != 2) || t[i][0] == '"' || t[i][0] == '<' || (t[i - 1] == "M" || t[i - 1] == "MAX_A") ? " " : "";
        else switch (style) {
            case 0: ws = " "; break;
            case 1: { int k = c.range(0, 9); ws = k < 4 ? need ? " " : "" : k < 7 ? " " : k == 7 ? "\n" : k == 8 ? "\t" : "\n    "; if (comments && c.chance(1, 12)) { ws += c.boolean() ? "/* c */" : "// c\n"; } break; }
            case 2: ws = need ? " " : ""; break;
            default: ws = need || c.boolean() ? "\n" : ""; }
        r += ws + t[i]; prev = t[i];
    }
    if (directive && !r.empty() && r.back() != '\n') r += '\n';
    return r;
}
// markup without white space (and comments)
inline S tight(const S& m) { S r; bool tag = false; for (size_t i = 0; i < m.size(); ++i) { char x = m[i]; if (x == '<') tag = true; if (tag) { r += x; if (x == '>') tag = false; continue; } if (x != TOK && x != LINE && !isspace((unsigned char) x)) r += x; } return r; }
inline bool hollow(xmlNodePtr n, bool comments) {
    for (xmlNodePtr k = n->children; k; k = k->next) {
        if (k->type == XML_ELEMENT_NODE) { if (comments || S((const char*) k->name) != "comment") return false; }
        else if (k->content) for (const char* p = (const char*) k->content; *p; ++p) if (!isspace((unsigned char) *p)) return false;
    }
    return true;
}
inline void tightNode(xmlNodePtr n, S& r, bool comments) {
    for (xmlNodePtr k = n->children; k; k = k->next) {
        if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) { S t = (const char*) k->content, u; for (char x : t) if (!isspace((unsigned char) x)) u += x; r += Gen::esc(u); }
        else if (k->type == XML_ELEMENT_NODE) {
            S name = (const char*) k->name; if (!comments && name == "comment") continue;
            if (api::attr(k, "type") == "default" && hollow(k, comments)) continue;      // a section without anything depends on white space
            S full = (k->ns && k->ns->prefix ? S((const char*) k->ns->prefix) + ":" : S()) + name; r += "<" + full;
            for (xmlAttrPtr a = k->properties; a; a = a->next) r += " " + S((const char*) a->name) + "=\"" + api::attr(k, (const char*) a->name) + "\"";
            r += ">"; tightNode(k, r, comments); r += "</" + full + ">";
        }
    }
}
} // namespace markup
#endif
