// The srcML of any source is well-formed, namespace-correct XML whose text is the source.
#include "spec.hpp"
using namespace pbt; using namespace api;

static void names(xmlNodePtr n, Ctx& c, std::set<std::string>& bad) {
    for (xmlNodePtr k = n->children; k; k = k->next)
        if (k->type == XML_ELEMENT_NODE) {
            std::string ns = nsOf(k);
            if (ns != SRC_NS && ns != CPP_NS && ns != OMP_NS) bad.insert("{" + ns + "}" + nameOf(k));
            if (isSrc(k, "unit")) bad.insert("nested unit");
            names(k, c, bad);
        } else if (k->type != XML_TEXT_NODE) bad.insert("node of type " + std::to_string(k->type));
}

static void prop(Ctx& c) {
    spec::Want w; w.scale = 2; w.encodings = true;
    auto s = spec::make(c, w);
    c.note(spec::describe(s));
    int st = -1;
    std::string doc = spec::toMemory(s, &st);
    c.check(st == 0, "write-failed", "status " + std::to_string(st));
    Doc d(doc);
    c.check(d.ok(), "ill-formed", d.error + "\n" + quote(doc, 4000));
    xmlNodePtr root = d.root();
    c.check(isSrc(root, "unit"), "root", "root element is {" + nsOf(root) + "}" + nameOf(root));
    std::vector<xmlNodePtr> us;
    if (s.solitary) us.push_back(root);
    else for (xmlNodePtr k = root->children; k; k = k->next) {
        if (k->type == XML_ELEMENT_NODE) { c.check(isSrc(k, "unit"), "archive-child", "{" + nsOf(k) + "}" + nameOf(k)); us.push_back(k); }
        else { c.check(k->type == XML_TEXT_NODE, "archive-child", "node type " + std::to_string(k->type)); for (const xmlChar* p = k->content; *p; ++p) c.check(strchr(" \t\n", *p), "archive-text", (const char*) k->content); }
    }
    c.eq(std::to_string(us.size()), std::to_string(s.units.size()), "unit-count");
    for (size_t i = 0; i < us.size(); ++i) {
        c.eq(textOf(us[i]), s.units[i].src, "text", "text of unit " + std::to_string(i));
        c.eq(attr(us[i], "language"), s.units[i].lang, "language");
        std::set<std::string> bad;
        names(us[i], c, bad);
        std::string all; for (auto& b : bad) all += b + " ";
        c.check(bad.empty(), "unexpected-node", all);
    }
    c.nontrivial(doc.find("</expr>") != std::string::npos || doc.find("<comment") != std::string::npos || doc.find("<escape") != std::string::npos);
    if (s.xmlEncoding) c.label("encoding " + *s.xmlEncoding);
    c.label(s.solitary ? "solitary" : "archive");
    if (doc.find("<escape") != std::string::npos) c.label("escape");
    c.evals(us.size());
}

int main(int argc, char** argv) {
    quietXml();
    Check k; k.id = "C02"; k.prop = prop; k.quick_cases = 40000; k.thorough_cases = 150000; k.cpu_limit = 10;
    k.rule = "archives (or solitary units) of 1-4 units with random settings (options, XML encoding, attributes, processing instruction, registered namespaces) are written from generated sources; "
             "the output is read by a strict namespace-aware XML parser and compared with the model: root, number of units, language, allowed element namespaces, and the text of each unit with escape elements decoded equals the source. "
             "Non-trivial: has an expression, comment or escape element";
    return run(k, argc, argv);
}
