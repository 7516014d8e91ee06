// Generators of source text, shared by the checks.
#ifndef GEN_HPP
#define GEN_HPP
#include "pbt.hpp"
#include <string>
#include <vector>

namespace gen {

using pbt::Ctx;

// languages the library offers
extern const std::vector<std::string> LANGS;           // "C++","C","Java","C#","Objective-C"
std::string language(Ctx& c);
std::string extensionFor(const std::string& lang);     // a standard extension, with the dot

std::string utf8(uint32_t cp);
std::string word(Ctx& c);                              // identifier
std::string token(Ctx& c, const std::string& lang);    // any lexical token of the language
std::string space(Ctx& c);                             // whitespace, possibly empty or with newlines
std::string comment(Ctx& c, bool multiline = true);    // a complete comment (line comments include the newline)
std::string stringLit(Ctx& c);                         // complete double-quoted literal
std::string text(Ctx& c, int maxlen);                  // valid UTF-8 text without characters XML cannot hold (no NUL, controls allowed as srcML escapes them)
std::string plainText(Ctx& c, int maxlen);             // as text, but without control characters
std::string tokens(Ctx& c, const std::string& lang, int n);    // token soup
std::string program(Ctx& c, const std::string& lang, int depth = 3);  // well-formed looking program
std::string corpus(Ctx& c, const std::string& lang);   // one snippet of the corpus
std::string mutate(Ctx& c, std::string s, const std::string& lang);
// any of the above; valid UTF-8, only LF line ends, no NUL
std::string source(Ctx& c, const std::string& lang, int scale = 1);
std::string attrValue(Ctx& c, int maxlen = 12);        // text for attributes (XML special characters, non-ASCII)

bool validUtf8(const std::string& s);
std::string xmlSafe(const std::string& s);             // replaces what XML 1.0 and srcML cannot hold (U+FFFE, U+FFFF, surrogates)

} // namespace gen
#endif
