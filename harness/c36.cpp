// The compiler on damaged specifications: it ends, with an error or with all three files written
#include "asn.h"
#include <vector>
static const char* const specs[] = {
    "M DEFINITIONS ::= BEGIN S ::= SEQUENCE { a [1] INTEGER DEFAULT 5, b B OPTIONAL, ... } B ::= CHOICE { c NULL, d B } END",
    "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS T, v FROM N; S ::= SET OF T x INTEGER ::= v END N DEFINITIONS ::= BEGIN T ::= BOOLEAN v INTEGER ::= 7 END",
    "M DEFINITIONS ::= BEGIN o OBJECT IDENTIFIER ::= { iso(1) 2 x(3) } h OCTET STRING ::= 'A0'H s UTF8String ::= \"q\" E ::= ENUMERATED { p, q(4), ... , r } END",
    "M DEFINITIONS ::= BEGIN P{T} ::= SEQUENCE { a T } S ::= P{BOOLEAN} D ::= SEQUENCE { COMPONENTS OF S, i INTEGER (0..5), k SEQUENCE (SIZE (1..MAX)) OF NULL } END",
    "M DEFINITIONS ::= BEGIN C ::= CLASS { &id INTEGER UNIQUE, &Type } WITH SYNTAX { &Type ID &id } S ::= SEQUENCE { id C.&id } o C ::= { INTEGER ID 3 } END",
};
enum { NSPECS = sizeof(specs) / sizeof(specs[0]) };
static void run(const std::string& text)
{
    bool ok = compile(text);
    if (ok)
    {
        vf_cover("accepted");
        for (const std::string& o : vf_output) vf_check(!o.empty(), "an accepted specification gives all three files");
    }
    else vf_cover("refused");
}
#ifndef SPEC
#define SPEC vf_pick(0, NSPECS - 1, "specification")
#endif
// one character becomes any other
extern "C" void vf_character()
{
    std::string t  = specs[SPEC];
    size_t      at = vf_pick(0, t.size() - 1, "at");
    t[at] = char(vf_u8("character"));
    run(t);
}
// the text ends early
extern "C" void vf_cut()
{
    std::string t = specs[SPEC];
    t.resize(vf_pick(0, t.size() - 1, "size"));
    run(t);
}
static std::vector<std::string> words(const std::string& t)
{
    std::vector<std::string> r;
    for (size_t i = 0; i < t.size();)
    {
        if (t[i] == ' ') { i++; continue; }
        size_t b = i;
        auto name = [&](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '&'; };
        if (name(t[i])) while (i < t.size() && name(t[i])) i++;
        else if (t[i] == '"' || t[i] == '\'') { i++; while (t[i] != t[b]) i++; i++; while (i < t.size() && name(t[i])) i++; }
        else if (t[i] == ':') i += 3;
        else if (t[i] == '.' && t[i + 1] == '.') { i += 2; if (t[i] == '.') i++; }
        else i++;
        r.push_back(t.substr(b, i - b));
    }
    return r;
}
static std::string joined(const std::vector<std::string>& w)
{
    std::string t;
    for (const std::string& s : w) t += s + " ";
    return t;
}
// one word left out, written twice, exchanged with its neighbour, replaced by another word of the specification or by an odd one
static const char* const odd[] = {"99999999999999999999", "-99999999999999999999", "9223372036854775807", "-9223372036854775808", "''H", "''B", "\"\"", "1.5", "MAX", "Zz", "zz", "&Zz"};
extern "C" void vf_word()
{
    std::vector<std::string> w = words(specs[SPEC]);
    size_t at = vf_pick(0, w.size() - 1, "at");
    switch (vf_pick(0, 4, "damage"))
    {
    case 0: w.erase(w.begin() + at); break;
    case 1: { std::string s = w[at]; w.insert(w.begin() + at, s); break; }
    case 2: if (at) std::swap(w[at], w[at - 1]); break;
    case 3: { std::string s = w[vf_pick(0, w.size() - 1, "other")]; w[at] = s; break; }
    case 4: w[at] = odd[vf_pick(0, sizeof(odd) / sizeof(odd[0]) - 1, "odd")]; break;
    }
    run(joined(w));
}
