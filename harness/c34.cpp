// Numbers of enumeration items: the C++ enumerators against X.680 20.3 to 20.6
#include "asn.h"
#include <vector>
#ifndef NITEMS
#define NITEMS 4
#endif
struct Item { std::string name; bool numbered; int64_t number; };
static std::string text_of(int64_t& number, bool wide)
{
    // one or two digits and a sign
    std::string t;
    bool neg = vf_pick(0, wide ? 1 : 0, "negative") != 0;
    char d = char(vf_range(neg ? '1' : '0', '9', "digit"));
    if (neg) t = "-";
    t += d;
    number = neg ? -int64_t(d & 15) : int64_t(d & 15);
    return t;
}
// what the C++ of an enumeration gives its enumerators
static std::vector<Item> enumerators(size_t at)
{
    const std::string& s = vf_output[0];
    std::vector<Item> r;
    at = s.find('{', at);
    vf_check(at != std::string::npos, "enumerators in braces");
    at++;
    int64_t next = 0;
    for (;;)
    {
        while (s[at] == ' ' || s[at] == '\n' || s[at] == ',') at++;
        if (s[at] == '}') break;
        Item i{"", false, 0};
        while ((s[at] >= 'a' && s[at] <= 'z') || (s[at] >= 'A' && s[at] <= 'Z') || (s[at] >= '0' && s[at] <= '9') || s[at] == '_') i.name += s[at++];
        vf_check(!i.name.empty(), "an enumerator is a name");
        while (s[at] == ' ') at++;
        i.number = next;
        if (s[at] == '=')
        {
            at++;
            while (s[at] == ' ') at++;
            bool neg = s[at] == '-';
            if (neg) at++;
            vf_check(s[at] >= '0' && s[at] <= '9', "an enumerator is a number");
            uint64_t v = 0;
            while (s[at] >= '0' && s[at] <= '9') v = v * 10 + uint64_t(s[at++] & 15);
            i.number = neg ? -int64_t(v) : int64_t(v);
        }
        next = i.number + 1;
        r.push_back(i);
        vf_check(s[at] == ',' || s[at] == '\n' || s[at] == ' ' || s[at] == '}', "enumerators are separated by commas");
    }
    return r;
}
static void decide(int root, int additional, bool wide, int context)
{
    int n = root + additional;
    std::vector<Item> items;
    std::string t;
    for (int i = 0; i < n; i++)
    {
        Item it{"item" + std::string(1, char('a' + i)), vf_pick(0, 1, "numbered") != 0, 0};
        if (i > 0) t += ", ";
        if (i == root) t += "..., ";
        t += it.name;
        if (it.numbered) t += "(" + text_of(it.number, wide) + ")";
        items.push_back(it);
    }
    if (additional == 0 && vf_pick(0, 1, "extensible") != 0) t += ", ...";
    // X.680: numbers of the items without one
    int64_t next = 0;
    for (int i = 0; i < root; i++)
        if (!items[i].numbered)
        {
            for (bool used = true; used;)
            {
                used = false;
                for (int j = 0; j < root; j++) used |= items[j].numbered & (items[j].number == next);
                if (vf_fork(used)) next++;
                else break;
            }
            items[i].number = next++;
        }
    int64_t least = 0;
    for (int i = root; i < n; i++)
    {
        if (!items[i].numbered)
        {
            int64_t x = least;
            for (;;)
            {
                bool used = false;
                for (int j = 0; j < root; j++) used |= items[j].number == x;
                if (!vf_fork(used)) break;
                x++;
            }
            items[i].number = x;
        }
        if (vf_fork(items[i].number >= least)) least = items[i].number + 1;
    }
    bool twice = false;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) twice |= items[i].number == items[j].number;
    std::string e = "ENUMERATED { " + t + " }", spec = "M DEFINITIONS ::= BEGIN ";
    if (context == 0) spec += "E ::= " + e;
    if (context == 1) spec += "E ::= [3] " + e;
    if (context == 2) spec += "S ::= SEQUENCE { w INTEGER, e " + e + " }";
    if (context == 3) spec += "S ::= SET OF SEQUENCE { e [1] " + e + " OPTIONAL }";
    bool ok = compile(spec + " END");
    if (vf_fork(twice))
    {
        vf_cover("refused");
        vf_check(!ok, "two items with one number are refused");
        return;
    }
    vf_cover("numbered");
    vf_check(ok, "an enumeration is accepted");
    size_t at = vf_output[0].find("enum class ");
    vf_check(at != std::string::npos, "the enumeration is in the generated code");
    std::vector<Item> got = enumerators(at);
    vf_check(got.size() == items.size(), "an enumerator for each item");
    bool eq = true;
    for (size_t i = 0; i < got.size() && i < items.size(); i++)
    {
        vf_check(got[i].name == items[i].name, "enumerators are named as the items, in order");
        eq &= got[i].number == items[i].number;
    }
    vf_check(eq, "enumerators have the numbers of the items");
}
extern "C" void vf_root() { decide(int(vf_pick(1, NITEMS, "items")), 0, true, 0); }
extern "C" void vf_extended()
{
    int root = int(vf_pick(1, NITEMS - 2, "items"));
    decide(root, int(vf_pick(1, NITEMS - 1 - root, "additional items")), false, 0);
}
extern "C" void vf_places() { decide(int(vf_pick(1, 2, "items")), int(vf_pick(0, 1, "additional items")), false, int(vf_pick(0, 3, "place"))); }
/// large numbers are kept, and ones not to be told from others are not made up
extern "C" void vf_large()
{
    static const char* const prefix[] = {"214748364", "-214748364", "3276", "-3276", "1638", "4"};
    static const int64_t value[] = {214748364, -214748364, 3276, -3276, 1638, 4};
    int k = int(vf_pick(0, 5, "prefix"));
    char d = char(vf_range('0', k < 2 ? '7' : '9', "digit"));
    int64_t number = value[k] < 0 ? value[k] * 10 - (d & 15) : value[k] * 10 + (d & 15);
    vf_check(compile("M DEFINITIONS ::= BEGIN E ::= ENUMERATED { a, b(" + std::string(prefix[k]) + d + "), c } END"), "an enumeration is accepted");
    size_t at = vf_output[0].find("enum class ");
    vf_check(at != std::string::npos, "the enumeration is in the generated code");
    std::vector<Item> got = enumerators(at);
    vf_check(got.size() == 3, "an enumerator for each item");
    vf_cover("numbered");
    vf_check((got[0].number == 0) & (got[1].number == number) & (got[2].number == 1), "enumerators have the numbers of the items");
}
/// numbers given by a value reference
extern "C" void vf_by_reference()
{
    char d = char(vf_range('1', '9', "digit"));
    vf_cover("refused");
    if (vf_known("enumeration-number-by-reference", true)) return;
    bool ok = compile("M DEFINITIONS ::= BEGIN y INTEGER ::= " + std::string(1, d) + " E ::= ENUMERATED { a(y) } END");
    if (!ok) return;
    std::vector<Item> got = enumerators(vf_output[0].find("enum class "));
    vf_check(got.size() == 1 && got[0].number == (d & 15), "enumerators have the numbers of the items");
}
