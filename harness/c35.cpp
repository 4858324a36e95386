// Notation which X.680 gives the same meaning is compiled to the same C++
#include "asn.h"
#include <utility>
#include <vector>
// names made up for nested types are numbered from 0
static std::string renumbered(const std::string& s)
{
    std::string r;
    std::vector<std::string> seen;
    size_t at = 0;
    for (;;)
    {
        size_t u = s.find("Unnamed", at);
        if (u == std::string::npos) break;
        size_t d = u + 7;
        while ((s[d] >= 'a' && s[d] <= 'z') || (s[d] >= 'A' && s[d] <= 'Z')) d++;
        size_t e = d;
        while (s[e] >= '0' && s[e] <= '9') e++;
        std::string number = s.substr(d, e - d);
        size_t i = 0;
        while (i < seen.size() && seen[i] != number) i++;
        if (i == seen.size()) seen.push_back(number);
        r.append(s, at, d - at);
        r += '#';
        r += char('0' + i);
        at = e;
    }
    r.append(s, at, s.size() - at);
    return r;
}
#ifndef FULL
#define FULL 0
#endif
static void equivalent(const std::string& written_one_way, const std::string& written_the_other_way)
{
    bool ok = compile(written_one_way);
    vf_check(ok, "the specification is accepted");
    std::string one[3];
    for (int i = 0; i < 3; i++) one[i] = renumbered(vf_output[i]);
    ok = compile(written_the_other_way);
    vf_check(ok, "the equivalent specification is accepted");
    for (int i = 0; i < 3; i++) vf_check(one[i] == renumbered(vf_output[i]), "equivalent specifications give the same C++");
    vf_cover("same");
}
static const char* const defaults[] = {"", "EXPLICIT TAGS ", "IMPLICIT TAGS ", "AUTOMATIC TAGS "};
static std::string module(const char* name, int tags, const std::string& body, const std::string& imports = "")
{
    return std::string(name) + " DEFINITIONS " + defaults[tags] + "::= BEGIN " + imports + body + " END ";
}
// COMPONENTS OF against the components themselves (X.680 25.4, 27.2)
static const char* const braces[] = {"SEQUENCE { ", "SET { "};
extern "C" void vf_components()
{
    int  kind  = int(vf_pick(0, 1, "kind"));
    int  base  = int(vf_pick(0, 5, "base"));      // direct, alias, tagged, alias of tagged, written in place, inside a component
    bool chain = vf_pick(0, 1, "chain") != 0;     // the included type includes another
    int  place = int(vf_pick(0, 2, "place"));
    bool first = FULL ? vf_pick(0, 1, "first") != 0 : place != 1; // the including type comes first
    int  ext   = int(vf_pick(0, 2, "extension")); // none, additions in the included type, included among additions
    int  tags  = int(vf_pick(FULL ? 0 : 2, 3, "tags"));
    std::string open = braces[kind];
    std::string c  = "gg [7] INTEGER DEFAULT 5";
    std::string b0 = chain ? "COMPONENTS OF Cc" : c;
    std::string number(1, char(vf_range('4', '6', "number")));
    std::string bt = tags == 3 ? "ee UTF8String OPTIONAL" : "ee [" + number + "] UTF8String OPTIONAL";
    std::string bc = tags == 3 ? "ff Dd" : "ff [3] Dd";
    if (tags == 3) { c = "gg INTEGER DEFAULT 5"; if (!chain) b0 = c; }
    std::string more = ext == 1 ? ", ..., hh BOOLEAN" : "";
    std::string b    = bt + ", " + b0 + ", " + bc;
    std::string full = bt + ", " + c + ", " + bc;
    std::string bdef;
    std::string ref = "Bb";
    switch (base)
    {
    case 1: bdef = "Bb ::= B2 B2 ::= " + open + b + more + " } "; break;
    case 2: bdef = "Bb ::= [9] " + open + b + more + " } "; break;
    case 3: bdef = "Bb ::= [8] B2 B2 ::= [9] " + open + b + more + " } "; break;
    case 4: ref = open + b + more + " }"; break;
    default: bdef = "Bb ::= " + open + b + more + " } "; break;
    }
    std::string rest = bdef + "Cc ::= " + open + c + (ext == 1 ? ", ... , ii NULL } " : " } ") + "Dd ::= CHOICE { jj NULL, kk BOOLEAN } ";
    auto type = [&](const std::string& included) {
        std::vector<std::string> parts{tags == 3 ? "aa INTEGER" : "aa [0] INTEGER", tags == 3 ? "bb NULL" : "bb [1] NULL"};
        parts.insert(parts.begin() + place, included);
        std::string t = open;
        for (size_t i = 0; i < parts.size(); i++) t += (i ? ", " : "") + parts[i] + ((ext == 2) & (i == 0) ? ", ..." : "");
        t += " }";
        return base == 5 ? "Aa ::= SEQUENCE { qq " + t + ", rr SEQUENCE OF NULL } " : "Aa ::= " + t + " ";
    };
    std::string one = type("COMPONENTS OF " + ref), two = type(full);
    if (first) { one += rest; two += rest; }
    else { one = rest + one; two = rest + two; }
    equivalent(module("Mm", tags, one), module("Mm", tags, two));
}
// COMPONENTS OF a type of another module: its references and tags keep the meaning they have there
extern "C" void vf_components_imported()
{
    int  kind  = int(vf_pick(0, 1, "kind"));
    bool alias = vf_pick(0, 1, "alias") != 0;
    int  here  = int(vf_pick(0, 2, "tags here")), there = int(vf_pick(0, 2, "tags there"));
    bool first = vf_pick(0, 1, "first") != 0;
    std::string open = braces[kind];
    std::string number(1, char(vf_range('6', '9', "number")));
    std::string keyword = there == 2 ? "IMPLICIT " : "EXPLICIT ";
    std::string n = module("Nn", there, "Bb ::= " + std::string(alias ? "B2 B2 ::= " : "") + open + "ee [4] Dd, ff [5] SEQUENCE OF Dd, gg [" + number + "] INTEGER OPTIONAL } Dd ::= UTF8String");
    std::string a1 = "Aa ::= " + open + "aa [1] Dd, COMPONENTS OF Bb } Dd ::= BOOLEAN";
    std::string a2 = "Aa ::= " + open + "aa [1] Dd, ee [4] " + keyword + "Nn.Dd, ff [5] " + keyword + "SEQUENCE OF Nn.Dd, gg [" + number + "] " + keyword + "INTEGER OPTIONAL } Dd ::= BOOLEAN";
    std::string m1 = module("Mm", here, a1, "IMPORTS Bb FROM Nn; "), m2 = module("Mm", here, a2, "IMPORTS Bb FROM Nn; ");
    if (first) equivalent(m1 + n, m2 + n);
    else equivalent(n + m1, n + m2);
}
// parameterized types against what they stand for (X.683)
extern "C" void vf_parameters()
{
    static const char* const actual[] = {"BOOLEAN", "[3] UTF8String", "SEQUENCE OF NULL", "Mm.Dd", "SEQUENCE { zz INTEGER }", "CHOICE { yy NULL, xx Dd }", "ENUMERATED { ww, vv(4) }", "Dd"};
    int  n = int(vf_pick(1, 3, "parameters"));
    char number = char(vf_range('0', '9', "number"));
    std::vector<std::string> arg;
    for (int i = 0; i < n; i++)
    {
        int a = int(vf_pick(0, n == 1 ? 7 : FULL ? (n == 2 ? 6 : 3) : n == 3 ? 1 : i == 0 ? 6 : 1, "actual"));
        arg.push_back(actual[a]);
        if (a == 1) arg[i][1] = number;
    }
    int body = int(vf_pick(0, 6, "body")), use = int(FULL || n == 1 ? vf_pick(0, 7, "use") : n == 2 ? vf_pick(0, 1, "use") * 4 : 1);
    int  tags  = int(FULL ? vf_pick(0, 3, "tags") : n == 1 ? vf_pick(0, 1, "tags") * 2 + 1 : 3);
    bool first = FULL ? vf_pick(0, 1, "first") != 0 : (body & 1) != 0;
    auto text = [&](const std::vector<std::string>& p) -> std::string {
        const std::string &x = p[0], &y = p[n > 1 ? 1 : 0], &z = p[n > 2 ? 2 : 0];
        switch (body)
        {
        case 0: return "SEQUENCE { aa [10] " + x + ", bb [11] " + y + " OPTIONAL, cc [12] " + z + ", ... }";
        case 1: return "SET { aa [10] " + x + ", bb SEQUENCE OF " + y + ", cc [12] " + z + " OPTIONAL }";
        case 2: return "CHOICE { aa [10] " + x + ", bb [11] " + y + ", cc SEQUENCE { dd " + z + " } }";
        case 3: return "SEQUENCE OF SEQUENCE { aa [10] " + x + ", bb SET OF " + y + ", cc [12] EXPLICIT " + z + " }";
        case 4: return "SET OF CHOICE { aa [10] " + x + ", bb [11] " + y + ", cc [12] " + z + " }";
        case 5: return "[2] SEQUENCE { aa [10] " + x + ", bb [11] SEQUENCE { ee " + y + " }, cc [12] CHOICE { ff [0] " + z + ", gg Dd } }";
        default: return "SEQUENCE { aa " + x + ", bb [11] " + y + ", cc [12] " + z + " }";
        }
    };
    static const char* const names[] = {"Tt", "Uu", "Vv"};
    std::vector<std::string> formal;
    std::string flist, alist;
    for (int i = 0; i < n; i++)
    {
        formal.push_back(names[i]);
        flist += (i ? ", " : "") + std::string(names[i]);
        alist += (i ? ", " : "") + arg[i];
    }
    auto used = [&](const std::string& t) -> std::string {
        switch (use)
        {
        case 0: return "Aa ::= " + t + " ";
        case 1: return "Aa ::= SEQUENCE { pp " + t + " } ";
        case 2: return "Aa ::= [5] " + t + " ";
        case 3: return "Aa ::= SEQUENCE OF " + t + " ";
        case 5: return "Aa ::= SET OF " + t + " ";
        case 6: return "Aa ::= CHOICE { pp " + t + ", qq [7] NULL } ";
        case 7: return "Aa ::= SEQUENCE { pp [5] SET OF " + t + ", qq [6] CHOICE { rr [7] " + t + " } } ";
        default: return "Aa ::= SET { pp [5] SEQUENCE OF " + t + ", qq NULL OPTIONAL } ";
        }
    };
    std::string rest = "Dd ::= OCTET STRING ", pattern = "Pp{" + flist + "} ::= " + text(formal) + " ";
    std::string one = used("Pp{" + alist + "}");
    std::string two = used(text(arg));
    equivalent(module("Mm", tags, first ? one + pattern + rest : pattern + one + rest), module("Mm", tags, two + rest));
}
// tag defaults against tags with a keyword (X.680 31.2.7)
static std::string tag(bool explicit_, bool said, char number)
{
    return "[" + std::string(1, number) + "] " + (said ? explicit_ ? "EXPLICIT " : "IMPLICIT " : "");
}
extern "C" void vf_tags()
{
    int d = int(vf_pick(0, 3, "tags"));
    struct Kind { const char* text; bool choice; };
    static const Kind kinds[] = {{"INTEGER", false}, {"Cc", true}, {"C2", true}, {"Ss", false}, {"SEQUENCE OF Cc", false}, {"CHOICE { ll [0] IMPLICIT NULL, mm [1] IMPLICIT BOOLEAN }", true}, {"[6] EXPLICIT Ss", false}, {"[6] IMPLICIT Ss", false}, {"[6] EXPLICIT Cc", false}};
    const Kind& k = kinds[vf_pick(0, 8, "type")];
    int place = int(vf_pick(0, 6, "place"));
    bool is_explicit = k.choice | (d < 2);
    char number = char(vf_range('3', '9', "number"));
    int  other = int(vf_pick(0, 2, "other tags"));
    auto text = [&](bool said) {
        std::string t = tag(is_explicit, said, number) + k.text;
        switch (place)
        {
        case 0: return "Aa ::= " + t + " ";
        case 1: return "Aa ::= SEQUENCE { aa " + t + ", bb [2] IMPLICIT NULL } ";
        case 2: return "Aa ::= SET { aa " + t + " OPTIONAL, bb [2] IMPLICIT NULL } ";
        case 3: return "Aa ::= CHOICE { aa " + t + ", bb [2] IMPLICIT NULL } ";
        case 4: return "Aa ::= SEQUENCE OF " + t + " ";
        case 5: return "Aa ::= SEQUENCE { aa [1] EXPLICIT SET OF " + t + " } ";
        default: return "Aa ::= SEQUENCE { aa [1] EXPLICIT CHOICE { cc " + t + ", dd [2] IMPLICIT NULL } } ";
        }
    };
    std::string rest = "Cc ::= CHOICE { jj [0] IMPLICIT NULL, kk [1] IMPLICIT BOOLEAN } C2 ::= Cc Ss ::= SEQUENCE { hh [0] IMPLICIT NULL } ";
    equivalent(module("Mm", d, text(false) + rest), module("Mm", other, text(true) + rest));
}
// AUTOMATIC TAGS against written tags (X.680 25.7, 29.2)
extern "C" void vf_automatic()
{
    static const char* const types[] = {"INTEGER", "Cc", "Ss", "SEQUENCE OF Cc", "[6] IMPLICIT Ss"};
    int kind = int(vf_pick(0, 2, "kind")), n = int(vf_pick(1, 3, "components"));
    int marker = int(vf_pick(0, n + 1, "marker")), second = n + 1; // before the component of that number; n + 1: none
    if ((kind == 2) & (marker == 0)) vf_stop();
    if ((kind != 2) & (marker < n)) second = int(vf_pick(marker + 1, n + 1, "second"));
    if ((marker == 0) & (second < n)) vf_stop(); // not supported
    if (!FULL & (n == 3) & (kind == 1)) vf_stop();
    std::vector<int> type;
    bool tagged = false;
    for (int i = 0; i < n; i++)
    {
        type.push_back(int(vf_pick(0, 4, "type")));
        tagged |= type[i] == 4;
    }
    int opt = kind == 2 ? 0 : FULL ? int(vf_pick(0, 1, "optional")) : n & 1;
    int additions = second < marker ? 0 : (second > n ? n : second) - (marker > n ? n : marker);
    auto text = [&](bool said) {
        std::string t = kind == 0 ? "SEQUENCE { " : kind == 1 ? "SET { " : "CHOICE { ";
        int root = 0, added = 0;
        bool comma = false;
        for (int i = 0; i <= n; i++)
        {
            if ((i == marker) | (i == second)) { t += comma ? ", ..." : "..."; comma = true; }
            if (i == n) break;
            bool addition = (i >= marker) & (i < second);
            int  number   = addition ? n - additions + added : root;
            (addition ? added : root)++;
            bool choice = type[i] == 1;
            t += std::string(comma ? ", " : "") + char('a' + i) + std::string("a ") + (said & !tagged ? tag(choice, true, char('0' + number)) : "") + types[type[i]] + (opt ? " OPTIONAL" : "");
            comma = true;
        }
        return "Aa ::= " + t + " } ";
    };
    // without automatic tags, several components of the same type are ambiguous: left out
    if (tagged)
        for (int i = 0; i < n; i++)
            for (int j = 0; j < i; j++)
                if ((type[i] == type[j]) | ((type[i] == 2) & (type[j] == 3)) | ((type[i] == 3) & (type[j] == 2))) vf_stop();
    std::string rest1 = "Cc ::= CHOICE { jj NULL, kk BOOLEAN } Ss ::= SEQUENCE { hh NULL, ii INTEGER OPTIONAL } ";
    std::string rest2 = "Cc ::= CHOICE { jj [0] IMPLICIT NULL, kk [1] IMPLICIT BOOLEAN } Ss ::= SEQUENCE { hh [0] IMPLICIT NULL, ii [1] IMPLICIT INTEGER OPTIONAL } ";
    equivalent(module("Mm", 3, text(false) + rest1), module("Mm", 1, text(true) + rest2));
}
// what does not change the encoding does not change the code (X.690 8.1 to 8.22)
extern "C" void vf_constraints()
{
    static const char* const pairs[][2] = {
        {"INTEGER", "INTEGER (0..#)"}, {"INTEGER", "INTEGER (# | 7)"}, {"INTEGER", "INTEGER (MIN..#, ...)"}, {"INTEGER", "INTEGER { one(#) }"}, {"INTEGER", "INTEGER { one(1), two(#) } (0..MAX)"},
        {"OCTET STRING", "OCTET STRING (SIZE (#))"}, {"OCTET STRING", "OCTET STRING (SIZE (0..#))"}, {"UTF8String", "UTF8String (SIZE (1..#))"}, {"SEQUENCE OF Dd", "SEQUENCE (SIZE (1..#)) OF Dd"},
        {"SET OF Dd", "SET SIZE (1..#) OF Dd"}, {"BIT STRING", "BIT STRING { first(0), second(#) }"}, {"Dd", "Dd (#)"}, {"Dd", "Dd (0..#)"}, {"PrintableString", "PrintableString (FROM (\"a\"..\"#\"))"},
        {"SEQUENCE OF INTEGER", "SEQUENCE OF INTEGER (0..#)"}, {"REAL", "REAL"}};
    const auto& p = pairs[vf_pick(0, sizeof(pairs) / sizeof(pairs[0]) - 1, "type")];
    std::string with = p[1];
    char digit = char(vf_range('0', '9', "digit"));
    for (char& c : with) if (c == '#') c = digit;
    int place = int(vf_pick(0, 5, "place")), tags = int(vf_pick(0, 3, "tags"));
    auto text = [&](const std::string& t) {
        switch (place)
        {
        case 0: return "Aa ::= " + t + " ";
        case 1: return "Aa ::= SEQUENCE { aa " + t + ", bb NULL } ";
        case 2: return "Aa ::= SET { aa " + t + " OPTIONAL, ... } ";
        case 3: return "Aa ::= CHOICE { aa " + t + ", bb NULL } ";
        case 4: return "Aa ::= [4] " + t + " ";
        default: return "Aa ::= SEQUENCE OF " + t + " ";
        }
    };
    std::string rest = "Dd ::= INTEGER ";
    equivalent(module("Mm", tags, text(p[0]) + rest), module("Mm", tags, text(with) + rest));
}
// fields of an information object class against their types (X.681)
extern "C" void vf_class_fields()
{
    static const char* const types[] = {"INTEGER", "BOOLEAN", "OBJECT IDENTIFIER", "Dd", "[3] UTF8String", "SEQUENCE OF Dd", "[5] EXPLICIT Dd", "OCTET STRING"};
    std::string t = types[vf_pick(0, 7, "type")];
    int place = int(vf_pick(0, 5, "place")), tags = int(vf_pick(0, 3, "tags"));
    bool first = vf_pick(0, 1, "first") != 0, unique = vf_pick(0, 1, "unique") != 0;
    int  syntax = int(vf_pick(0, 1, "syntax"));
    auto text = [&](const std::string& f) {
        switch (place)
        {
        case 0: return "Aa ::= " + f + " ";
        case 1: return "Aa ::= SEQUENCE { aa " + f + ", bb [9] NULL } ";
        case 2: return "Aa ::= SET { aa " + f + " OPTIONAL, bb [9] NULL } ";
        case 3: return "Aa ::= CHOICE { aa " + f + ", bb [9] NULL } ";
        case 4: return "Aa ::= [4] " + f + " ";
        default: return "Aa ::= SEQUENCE { aa [7] SEQUENCE OF " + f + " } ";
        }
    };
    std::string cls = std::string("CL ::= CLASS { &id ") + t + (unique ? " UNIQUE" : "") + ", &Type } " + (syntax ? "WITH SYNTAX { &Type ID &id } " : "");
    std::string rest = "Dd ::= NULL ";
    std::string one = text("CL.&id"), two = text(t);
    equivalent(module("Mm", tags, first ? one + cls + rest : cls + one + rest), module("Mm", tags, two + rest));
}
