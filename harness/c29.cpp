// Values written in a specification against the value of the C++ the compiler prints for them
#include "asn.h"
#include <vector>
#ifndef NDIGITS
#define NDIGITS 5
#endif
#ifndef NCHARS
#define NCHARS 3
#endif
#ifndef NHEXDIGITS
#define NHEXDIGITS 5
#endif
#ifndef NBITS
#define NBITS 10
#endif
// ---- reading of the printed C++
struct Value_
{
    enum Kind { NONE, INTEGER, BOOLEAN, STRING, OID, NAME } kind = NONE;
    bool                  negative = false;
    uint64_t              number   = 0;    // magnitude, or 0/1
    std::string           text;            // octets or name
    std::vector<uint64_t> arcs;
    std::string           type;
};
struct Reader
{
    const std::string& s;
    size_t             at;
    bool               bad = false;
    char peek() const { return at < s.size() ? s[at] : '\0'; }
    void blanks() { while (peek() == ' ' || peek() == '\n') at++; }
    bool take(const char* word)
    {
        blanks();
        size_t n = 0;
        while (word[n] != 0) n++;
        if (at + n > s.size()) return false;
        for (size_t i = 0; i < n; i++)
            if (s[at + i] != word[i]) return false;
        at += n;
        return true;
    }
    static bool name_char(char c) { return bool(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == ':')); }
    static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    uint64_t digits()
    {
        uint64_t v = 0;
        bool     any = false;
        // a leading zero makes the number octal, the compiler never prints one
        if (peek() == '0' && at + 1 < s.size() && s[at + 1] >= '0' && s[at + 1] <= '9') bad = true;
        while (peek() >= '0' && peek() <= '9')
        {
            v = v * 10 + uint64_t(peek() & 15);
            at++;
            any = true;
        }
        bad |= !any;
        while (peek() == 'L' || peek() == 'l' || peek() == 'u' || peek() == 'U') at++;
        return v;
    }
    void literal(std::string& out) // one string literal
    {
        if (!take("\"")) { bad = true; return; }
        for (;;)
        {
            if (at >= s.size() || peek() == '\n') { bad = true; return; }
            char c = s[at++];
            if (c == '"') return;
            if (c != '\\') { out += c; continue; }
            char e = peek();
            at++;
            if (e >= '0' && e <= '7')
            {
                int v = e - '0';
                for (int i = 0; i < 2 && peek() >= '0' && peek() <= '7'; i++) v = v * 8 + (s[at++] - '0');
                bad |= v > 255;
                out += char(v);
            }
            else if (e == 'x')
            {
                unsigned v = 0;
                if (hex(peek()) < 0) bad = true;
                while (hex(peek()) >= 0) { v = v * 16 + unsigned(hex(s[at++])); bad |= v > 255; }
                out += char(v);
            }
            else if (e == 'n') out += '\n';
            else if (e == 't') out += '\t';
            else if (e == 'r') out += '\r';
            else if (e == 'a') out += '\a';
            else if (e == 'b') out += '\b';
            else if (e == 'f') out += '\f';
            else if (e == 'v') out += '\v';
            else if (e == '"' || e == '\\' || e == '\'' || e == '?') out += e;
            else bad = true;
        }
    }
    std::string c_text() // adjacent literals; what a const char* makes of them ends at the first zero
    {
        std::string t;
        do literal(t);
        while (!bad && (blanks(), peek() == '"'));
        return t;
    }
    static void end_at_zero(std::string& t)
    {
        for (size_t i = 0; i < t.size(); i++)
            if (t[i] == 0) { t.resize(i); return; }
    }
    Value_ expression()
    {
        Value_ v;
        blanks();
        bool view = take("absl::string_view") || take("::absl::string_view");
        if (view || peek() == '"')
        {
            v.kind = Value_::STRING;
            bool round = view && take("("), curly = view && !round && take("{");
            v.text = c_text();
            if ((round | curly) && take(","))
            {
                blanks();
                uint64_t n = digits();
                bad |= n > v.text.size() + 1;    // with the zero behind the literal
                if (!bad && n <= v.text.size()) v.text.resize(n);
                else if (!bad) v.text += '\0';
            }
            else end_at_zero(v.text);
            if (view) bad |= !(round ? take(")") : curly && take("}"));
            return v;
        }
        if (take("ObjectIdentifier<>") || take("::fast_ber::ObjectIdentifier<>"))
        {
            v.kind = Value_::OID;
            bool round = take("(");
            bad |= !take("{");
            if (!take("}"))
            {
                do
                {
                    blanks();
                    v.arcs.push_back(digits());
                } while (!bad && take(","));
                bad |= !take("}");
            }
            if (round) bad |= !take(")");
            return v;
        }
        if (peek() == '-' || (peek() >= '0' && peek() <= '9'))
        {
            v.kind     = Value_::INTEGER;
            v.negative = take("-");
            v.number   = digits();
            return v;
        }
        while (name_char(peek())) v.text += s[at++];
        bad |= v.text.empty();
        v.kind = Value_::NAME;
        if (v.text == "true" || v.text == "false")
        {
            v.kind   = Value_::BOOLEAN;
            v.number = v.text == "true";
        }
        return v;
    }
};
// the constant `name`, or the default value of the component `name`; all occurrences have to agree on being one
static Value_ constant(const std::string& name, bool is_default)
{
    const std::string& out = vf_output[0];
    std::string key;
    if (is_default)
    {
        key = "struct DefaultValue" + name;
        key[19] = char(toupper(key[19]));
    }
    else key = " " + name + " = ";
    size_t at = out.find(key);
    vf_check(at != std::string::npos, "the value is in the generated code");
    Value_ v;
    if (is_default)
    {
        size_t g = out.find(" get_value()", at), r = out.find("return ", at);
        vf_check(g != std::string::npos && r != std::string::npos && g < r, "default value is returned by get_value()");
        size_t t = out.rfind(' ', g - 1);
        std::string type = out.substr(t + 1, g - t - 1);
        Reader rd{out, r + 7};
        v = rd.expression();
        v.type = type;
        vf_check(!rd.bad && rd.take(";"), "default value is a complete expression");
    }
    else
    {
        size_t t = out.rfind(' ', at - 1), l = out.rfind('\n', at);
        if (l != std::string::npos && (t == std::string::npos || t < l)) t = l;
        std::string type = out.substr(t + 1, at - t - 1);
        Reader rd{out, at + key.size()};
        v = rd.expression();
        v.type = type;
        vf_check(!rd.bad && rd.take(";"), "value is a complete expression");
    }
    return v;
}
// what a variable of the printed type holds
static void stored(Value_& v)
{
    if (v.kind != Value_::INTEGER) return;
    const std::string& t = v.type;
    bool wide = t == "int64_t" || t == "std::int64_t" || t == "auto" || t == "long" || t == "::fast_ber::Integer<>";
    vf_check(wide, "the type of the constant holds all numbers of 64 bits");
}
static std::string decimal_prefix(const char* p) { return p; }
enum Context_ { PLAIN, ALIAS, TAGGED, TAGGED_ALIAS, DEFAULT, DEFAULT_ALIAS, DEFAULT_TAGGED, DEFAULT_NESTED, CONTEXTS };
static int context()
{
    return int(vf_pick(0, CONTEXTS - 1, "context"));
}
// a specification with one value of the built-in type `type`
static bool specification(int c, const std::string& type, const std::string& value, const std::string& more = "", const std::string& imports = "", const std::string& modules = "")
{
    std::string t = modules + "M DEFINITIONS ";
    static const char* const deflt[3] = {"", "IMPLICIT TAGS ", "AUTOMATIC TAGS "};
    t += deflt[c % 3];
    t += "::= BEGIN " + imports;
    if (c == ALIAS || c == DEFAULT_ALIAS) t += "A ::= " + type + " ";
    if (c == TAGGED_ALIAS || c == DEFAULT_TAGGED) t += "A ::= [7] " + type + " ";
    if (c == PLAIN) t += "v " + type + " ::= " + value;
    if (c == ALIAS) t += "v A ::= " + value;
    if (c == TAGGED) t += "v [5] " + type + " ::= " + value;
    if (c == TAGGED_ALIAS) t += "v A ::= " + value;
    if (c == DEFAULT) t += "S ::= SEQUENCE { v " + type + " DEFAULT " + value + " }";
    if (c == DEFAULT_ALIAS) t += "S ::= SET { w [9] BOOLEAN, v A DEFAULT " + value + " }";
    if (c == DEFAULT_TAGGED) t += "S ::= SEQUENCE { v [5] A DEFAULT " + value + ", ... }";
    if (c == DEFAULT_NESTED) t += "S ::= SEQUENCE { w SEQUENCE OF SEQUENCE { v " + type + " DEFAULT " + value + " } }";
    t += " " + more + " END";
    return compile(t);
}
static Value_ result(int c)
{
    Value_ v = constant("v", c >= DEFAULT);
    stored(v);
    return v;
}
static void same_text(const std::string& got, const std::string& want, const char* msg)
{
    vf_check(got.size() == want.size(), msg);
    if (got.size() != want.size()) return;
    bool eq = true;
    for (size_t i = 0; i < want.size(); i++) eq &= got[i] == want[i];
    vf_check(eq, msg);
}
static void integer(int c, const std::string& text, bool negative, uint64_t magnitude)
{
    vf_check(specification(c, "INTEGER", text), "an INTEGER value is accepted");
    Value_ v = result(c);
    vf_check(v.kind == Value_::INTEGER, "an INTEGER value is a number");
    vf_check(v.number == magnitude && (v.negative == negative || magnitude == 0), "the number is unchanged");
}
extern "C" void vf_integer()
{
    int         c = context();
    bool        neg = vf_pick(0, 1, "negative") != 0;
    int         n = int(vf_pick(1, NDIGITS, "digits"));
    std::string t = neg ? "-" : "";
    uint64_t    m = 0;
    for (int i = 0; i < n; i++)
    {
        char d = char(vf_range(i == 0 && n > 1 ? '1' : '0', '9', "digit"));
        t += d;
        m = m * 10 + uint64_t(d & 15);
    }
    vf_cover("number");
    integer(c, t, neg, m);
}
/// around the limits of the machine types
extern "C" void vf_integer_limits()
{
    int c = int(vf_pick(0, 1, "default") != 0 ? DEFAULT : PLAIN);
    static const char* const prefix[] = {"21474836", "42949672", "92233720368547758", "9007199254740", "10000000000000000", "12345678901234567", "4611686018427387"};
    static const uint64_t value[] = {21474836, 42949672, 92233720368547758, 9007199254740, 10000000000000000, 12345678901234567, 4611686018427387};
    int  k = int(vf_pick(0, 6, "prefix"));
    bool neg = vf_pick(0, 1, "negative") != 0;
    std::string t = neg ? "-" : "";
    t += prefix[k];
    uint64_t m = value[k];
    for (int i = 0; i < 2; i++)
    {
        char d = char(vf_range('0', '9', "digit"));
        t += d;
        m = m * 10 + uint64_t(d & 15);
    }
    uint64_t limit = uint64_t(1) << 63;
    if (vf_fork(m > limit - (neg ? 0 : 1)))
    {
        vf_cover("too large");
        vf_check(!specification(c, "INTEGER", t), "numbers of more than 64 bits are refused");
        return;
    }
    vf_cover("number");
    integer(c, t, neg, m);
}
extern "C" void vf_boolean()
{
    int  c = context();
    bool b = vf_pick(0, 1, "value") != 0;
    vf_check(specification(c, "BOOLEAN", b ? "TRUE" : "FALSE"), "a BOOLEAN value is accepted");
    Value_ v = result(c);
    vf_check(v.kind == Value_::BOOLEAN && v.number == b && (v.type == "bool" || v.type == "auto"), "the truth value is unchanged");
}
static bool is_text_type(const std::string& t) { return t == "absl::string_view" || t == "::absl::string_view" || t == "auto"; }
extern "C" void vf_string()
{
    int c = context();
    static const char* const types[] = {"IA5String", "OCTET STRING", "UTF8String", "PrintableString"};
    std::string type = types[c % 4], want, t = "\"";
    int n = int(vf_pick(0, NCHARS, "characters"));
    for (int i = 0; i < n; i++)
    {
        char x = char(vf_u8("character"));
        vf_assume((x != 0) & (x != '\n') & (x != '\r') & (x != '\v') & (x != '\f')); // cstrings over several lines lose white space
        want += x;
        t += x;
        if (vf_fork(x == '"')) t += '"';
    }
    t += '"';
    vf_cover("text");
    vf_check(specification(c, type, t), "a string value is accepted");
    Value_ v = result(c);
    vf_check(v.kind == Value_::STRING && is_text_type(v.type), "a string value is a string");
    same_text(v.text, want, "the characters are unchanged");
}
static void digits(const char* kind, int bits_each, int most)
{
    int  c   = context();
    bool bit = vf_pick(0, 1, "BIT STRING") != 0;
    int  n   = int(vf_pick(0, most, "digits"));
    std::string t = "'", want;
    int have = 0, octet = 0;
    for (int i = 0; i < n; i++)
    {
        int d = int(vf_range(0, (1 << bits_each) - 1, "digit"));
        char x = char(d < 10 ? '0' + d : 'A' + d - 10);
        t += x;
        octet = octet << bits_each | d;
        have += bits_each;
        if (have == 8)
        {
            want += char(octet);
            have = octet = 0;
        }
    }
    if (have > 0) want += char(octet << (8 - have));
    t += "'";
    t += kind;
    if (bit) want.insert(want.begin(), char(have == 0 ? 0 : 8 - have)); // contents of a BIT STRING
    vf_cover("octets");
    vf_check(specification(c, bit ? "BIT STRING" : "OCTET STRING", t), "a string of digits is accepted");
    Value_ v = result(c);
    vf_check(v.kind == Value_::STRING && is_text_type(v.type), "a string of digits is a string");
    same_text(v.text, want, "the octets are the ones written");
}
extern "C" void vf_hex() { digits("H", 4, NHEXDIGITS); }
extern "C" void vf_bits() { digits("B", 1, NBITS); }
static void arc(std::string& t, std::vector<uint64_t>& want, uint64_t number, const std::string& digits, int form)
{
    if (!want.empty()) t += " ";
    if (form == 1) t += "name-" + std::string(1, char('a' + want.size())) + "(" + digits + ")";
    else t += digits;
    want.push_back(number);
}
extern "C" void vf_oid()
{
    int c = int(vf_pick(PLAIN, TAGGED_ALIAS, "context"));
    std::string t = "{ ";
    std::vector<uint64_t> want;
    int n = int(vf_pick(2, 4, "components"));
    // the first two arcs by number, by name or both
    static const struct { const char* text; int number; } roots[] = {{"0", 0}, {"1", 1}, {"2", 2}, {"iso", 1}, {"itu-t", 0}, {"ccitt", 0}, {"joint-iso-itu-t", 2}, {"joint-iso-ccitt", 2}, {"iso(1)", 1}, {"itu-t(0)", 0}, {"joint-iso-itu-t(2)", 2}};
    static const struct { const char* text; int root, number; } second[] = {{"standard", 1, 0}, {"registration-authority", 1, 1}, {"member-body", 1, 2}, {"identified-organization", 1, 3}, {"recommendation", 0, 0}, {"question", 0, 1}, {"administration", 0, 2}, {"network-operator", 0, 3}, {"identified-organization", 0, 4}, {"member-body(2)", 1, 2}, {"identified-organization(3)", 1, 3}};
    int r = int(vf_pick(0, 10, "first arc"));
    t += roots[r].text;
    want.push_back(uint64_t(roots[r].number));
    int s = int(vf_pick(0, 11, "second arc"));
    if (s == 11)
    {
        char a = char(vf_range('1', '3', "digit")), b = char(vf_range('0', '9', "digit"));
        arc(t, want, uint64_t((a & 15) * 10 + (b & 15)), std::string{a, b}, int(vf_pick(0, 1, "named")));
    }
    else
    {
        if (second[s].root != roots[r].number) vf_stop();
        t += " ";
        t += second[s].text;
        want.push_back(uint64_t(second[s].number));
    }
    for (int i = 2; i < n; i++)
    {
        static const char* const prefix[] = {"", "1", "11354", "429496729", "922337203685477580"};
        static const uint64_t value[] = {0, 1, 11354, 429496729, 922337203685477580};
        int k = i == 2 ? int(vf_pick(0, 4, "arc")) : i == 3 ? 2 : 0;
        char d = char(vf_range('0', '7', "digit"));
        arc(t, want, value[k] * 10 + uint64_t(d & 15), prefix[k] + std::string(1, d), i == 2 ? int(vf_pick(0, 1, "named")) : s & 1);
    }
    bool named = vf_pick(0, 1, "value of another") != 0;
    if (named)
    {
        t += " xq";
        want.push_back(77);
    }
    t += " }";
    if (vf_known("oid-name-form", named)) return;
    vf_cover("object identifier");
    vf_check(specification(c, "OBJECT IDENTIFIER", t, named ? "xq INTEGER ::= 77" : ""), "an OBJECT IDENTIFIER value is accepted");
    Value_ v = result(c);
    vf_check(v.kind == Value_::OID && v.arcs.size() == want.size(), "all components are there");
    bool eq = true;
    for (size_t i = 0; i < want.size() && i < v.arcs.size(); i++) eq &= v.arcs[i] == want[i];
    vf_check(eq, "the components are the ones written");
}
/// names of enumeration items and of other values stand for these
extern "C" void vf_reference()
{
    int c = context();
    static const char* const types[] = {"INTEGER", "BOOLEAN", "OCTET STRING", "OBJECT IDENTIFIER", "BIT STRING", "E"};
    static const char* const values[] = {"12", "TRUE", "'0F'H", "{ 1 2 3 }", "'101'B", ""};
    int k = int(vf_pick(0, 5, "type"));
    // the printed reference is to the definition of that name
    char n0 = char(vf_range('a', 'z', "name")), n1 = char(vf_range('a', 'z', "name"));
    std::string other = "xq";
    other += n0;
    other += n1;
    int  where = k < 5 ? int(vf_pick(0, k == 0 ? 2 : 1, "defined in")) : 0;   // this module, another, as a named number of the type
    bool ok;
    if (k == 5) ok = specification(c, "E", other, "E ::= ENUMERATED { first(1), " + other + "(4), last(9) }");
    else
    {
        if (k == 3 && c >= DEFAULT) vf_stop(); // no constant OBJECT IDENTIFIER
        std::string def = other + " " + types[k] + " ::= " + values[k];
        if (where == 2)
        {
            vf_check(specification(c, "INTEGER { zz(7), " + other + "(12) }", other, vf_pick(0, 1, "value of the same name") != 0 ? other + " INTEGER ::= 5" : ""), "a named number is accepted");
            Value_ v = result(c);
            vf_check(v.kind == Value_::INTEGER && !v.negative && v.number == 12, "a named number is the one of its type");
            vf_cover("named number");
            return;
        }
        if (where == 1) ok = specification(c, types[k], other, "", "IMPORTS " + other + " FROM N; ", "N DEFINITIONS ::= BEGIN " + def + " END ");
        else ok = specification(c, types[k], other, def);
    }
    vf_check(ok, "a reference to a value is accepted");
    vf_cover("reference");
    Value_ v = result(c);
    vf_check(v.kind == Value_::NAME, "a reference to a value is a name");
    std::string want = other;
    if (k == 5)
    {
        size_t colon = v.text.rfind(':');
        vf_check(colon != std::string::npos && colon > 8 && v.text.substr(colon - 8, 9) == "EValues::", "an enumeration item is one of its enumeration");
        want = v.text.substr(0, colon + 1) + other;
    }
    same_text(v.text, want, "the name is the one referred to");
    if (k < 5)
    {
        const std::string& text = vf_output[0];
        if (where == 1)
        {
            size_t i = text.rfind(" " + other + " = ");
            size_t e = text.find(";", i);
            std::string from = text.substr(i, e - i);
            vf_check(from == " " + other + " = N::" + other || from == " " + other + " = ::fast_ber::N::" + other, "an imported value is that of the other module");
        }
        Value_ o = constant(other, false);
        vf_check(o.kind == (k == 0 ? Value_::INTEGER : k == 1 ? Value_::BOOLEAN : k == 3 ? Value_::OID : Value_::STRING), "the value referred to is there");
        const std::string& out = vf_output[0];
        size_t d = out.find(" " + other + " = "), u = out.find(c >= DEFAULT ? "struct DefaultValue" : " v = ");
        vf_check(d < u, "the value referred to is defined first");
    }
}
