// C31 Printing a packet: the text is read back and compared with the packet element by element.
#include "common.h"
#include "timeenv.h"
#include <sstream>
namespace absl { ABSL_NAMESPACE_BEGIN
std::string FormatTime(absl::Time) { return "2000-01-01T00:00:00+00:00"; }
ABSL_NAMESPACE_END }
struct Reader
{
    const char* p;
    size_t      n, at = 0;
    void blanks() { while (at < n && p[at] == ' ') at++; }
    void word(const char* w)
    {
        blanks();
        for (; *w; w++, at++) vf_check(at < n && p[at] == *w, "expected word, bracket or name in the printed text");
    }
    // the decimal number at the cursor: exactly the given value
    void number(uint64_t value, bool negative)
    {
        blanks();
        vf_check(at < n, "number in the printed text");
        if (p[at] == 1 || p[at] == 2) // stands for the digits
        {
            uint64_t v = 0;
            vf_check(at + 9 <= n, "number");
            for (int i = 0; i < 8; i++) v |= uint64_t(uint8_t(p[at + 1 + i])) << (8 * i);
            vf_check((v == value) & ((p[at] == 2) == negative), "printed number is the number of the packet");
            at += 9;
            return;
        }
        if (negative) word("-");
        std::string d = std::to_string(value);
        word(d.c_str());
        vf_check(at == n || p[at] < '0' || p[at] > '9', "printed number is the number of the packet");
    }
    bool number_here() { blanks(); return at < n && (p[at] == 1 || p[at] == 2 || p[at] == '-' || (p[at] >= '0' && p[at] <= '9')); }
    void any_number()
    {
        blanks();
        vf_check(at < n, "number in the printed text");
        if (p[at] == 1 || p[at] == 2) { at += 9; vf_check(at <= n, "number"); return; }
        if (p[at] == '-') at++;
        size_t b = at;
        while (at < n && p[at] >= '0' && p[at] <= '9') at++;
        vf_check(at > b, "number in the printed text");
    }
    // characters of an unquoted word
    void any_word()
    {
        blanks();
        size_t b = at;
        while (at < n && p[at] != ' ' && p[at] != '"' && p[at] != '{' && p[at] != '}' && p[at] != '[' && p[at] != ']' && p[at] != ',') at++;
        vf_check(at > b, "some content is printed");
    }
    // a quoted string of which the characters are c[0..k), or a stand-in for characters that cannot be printed
    void quoted(const uint8_t* c, size_t k)
    {
        word("\"");
        bool printable = true;
        for (size_t i = 0; i < k; i++) printable = printable & (c[i] >= 0x20) & (c[i] < 0x7f);
        if (!vf_fork(printable)) { vf_cover("characters that cannot be printed"); word("binary data\""); return; }
        for (size_t i = 0; i < k; i++)
        {
            if (vf_fork((c[i] == '"') | (c[i] == '\\'))) { vf_cover("quotation mark or backslash"); vf_check(at < n && p[at] == '\\', "a quotation mark inside a string is marked"); at++; }
            vf_check(at < n && p[at] == char(c[i]), "printed character is the character of the packet");
            at++;
        }
        vf_check(at < n && p[at] == '"', "the string ends where the content ends");
        at++;
    }
};
static const char* universal_name(uint64_t t)
{
    static const char* const names[] = {"Reserved", "Boolean", "Integer", "Bit String", "Octet String", "Null", "Object Identifier", "Object Descriptor", "Instance Of / External", "Real", "Enumerated",
        "Embedded PDV", "UTF8 String", "Relative OID", nullptr, nullptr, "Sequence / Sequence Of", "Set / Set Of", "Numeric String", "Printable String", "Teletex String / T161 String", "Videotex String",
        "IA5 String", "UTC Time", "Generalized Time", "Graphic String", "Visible String / ISO646 String", "General String", "Universal String", "Character String", "BMP String"};
    return t < 31 && names[t] ? names[t] : "Unknown Universal Tag";
}
static void content(Reader& r, const ref::Tlv& t, const uint8_t* c)
{
    uint64_t u = t.cls == 0 ? t.tag : ~uint64_t(0);
    if (u == 1)
    {
        if (t.clen == 1) { bool v = vf_fork(c[0] != 0); r.word(v ? "true" : "false"); vf_cover("boolean"); }
        else r.any_word();
        return;
    }
    if (u == 2 || u == 10)
    {
        if (t.clen >= 1 && t.clen <= 8)
        {
            int64_t v = int8_t(c[0]);
            for (size_t i = 1; i < t.clen; i++) v = int64_t(uint64_t(v) << 8 | c[i]);
            bool neg = vf_fork(v < 0);
            r.number(neg ? 0 - uint64_t(v) : uint64_t(v), neg);
            vf_cover("integer");
        }
        else r.any_word();
        return;
    }
    if (u == 5) { r.word("null"); return; }
    if (u == 6) // components
    {
        r.word("[");
        size_t   count = 0;
        uint64_t arc = 0;
        bool     good = t.clen > 0 && !vf_fork(c[t.clen - 1] & 0x80);
        for (size_t i = 0, b = 0; i < t.clen && good; i++)
        {
            if (i == b && c[i] == 0x80) good = false;
            if (!(c[i] & 0x80)) b = i + 1;
        }
        if (good)
        {
            for (size_t i = 0; i < t.clen; i++)
            {
                arc = arc << 7 | (c[i] & 0x7f);
                if (c[i] & 0x80) continue;
                if (count) r.word(",");
                if (count == 0)
                {
                    unsigned top = vf_fork(arc < 40 ? 0 : arc < 80 ? 1 : 2);
                    r.number(top, false);
                    r.word(",");
                    arc -= 40 * top;
                    count++;
                }
                r.number(arc, false);
                count++;
                arc = 0;
            }
            vf_cover("object identifier");
        }
        else
            for (r.blanks(); r.number_here(); count++)
            {
                r.any_number();
                r.blanks();
                if (r.at < r.n && r.p[r.at] == ',') { r.at++; vf_check(r.number_here(), "number after a comma"); }
            }
        r.word("]");
        return;
    }
    if (u == 9) { r.any_word(); vf_cover("real"); return; }
    if (u == 23 || u == 24)
    {
        r.blanks();
        if (r.at < r.n && r.p[r.at] != '"') { r.any_word(); vf_cover("time"); return; }
    }
    r.quoted(c, t.clen);
}
static void element(Reader& r, const uint8_t* b, size_t n, int depth)
{
    ref::Tlv t = ref::parse(b, n);
    if (!t.ok) { r.word("null"); return; }
    r.word("{"); r.word("\"length\""); r.word(":"); r.number(t.hlen + t.clen, false); r.word(",");
    r.word("\"identifier\""); r.word(":"); r.word("{"); r.word("\"class\""); r.word(":");
    static const char* const classes[] = {"\"Universal\"", "\"Application\"", "\"Context Specific\"", "\"Private\""};
    int cls = int(vf_fork(t.cls));
    r.word(classes[cls]); r.word(","); r.word("\"tag\""); r.word(":");
    if (cls == 0)
    {
        t.tag = vf_fork(t.tag > 30 ? 31 : t.tag);
        r.word("\""); r.word(universal_name(t.tag)); r.word("\"");
    }
    else r.number(t.tag, false);
    r.word("}"); r.word(","); r.word("\"content\""); r.word(":");
    const uint8_t* c = b + t.hlen;
    if (!vf_fork(t.cons)) content(r, t, c);
    else
    {
        r.word("[");
        size_t p = 0;
        for (size_t count = 0;; count++)
        {
            ref::Tlv k = ref::parse(c + p, t.clen - p);
            if (!k.ok) break;
            if (count) { r.word(","); vf_cover("several children"); }
            element(r, c + p, t.clen - p, depth + 1);
            p += vf_fork(k.hlen + k.clen);
        }
        if (p < t.clen) vf_cover("malformed child");
        r.word("]");
    }
    r.word("}");
}
static void print(const uint8_t* b, size_t n)
{
    std::ostringstream o;
    BerView            v(absl::Span<const uint8_t>(b, n));
    o << v;
    std::string text = o.str();
    Reader      r{text.data(), text.size()};
    element(r, b, n, 0);
    r.blanks();
    vf_check(r.at == r.n, "the text ends with the packet");
}
#ifndef NANY
#define NANY 4
#endif
extern "C" void vf_any()
{
    size_t n = vf_pick(0, NANY, "n");
    Buf    b(n);
    sym(b, "packet");
    print(b.p, n);
    vf_cover("printed");
}
#ifndef NCONTENT
#define NCONTENT 5
#endif
// one primitive element of each universal type
extern "C" void vf_content()
{
    size_t k = vf_pick(0, NCONTENT, "n");
    Buf    b(2 + k);
    b.p[0] = uint8_t(vf_range(0, 30, "tag"));
    b.p[1] = uint8_t(k);
    vf_bytes(b.p + 2, k, "content");
    print(b.p, b.n);
    vf_cover("printed");
}
#ifndef NNEST
#define NNEST 5
#endif
// elements inside elements
extern "C" void vf_nested()
{
    size_t k = vf_pick(3, NNEST, "n");
    Buf    b(2 + k);
    b.p[0] = 0x30;
    b.p[1] = uint8_t(k);
    vf_bytes(b.p + 2, k, "content");
    // short identifiers and lengths
    for (size_t i = 2; i < 2 + k; i++) vf_assume((b.p[i] & 0x58) == 0);
    print(b.p, b.n);
    vf_cover("printed");
}
// times: complete time texts, or with one character changed
extern "C" void vf_time()
{
    static const char* const forms[] = {"20010203040506Z", "20010203040506", "20010203040506+0100", "010203040506Z", "0102030405Z"};
    const char* f = forms[vf_pick(0, 4, "form")];
    size_t      k = strlen(f);
    Buf         b(2 + k);
    b.p[0] = uint8_t(vf_pick(23, 24, "tag"));
    b.p[1] = uint8_t(k);
    memcpy(b.p + 2, f, k);
    size_t at = vf_pick(0, k - 1, "at");
    b.p[2 + at] = vf_u8("character");
    print(b.p, b.n);
    vf_cover("printed");
}
// tags and lengths of every size
extern "C" void vf_header()
{
    size_t  k = vf_pick(0, 3, "size") == 3 ? 300 : vf_pick(0, 2, "content") ;
    Buf     b(24 + k);
    int     cls  = int(vf_pick(0, 3, "class"));
    size_t  tl = vf_pick(1, 8, "tag octets");
    size_t  p = 0;
    b.p[p++] = uint8_t(cls << 6 | 0x1f);
    for (size_t i = 0; i < tl; i++) b.p[p++] = uint8_t(vf_u8("tag") | 0x80);
    b.p[p++] = uint8_t(vf_u8("tag") & 0x7f);
    size_t ll = vf_pick(2, 4, "length octets");
    b.p[p++] = uint8_t(0x80 | ll);
    for (size_t i = ll; i-- > 0;) b.p[p++] = uint8_t(k >> (8 * i));
    for (size_t i = 0; i < k; i++) b.p[p++] = 'x';
    print(b.p, p);
    vf_cover("printed");
}
// more nested elements than any call stack holds (fewer in the symbolic run, which limits the call stack instead)
extern "C" void vf_deep()
{
    size_t  levels = vf_symbolic() ? 620 : 200000;
    size_t  n      = levels * 6 + 3;
    Buf     b(n);
    size_t  at = n;
    uint8_t bottom = vf_u8("content"); // BOOLEAN
    b.p[--at] = bottom;
    b.p[--at] = 1;
    b.p[--at] = 1;
    for (size_t i = 0; i < levels; i++)
    {
        uint8_t h[16];
        size_t  k = ref::put_header(h, 0, true, 16, n - at);
        at -= k;
        memcpy(b.p + at, h, k);
    }
    std::ostringstream o;
    o << BerView(absl::Span<const uint8_t>(b.p + at, n - at));
    std::string text = o.str();
    Reader      r{text.data(), text.size()};
    for (size_t i = 0; i < levels; i++)
    {
        r.word("{"); r.word("\"length\""); r.word(":"); r.number(n - at, false);
        r.word(", \"identifier\": { \"class\": \"Universal\", \"tag\": \"Sequence / Sequence Of\" }, \"content\": [");
        ref::Tlv t = ref::parse(b.p + at, n - at);
        at += t.hlen;
    }
    element(r, b.p + at, 3, 0);
    for (size_t i = 0; i < levels; i++) { r.word("]"); r.word("}"); }
    vf_check(r.at == r.n, "the text ends with the packet");
    vf_cover("printed");
}
