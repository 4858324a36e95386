// Tokens of the specification reader against X.680 clause 12
#include "autogen/asn_compiler.hpp"
#include "vf.h"
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#ifndef NANY
#define NANY 2
#endif
#ifndef NIDENT
#define NIDENT 5
#endif
#ifndef NSTR
#define NSTR 6
#endif
#ifndef NCOMMENT
#define NCOMMENT 6
#endif
#ifndef NDIGIT
#define NDIGIT 19
#endif
#ifndef NHEX
#define NHEX 6
#endif
typedef yy::asn1_parser       Parser;
typedef Parser::symbol_type   Symbol;
static const yy::location     here;
struct Keyword { const char* text; int kind; };
static int    kinds[128];
static struct { int eof, number, negative, real, cstring, bstring, hstring, upper, lower, type_field, value_field; } K;
static const char* const keyword_text[] = {
#define K(text, name) text,
    K("ABSENT", ABSENT)
    K("ABSTRACT-SYNTAX", ABSTRACT_SYNTAX)
    K("ALL", ALL)
    K("ANY", ANY)
    K("APPLICATION", APPLICATION)
    K("AUTOMATIC", AUTOMATIC)
    K("BEGIN", BEGIN)
    K("BIT", BIT)
    K("BMPString", BMPString)
    K("BOOLEAN", BOOLEAN)
    K("BY", BY)
    K("CHARACTER", CHARACTER)
    K("CHOICE", CHOICE)
    K("CLASS", CLASS)
    K("COMPONENT", COMPONENT)
    K("COMPONENTS", COMPONENTS)
    K("CONSTRAINED", CONSTRAINED)
    K("CONTAINING", CONTAINING)
    K("DATE", DATE)
    K("DATE-TIME", DATE_TIME)
    K("DEFAULT", DEFAULT)
    K("DEFINITIONS", DEFINITIONS)
    K("DURATION", DURATION)
    K("EMBEDDED", EMBEDDED)
    K("ENCODED", ENCODED)
    K("ENCODING-CONTROL", ENCODING_CONTROL)
    K("END", END)
    K("ENUMERATED", ENUMERATED)
    K("EXCEPT", EXCEPT)
    K("EXPLICIT", EXPLICIT)
    K("EXPORTS", EXPORTS)
    K("EXTENSIBILITY", EXTENSIBILITY)
    K("EXTERNAL", EXTERNAL)
    K("FALSE", FALSE)
    K("FROM", FROM)
    K("GeneralizedTime", GeneralizedTime)
    K("GeneralString", GeneralString)
    K("GraphicString", GraphicString)
    K("IA5String", IA5String)
    K("IDENTIFIER", IDENTIFIER)
    K("IMPLICIT", IMPLICIT)
    K("IMPLIED", IMPLIED)
    K("IMPORTS", IMPORTS)
    K("INCLUDES", INCLUDES)
    K("INSTANCE", INSTANCE)
    K("INSTRUCTIONS", INSTRUCTIONS)
    K("INTEGER", INTEGER)
    K("INTERSECTION", INTERSECTION)
    K("ISO646String", ISO646String)
    K("MAX", MAX)
    K("MIN", MIN)
    K("MINUS-INFINITY", MINUS_INFINITY)
    K("NOT-A-NUMBER", NOT_A_NUMBER)
    K("NULL", ASN_NULL)
    K("NumericString", NumericString)
    K("OBJECT", OBJECT)
    K("ObjectDescriptor", ObjectDescriptor)
    K("OCTET", OCTET)
    K("OF", OF)
    K("OID-IRI", OID_IRI)
    K("OPTIONAL", OPTIONAL)
    K("PATTERN", PATTERN)
    K("PDV", PDV)
    K("PLUS-INFINITY", PLUS_INFINITY)
    K("PRESENT", PRESENT)
    K("PrintableString", PrintableString)
    K("PRIVATE", PRIVATE)
    K("REAL", REAL)
    K("RELATIVE-OID", RELATIVE_OID)
    K("RELATIVE-OID-IRI", RELATIVE_OID_IRI)
    K("SEQUENCE", SEQUENCE)
    K("SET", SET)
    K("SETTINGS", SETTINGS)
    K("SIZE", SIZE)
    K("STRING", STRING)
    K("SYNTAX", SYNTAX)
    K("T61String", T61String)
    K("TAGS", TAGS)
    K("TeletexString", TeletexString)
    K("TIME", TIME)
    K("TIME-OF-DAY", TIME_OF_DAY)
    K("TRUE", TRUE)
    K("TYPE-IDENTIFIER", TYPE_IDENTIFIER)
    K("UNION", UNION)
    K("UNIQUE", UNIQUE)
    K("UNIVERSAL", UNIVERSAL)
    K("UniversalString", UniversalString)
    K("UTCTime", UTCTime)
    K("UTF8String", UTF8String)
    K("VideotexString", VideotexString)
    K("VisibleString", VisibleString)
    K("WITH", WITH)
#undef K
};
static const int nkeywords = sizeof(keyword_text) / sizeof(keyword_text[0]);
static int sym_kind[24];
static const char* const sym_text[] = {"::=", "...", "..", "{", "}", "(", ")", "[", "]", ":", ";", ",", "-", ".", "|", "!", "<", "^", "@"};
static void setup()
{
    int i = 0;
#define K(text, name) kinds[i++] = int(Parser::make_##name(here).type_get());
    K("ABSENT", ABSENT)
    K("ABSTRACT-SYNTAX", ABSTRACT_SYNTAX)
    K("ALL", ALL)
    K("ANY", ANY)
    K("APPLICATION", APPLICATION)
    K("AUTOMATIC", AUTOMATIC)
    K("BEGIN", BEGIN)
    K("BIT", BIT)
    K("BMPString", BMPString)
    K("BOOLEAN", BOOLEAN)
    K("BY", BY)
    K("CHARACTER", CHARACTER)
    K("CHOICE", CHOICE)
    K("CLASS", CLASS)
    K("COMPONENT", COMPONENT)
    K("COMPONENTS", COMPONENTS)
    K("CONSTRAINED", CONSTRAINED)
    K("CONTAINING", CONTAINING)
    K("DATE", DATE)
    K("DATE-TIME", DATE_TIME)
    K("DEFAULT", DEFAULT)
    K("DEFINITIONS", DEFINITIONS)
    K("DURATION", DURATION)
    K("EMBEDDED", EMBEDDED)
    K("ENCODED", ENCODED)
    K("ENCODING-CONTROL", ENCODING_CONTROL)
    K("END", END)
    K("ENUMERATED", ENUMERATED)
    K("EXCEPT", EXCEPT)
    K("EXPLICIT", EXPLICIT)
    K("EXPORTS", EXPORTS)
    K("EXTENSIBILITY", EXTENSIBILITY)
    K("EXTERNAL", EXTERNAL)
    K("FALSE", FALSE)
    K("FROM", FROM)
    K("GeneralizedTime", GeneralizedTime)
    K("GeneralString", GeneralString)
    K("GraphicString", GraphicString)
    K("IA5String", IA5String)
    K("IDENTIFIER", IDENTIFIER)
    K("IMPLICIT", IMPLICIT)
    K("IMPLIED", IMPLIED)
    K("IMPORTS", IMPORTS)
    K("INCLUDES", INCLUDES)
    K("INSTANCE", INSTANCE)
    K("INSTRUCTIONS", INSTRUCTIONS)
    K("INTEGER", INTEGER)
    K("INTERSECTION", INTERSECTION)
    K("ISO646String", ISO646String)
    K("MAX", MAX)
    K("MIN", MIN)
    K("MINUS-INFINITY", MINUS_INFINITY)
    K("NOT-A-NUMBER", NOT_A_NUMBER)
    K("NULL", ASN_NULL)
    K("NumericString", NumericString)
    K("OBJECT", OBJECT)
    K("ObjectDescriptor", ObjectDescriptor)
    K("OCTET", OCTET)
    K("OF", OF)
    K("OID-IRI", OID_IRI)
    K("OPTIONAL", OPTIONAL)
    K("PATTERN", PATTERN)
    K("PDV", PDV)
    K("PLUS-INFINITY", PLUS_INFINITY)
    K("PRESENT", PRESENT)
    K("PrintableString", PrintableString)
    K("PRIVATE", PRIVATE)
    K("REAL", REAL)
    K("RELATIVE-OID", RELATIVE_OID)
    K("RELATIVE-OID-IRI", RELATIVE_OID_IRI)
    K("SEQUENCE", SEQUENCE)
    K("SET", SET)
    K("SETTINGS", SETTINGS)
    K("SIZE", SIZE)
    K("STRING", STRING)
    K("SYNTAX", SYNTAX)
    K("T61String", T61String)
    K("TAGS", TAGS)
    K("TeletexString", TeletexString)
    K("TIME", TIME)
    K("TIME-OF-DAY", TIME_OF_DAY)
    K("TRUE", TRUE)
    K("TYPE-IDENTIFIER", TYPE_IDENTIFIER)
    K("UNION", UNION)
    K("UNIQUE", UNIQUE)
    K("UNIVERSAL", UNIVERSAL)
    K("UniversalString", UniversalString)
    K("UTCTime", UTCTime)
    K("UTF8String", UTF8String)
    K("VideotexString", VideotexString)
    K("VisibleString", VisibleString)
    K("WITH", WITH)
#undef K
    K.eof         = int(Parser::make_END_OF_FILE(here).type_get());
    K.number      = int(Parser::make_number(0, here).type_get());
    K.negative    = int(Parser::make_negativenumber(0, here).type_get());
    K.real        = int(Parser::make_realnumber(0.0, here).type_get());
    K.cstring     = int(Parser::make_cstring(std::string(), here).type_get());
    K.bstring     = int(Parser::make_bstring(std::string(), here).type_get());
    K.hstring     = int(Parser::make_hstring(std::string(), here).type_get());
    K.upper       = int(Parser::make_GENERIC_IDENTIFIER_UPPERCASE(std::string(), here).type_get());
    K.lower       = int(Parser::make_GENERIC_IDENTIFIER_LOWERCASE(std::string(), here).type_get());
    K.type_field  = int(Parser::make_typefieldreference(std::string(), here).type_get());
    K.value_field = int(Parser::make_valuefieldreference(std::string(), here).type_get());
    i = 0;
#define S(name) sym_kind[i++] = int(Parser::make_##name(here).type_get());
    S(DEFINED_AS) S(ELIPSIS) S(RANGE) S(OPEN_BRACE) S(CLOSE_BRACE) S(OPEN_PARENTHESIS) S(CLOSE_PARENTHESIS) S(OPEN_SQUARE_BRACKET)
    S(CLOSE_SQUARE_BRACKET) S(COLON) S(SEMICOLON) S(COMMA) S(HYPHEN_MINUS) S(FULL_STOP) S(VERTICAL_LINE) S(EXCLAMATION_MARK)
    S(LESS_THAN) S(ACCENT) S(AT)
#undef S
}
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool hex(char c) { return digit(c) | (c >= 'A' && c <= 'F') | (c >= 'a' && c <= 'f'); }
static bool upper(char c) { return c >= 'A' && c <= 'Z'; }
static bool lower(char c) { return c >= 'a' && c <= 'z'; }
static bool word(char c) { return digit(c) | upper(c) | lower(c) | (c == '_'); }
struct Token
{
    int  kind; // -1: the standard gives no token here, only safety and termination are asked for
    int  begin, end;
    bool overflow;
};
static int word_end(const char* p, int i) // letters, digits and single inner hyphens
{
    for (;;)
    {
        if (word(p[i])) i++;
        else if (p[i] == '-' && word(p[i + 1])) i += 2;
        else return i;
    }
}
static Token reference(const char* p, int i)
{
    Token t = {-1, 0, 0, false};
    for (;;)
    {
        char c = p[i];
        if ((c == ' ') | (c == '\t') | (c == '\v') | (c == '\b') | (c == '\f') | (c == '\n')) i++;
        else if (c == '\r' && p[i + 1] == '\n') i++;
        else if (c == '-' && p[i + 1] == '-')
        {
            i += 2;
            while (p[i] && p[i] != '\n' && p[i] != '\r' && !(p[i] == '-' && p[i + 1] == '-')) i++;
            if (p[i] == '-') i += 2;
        }
        else if (c == '/' && p[i + 1] == '*')
        {
            i += 2;
            while (p[i] && !(p[i] == '*' && p[i + 1] == '/'))
            {
                if (p[i] == '/' && p[i + 1] == '*') return t; // comments within comments
                i++;
            }
            if (!p[i]) return t;
            i += 2;
        }
        else break;
    }
    t.begin = i;
    char c  = p[i];
    if (c == 0) { t.kind = K.eof; t.end = i; }
    else if (digit(c) || (c == '-' && digit(p[i + 1])))
    {
        int e = i + 1;
        while (digit(p[e])) e++;
        t.kind = c == '-' ? K.negative : K.number;
        if (c != '-' && p[e] == '.' && digit(p[e + 1]))
        {
            e += 2;
            while (digit(p[e])) e++;
            t.kind = K.real;
        }
        t.end = e;
    }
    else if (c == '"')
    {
        int e = i + 1;
        for (;; e++)
        {
            if (!p[e]) return t;
            if (p[e] != '"') continue;
            if (p[e + 1] == '"') e++;
            else break;
        }
        t.kind = K.cstring;
        t.end  = e + 1;
    }
    else if (c == '\'')
    {
        int  e    = i + 1;
        bool bits = true;
        while (hex(p[e])) { bits &= (p[e] == '0') | (p[e] == '1'); e++; }
        if (p[e] != '\'') return t;
        if (p[e + 1] == 'H') t.kind = K.hstring;
        else if (p[e + 1] == 'B' && bits) t.kind = K.bstring;
        else return t;
        t.end = e + 2;
    }
    else if (c == '&')
    {
        if (!upper(p[i + 1]) && !lower(p[i + 1])) return t;
        t.kind = upper(p[i + 1]) ? K.type_field : K.value_field;
        t.end  = word_end(p, i + 2);
    }
    else if (upper(c) || lower(c))
    {
        t.end  = word_end(p, i + 1);
        t.kind = upper(c) ? K.upper : K.lower;
        for (int k = 0; k < nkeywords; k++)
            if (int(strlen(keyword_text[k])) == t.end - i)
            {
                bool same = true;
                for (int j = i; j < t.end; j++) same &= p[j] == keyword_text[k][j - i];
                t.kind = same ? kinds[k] : t.kind;
            }
    }
    else
        for (int k = 0; k < int(sizeof(sym_text) / sizeof(sym_text[0])); k++)
        {
            const char* s = sym_text[k];
            int         j = 0;
            while (s[j] && p[i + j] == s[j]) j++;
            if (s[j]) continue;
            t.kind = sym_kind[k];
            t.end  = i + j;
            break;
        }
    return t;
}
static const char* const reserved[] = {"alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case",
                                       "catch", "char", "char16_t", "char32_t", "class", "compl", "const", "constexpr", "const_cast",
                                       "continue", "decltype", "default", "delete", "do", "double", "dynamic_cast", "else", "enum",
                                       "explicit", "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline", "int",
                                       "long", "mutable", "namespace", "new", "noexcept", "not", "not_eq", "nullptr", "operator", "or",
                                       "or_eq", "private", "protected", "public", "register", "reinterpret_cast", "return", "short",
                                       "signed", "sizeof", "static", "static_assert", "static_cast", "struct", "switch", "template",
                                       "this", "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union",
                                       "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while", "xor", "xor_eq"};
// words later C++ versions or this library reserve: an underscore may follow them
static const char* const maybe_reserved[] = {"atomic_cancel", "atomic_commit", "atomic_noexcept", "char8_t", "concept", "consteval",
                                             "co_await", "co_return", "co_yield", "import", "module", "reflexpr", "requires",
                                             "synchronized", "BMPString", "BitString", "Boolean", "CharacterString", "Choice", "Date",
                                             "DateTime", "Duration", "EmbeddedPDV", "Enumerated", "External", "GeneralString",
                                             "GeneralizedTime", "GraphicString", "IA5String", "IRI", "ISO646String", "Id", "Identifier",
                                             "InstanceOf", "Integer", "Null", "NumericString", "ObjectIdentifier", "OctetString",
                                             "Optional", "Prefixed", "PrintableString", "Real", "RelativeIRI", "RelativeOID", "Sequence",
                                             "SequenceOf", "Set", "SetOf", "TaggedType", "TeletexString", "Time", "TimeOfDay", "UTCTime",
                                             "UTF8String", "UniversalString", "VideotexString", "VisibleString", "decode", "encode",
                                             "encoded_length"};
/// text of a name token: hyphens become underscores, a name C++ reserves gets a trailing underscore
static bool name_is(const std::string& got, const char* p, int n)
{
    if (int(got.size()) != n && int(got.size()) != n + 1) return false;
    bool ok = true, cpp = false, maybe = false;
    for (int j = 0; j < n; j++) ok &= got[j] == (p[j] == '-' ? '_' : p[j]);
    for (const char* r : reserved)
    {
        if (int(strlen(r)) != n) continue;
        bool same = true;
        for (int j = 0; j < n; j++) same &= (p[j] == '-' ? '_' : p[j]) == r[j];
        cpp |= same;
    }
    for (const char* r : maybe_reserved)
    {
        if (int(strlen(r)) != n) continue;
        bool same = true;
        for (int j = 0; j < n; j++) same &= (p[j] == '-' ? '_' : p[j]) == r[j];
        maybe |= same;
    }
    if (int(got.size()) == n) return ok & !cpp;
    return ok & (got[n] == '_') & (cpp | maybe);
}
/// does the decimal number exceed 64 bits?
static bool too_big(const char* d, int n, bool negative)
{
    while (n > 19 && *d == '0') { d++; n--; }
    if (n != 19) return n > 19;
    const char* most = negative ? "9223372036854775808" : "9223372036854775807";
    bool        less = false, more = false;
    for (int i = 0; i < 19; i++)
    {
        more |= !less & (d[i] > most[i]);
        less |= !more & (d[i] < most[i]);
    }
    return more;
}
static void tokens(const char* text, int n, int limit)
{
    setup();
    // a buffer of its own: any step behind the terminator is an access out of bounds
    std::unique_ptr<char[]> buffer(new char[n + 1]);
    memcpy(buffer.get(), text, n);
    buffer[n]      = 0;
    const char* p  = buffer.get();
    bool        exact = true;
    Context     context;
    context.cursor = p;
    int at = 0;
    for (int count = 0;; count++)
    {
        vf_check(count <= limit, "more tokens than characters");
        Token want = {-1, 0, 0, false};
        if (exact) want = reference(p, at);
        if (want.kind < 0) exact = false;
        const char* before  = context.cursor;
        bool        refused = false;
        try
        {
            Symbol got = yy::yylex(context);
            int    kind = int(got.type_get());
            vf_check(context.cursor > before && context.cursor <= p + n + 1, "the reader moves forward and stays inside its input");
            if (exact)
            {
                vf_check(kind == want.kind, "kind of the token");
                if (kind != want.kind) return;
                const char* b = p + want.begin;
                int         len = want.end - want.begin;
                if (kind != K.eof) vf_check(context.cursor == p + want.end, "a token takes exactly its characters");
                if (kind == K.cstring)
                {
                    const std::string& s = got.value.template as<std::string>();
                    vf_check(int(s.size()) == len && memcmp(s.data(), b, len) == 0, "text of a string");
                    vf_cover("string");
                }
                else if (kind == K.bstring || kind == K.hstring)
                {
                    const std::string& s = got.value.template as<std::string>();
                    vf_check(int(s.size()) == len - 3 && memcmp(s.data(), b + 1, len - 3) == 0, "text of a bit or hexadecimal string");
                    vf_cover("digit string");
                }
                else if (kind == K.upper || kind == K.lower || kind == K.type_field || kind == K.value_field)
                {
                    const std::string& s = got.value.template as<std::string>();
                    vf_check(name_is(s, b, len), "text of a name");
                    vf_cover("name");
                }
                else if (kind == K.number || kind == K.negative)
                {
                    uint64_t v = 0;
                    int      first = kind == K.negative ? 1 : 0;
                    for (int j = first; j < len; j++) v = v * 10 + uint64_t(b[j] & 15);
                    bool big = too_big(b + first, len - first, kind == K.negative);
                    vf_check(!big, "a number out of range is refused");
                    int64_t got_value = got.value.template as<int64_t>();
                    vf_check(uint64_t(got_value) == (kind == K.negative ? 0 - v : v), "value of a number");
                    vf_cover("number");
                }
                else if (kind != K.eof) vf_cover("keyword or symbol");
                at = want.end;
            }
            if (kind == K.eof) break;
        }
        catch (const std::out_of_range&) { refused = true; }
        if (refused)
        {
            if (exact)
            {
                bool number = want.kind == K.number || want.kind == K.negative || want.kind == K.real;
                int  first  = want.kind == K.negative ? 1 : 0;
                vf_check(number, "only numbers are refused");
                if (want.kind != K.real) vf_check(too_big(p + want.begin + first, want.end - want.begin - first, first != 0), "only numbers out of range are refused");
            }
            vf_cover("refused");
            return;
        }
    }
}
extern "C" void vf_any()
{
    char text[8];
    int  n = int(vf_pick(0, NANY, "length"));
    vf_bytes(text, n, "text");
    tokens(text, n, n);
}
/// every keyword, every keyword with one other character, every keyword followed by one more character
extern "C" void vf_keyword()
{
    int  k = int(vf_pick(0, nkeywords - 1, "keyword"));
    char text[24];
    int  n = int(strlen(keyword_text[k]));
    memcpy(text, keyword_text[k], n);
    int at   = int(vf_pick(0, n, "changed position"));
    text[at] = char(vf_u8("character"));
    if (at == n) n++;
    tokens(text, n, n);
}
extern "C" void vf_identifier()
{
    char text[24];
    int  n = int(vf_pick(2, NIDENT, "length"));
    for (int i = 0; i < n; i++)
    {
        text[i] = char(vf_u8("character"));
        // names without the starts of keywords, hyphens, and one character that ends a name
        if (i == 0) vf_assume(lower(text[i]) | (text[i] == '&') | (text[i] == 'X') | (text[i] == 'Z'));
        else vf_assume(word(text[i]) | (text[i] == '-') | (text[i] == ' '));
    }
    tokens(text, n, n);
}
extern "C" void vf_reserved()
{
    int  k = int(vf_pick(0, sizeof(reserved) / sizeof(reserved[0]) - 1, "word"));
    char text[24];
    int  n = int(strlen(reserved[k]));
    memcpy(text, reserved[k], n);
    for (int i = 0; i < n; i++)
        if (text[i] == '_') text[i] = '-';
    int at   = int(vf_pick(0, n, "changed position"));
    text[at] = char(vf_u8("character"));
    vf_assume(word(text[at]) | (text[at] == '-') | (text[at] == ' '));
    if (at == n) n++;
    tokens(text, n, n);
}
extern "C" void vf_string()
{
    char text[16];
    int  n  = int(vf_pick(0, NSTR, "length"));
    text[0] = '"';
    vf_bytes(text + 1, n, "text");
    // behind the string, if it ends, nothing but strings
    for (int i = 1; i <= n; i++) vf_assume(text[i] != 0);
    bool open = true;
    for (int i = 1; i <= n; i++)
    {
        vf_assume(open | (text[i] == '"') | (text[i] == ' ') | (text[i] == '\n'));
        open ^= text[i] == '"';
    }
    if (open)
        for (int i = 1; i <= n; i++) vf_assume((text[i] == '"') | (text[i] == 'x') | (text[i] == '\''));
    tokens(text, n + 1, n + 1);
}
static void comment(const char* start, char special)
{
    char text[20];
    memcpy(text, start, 2);
    int n = int(vf_pick(0, NCOMMENT, "length"));
    for (int i = 2; i < n + 2; i++)
    {
        text[i] = char(vf_u8("character"));
        vf_assume((text[i] == special) | (text[i] == '/') | (text[i] == 'x') | (text[i] == '\n') | (text[i] == '\r') | (text[i] == '"') | (text[i] == char(0xe9)));
    }
    text[n + 2] = ' ';
    text[n + 3] = 'y';
    tokens(text, n + 4, n + 4);
}
extern "C" void vf_line_comment() { comment("--", '-'); }
extern "C" void vf_block_comment() { comment("/*", '*'); }
extern "C" void vf_number()
{
    char text[32];
    int  n = 0;
    if (vf_pick(0, 1, "sign")) text[n++] = '-';
    int m = int(vf_pick(1, NDIGIT, "digits"));
    for (int i = 0; i < m; i++) text[n++] = char(vf_range('0', '9', "digit"));
    tokens(text, n, n);
}
/// numbers, points and what may follow them
extern "C" void vf_number_end()
{
    char text[32];
    text[0] = '4';
    text[1] = '2';
    int n   = int(vf_pick(1, 3, "length"));
    vf_bytes(text + 2, n, "text");
    vf_assume(text[2] == '.' || text[2] == '-' || text[2] == '\'' || text[2] == ')' || text[2] == ' ');
    for (int i = 3; i < n + 2; i++) vf_assume(text[i] == '.' || text[i] == '-' || digit(text[i]) || text[i] == 'e' || text[i] == 'M');
    tokens(text, n + 2, n + 2);
}
extern "C" void vf_digit_string()
{
    char text[32];
    text[0] = '\'';
    int n   = int(vf_pick(0, NHEX, "digits"));
    for (int i = 1; i <= n; i++)
    {
        text[i] = char(vf_u8("digit"));
        vf_assume(hex(text[i]) | (text[i] == 'G'));
    }
    text[n + 1] = '\'';
    text[n + 2] = char(vf_u8("kind"));
    tokens(text, n + 3, n + 3);
}
/// white space and comments of any length are skipped
extern "C" void vf_long_gap()
{
    const int     n = vf_symbolic() ? 720 : 399960;
    int           kind = int(vf_pick(0, 5, "kind"));
    char          blank = char(vf_u8("blank"));
    vf_assume(blank == ' ' || blank == '\t' || blank == '\n' || blank == '\v' || blank == '\f');
    std::string   text;
    for (int i = 0; i < n; i++)
        if (kind < 3) text += kind == 0 ? blank : kind == 1 ? '\n' : "\r\n"[i & 1];
        else text += kind == 3 ? "----"[i & 3] : kind == 4 ? "/**/"[i & 3] : "--\n"[i % 3];
    text += '\n';
    text += char(vf_range('a', 'z', "name"));
    setup();
    Context context;
    context.cursor = text.c_str();
    Symbol got = yy::yylex(context);
    vf_check(int(got.type_get()) == K.lower, "the token behind a gap");
    vf_cover("gap");
}
