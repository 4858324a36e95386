// C11 string types
#include "common.h"
#include <string>
#include <utility>
static const size_t sizes[] = {0, 1, 2, 98, 99, 126, 127, 128, 129, 97, 100};
struct Text
{
    uint8_t p[160];
    size_t  n;
    explicit Text(size_t k) : n(k)
    {
        uint8_t salt = vf_u8("salt");
        for (size_t i = 0; i < n; i++) p[i] = uint8_t(salt + 3 * i);
        if (n) p[0] = vf_u8("first");
        if (n) p[n - 1] = vf_u8("last");
        if (n > 2) p[n / 2] = vf_u8("mid");
    }
    absl::string_view          sv() const { return absl::string_view(reinterpret_cast<const char*>(p), n); }
    absl::Span<const uint8_t>  span() const { return absl::Span<const uint8_t>(p, n); }
};
static bool equal(const Text& a, const Text& b)
{
    bool e = a.n == b.n;
    for (size_t i = 0; i < a.n && i < b.n; i++) e = e & (a.p[i] == b.p[i]);
    return e;
}
template <typename S> static void holds(const S& s, const Text& t)
{
    CHECK(s.size() == t.n && s.length() == t.n && s.empty() == (t.n == 0));
    CHECK(size_t(s.end() - s.begin()) == t.n && s.span().size() == t.n);
    bool e = true;
    for (size_t i = 0; i < t.n; i++) e = e & (s[i] == t.p[i]) & (s.data()[i] == t.p[i]) & (uint8_t(s.c_str()[i]) == t.p[i]);
    vf_check(e, "the string holds the assigned bytes");
}
// one type: value, wire form, decode
template <typename S, typename I> static void string_type(I)
{
    size_t k = sizes[vf_pick(0, 8, "size")];
    Text   t(k);
    uint8_t tlv[200];
    size_t  n = put_wrapped(tlv, I{}, false, t.p, t.n);
    S       a(t.sv());
    holds(a, t);
    check_encode(a, tlv, n, n - vf_pick(0, 1, "short"));
    S d("previous value of this string");
    CHECK(fast_ber::decode(absl::Span<const uint8_t>(tlv, n), d).success);
    holds(d, t);
    CHECK(d == a && !(d != a));
    check_encode(d, tlv, n, n + 1);
    d[0 < k ? k - 1 : 0];
    vf_cover("string");
}
#define ST(T, U) extern "C" void vf_str_##T() { string_type<T<>>(IdUniv<UniversalTag::U>{}); }
template <int N> using UnivNo = Id<Class::universal, N>;
// tag numbers from X.680 table 1
extern "C" void vf_str_tags()
{
    static_assert(std::is_same<BitString<>, StringImpl<UniversalTag::bit_string, ExplicitId<UniversalTag::bit_string>>>::value, "");
    size_t k = vf_pick(0, 2, "size");
    switch (vf_pick(0, 15, "type"))
    {
    case 0: string_type<BitString<>>(UnivNo<3>{}); break;
    case 1: string_type<OctetString<>>(UnivNo<4>{}); break;
    case 2: string_type<UTF8String<>>(UnivNo<12>{}); break;
    case 3: string_type<NumericString<>>(UnivNo<18>{}); break;
    case 4: string_type<PrintableString<>>(UnivNo<19>{}); break;
    case 5: string_type<TeletexString<>>(UnivNo<20>{}); break;
    case 6:
    case 7: string_type<VideotexString<>>(UnivNo<21>{}); break;
    case 8: string_type<IA5String<>>(UnivNo<22>{}); break;
    case 9: string_type<GraphicString<>>(UnivNo<25>{}); break;
    case 10: string_type<VisibleString<>>(UnivNo<26>{}); break;
    case 11: string_type<ISO646String<>>(UnivNo<26>{}); break;
    case 12: string_type<GeneralString<>>(UnivNo<27>{}); break;
    case 13: string_type<UniversalString<>>(UnivNo<28>{}); break;
    case 14: string_type<CharacterString<>>(UnivNo<29>{}); break;
    default: string_type<BMPString<>>(UnivNo<30>{}); break;
    }
    (void)k;
}
extern "C" void vf_str_tagged()
{
    switch (vf_pick(0, 3, "id"))
    {
    case 0: string_type<OctetString<IdShort>>(IdShort{}); break;
    case 1: string_type<OctetString<IdLong>>(IdLong{}); break;
    case 2: string_type<IA5String<IdDouble<UniversalTag::ia5_string>>>(IdDouble<UniversalTag::ia5_string>{}); break;
    default: string_type<UTF8String<IdDoubleLong>>(IdDoubleLong{}); break;
    }
}
// histories over two strings and one of another tag
#ifndef NSTEP
#define NSTEP 2
#endif
using S = OctetString<>;
using Z = IA5String<IdDouble<UniversalTag::ia5_string>>;
static const size_t hs[] = {0, 2, 98, 128};
static void step(S& a, Text& ta, S& b, Text& tb, Z& z, Text& tz)
{
    switch (vf_pick(0, 12, "op"))
    {
    case 0: { Text t(hs[vf_pick(0, 3, "size")]); a = t.sv(); ta = t; break; }
    case 1: { Text t(hs[vf_pick(0, 3, "size")]); a = std::string(t.sv().data(), t.n); ta = t; break; }
    case 2: { Text t(hs[vf_pick(0, 3, "size")]); a = t.span(); ta = t; break; }
    case 3: { Text t(2); t.n = 2; if (!t.p[0] || !t.p[1]) vf_assume(false); char c[3] = {char(t.p[0]), char(t.p[1]), 0}; a = c; ta = t; break; }
    case 4: a = b; ta = tb; break;
    case 5: { S tmp(b); a = std::move(tmp); ta = tb; break; }
    case 6: { S tmp(std::move(b)); a = tmp; ta = tb; b = tmp; break; }
    case 7: a = z; ta = tz; break;
    case 8: z = a; tz = ta; break;
    case 9: { Z tmp(a); a = S(std::move(tmp)); break; }
    case 10: {
        size_t n = hs[vf_pick(0, 3, "size")];
        a.resize(n);
        CHECK(a.size() == n);
        for (size_t i = ta.n; i < n; i++) { a[i] = uint8_t(i); ta.p[i] = uint8_t(i); }
        ta.n = n;
        vf_cover("resize");
        break;
    }
    case 11: if (ta.n) { uint8_t v = vf_u8("octet"); size_t i = vf_pick(0, 1, "end") ? ta.n - 1 : 0; a[i] = v; ta.p[i] = v; } break;
    case 12: {
        Text    t(hs[vf_pick(0, 3, "size")]);
        uint8_t tlv[200];
        size_t  n = put_wrapped(tlv, IdUniv<UniversalTag::octet_string>{}, false, t.p, t.n);
        CHECK(a.decode(BerView(absl::Span<const uint8_t>(tlv, n))).success);
        ta = t;
        break;
    }
    }
}
extern "C" void vf_str_history()
{
    Text  ta(0), tb(2), tz(0);
    S*    a = new S();
    S*    b = new S(tb.span());
    Z*    z = new Z();
    for (size_t i = 0; i < NSTEP; i++)
    {
        step(*a, ta, *b, tb, *z, tz);
        holds(*a, ta);
        holds(*b, tb);
        holds(*z, tz);
        CHECK((*a == *b) == equal(ta, tb));
        CHECK((*a != *b) == !equal(ta, tb));
        CHECK((*a == tz.sv()) == equal(ta, tz));
        uint8_t tlv[200];
        size_t  n = put_wrapped(tlv, IdUniv<UniversalTag::octet_string>{}, false, ta.p, ta.n);
        check_encode(*a, tlv, n, n);
    }
    delete b;
    holds(*a, ta);
    std::string v = a->value();
    CHECK(v.size() == ta.n && *a == v && !(*a != v));
    delete a;
    delete z;
    vf_cover("history");
}
// comparison of short strings, every pair of contents
extern "C" void vf_str_compare()
{
    size_t n = vf_pick(0, 4, "n"), m = vf_pick(0, 4, "m");
    Buf    x(n), y(m);
    sym(x, "x");
    sym(y, "y");
    OctetString<> a(x.cspan()), b(y.cspan());
    bool eq = n == m;
    for (size_t i = 0; i < n && i < m; i++) eq = eq & (x.p[i] == y.p[i]);
    absl::string_view yv(reinterpret_cast<const char*>(y.p), m);
    CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq);
    CHECK((a == yv) == eq && (a != yv) == !eq);
    CHECK((a == std::string(yv.data(), m)) == eq);
    if (eq) vf_cover("equal");
    else vf_cover("different");
}
// arbitrary octets
extern "C" void vf_str_foreign()
{
    size_t n = vf_pick(0, 9, "n");
    Buf    b(n);
    sym(b, "in");
    ref::Tlv r = ref::parse(b.p, n);
    OctetString<> x("before");
    bool ok = fast_ber::decode(b.cspan(), x).success;
    CHECK(ok == (r.ok && r.cls == 0 && r.tag == 4 && !r.cons));
    if (!ok) { vf_cover("refused"); CHECK(x == "before"); return; }
    size_t len = vf_fork(r.clen);
    CHECK(x.size() == len);
    for (size_t i = 0; i < len; i++) CHECK(x[i] == b.p[r.hlen + i]);
    vf_cover("accepted");
}
