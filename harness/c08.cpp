// C08 every double survives REAL, C09 REAL contents from the wire
#include "common.h"
static double   from_bits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint64_t to_bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static bool     nan_bits(uint64_t u) { return (u << 1) > (uint64_t(0x7FF) << 53); }

// value of a binary REAL content by X.690 8.5.7: 2 = exactly a double (bits), 1 = well formed but not exactly a double, 0 = malformed
static int ref_binary(const uint8_t* c, size_t n, uint64_t* bits)
{
    if (n < 3 || !(c[0] & 0x80)) return 0;
    unsigned base = vf_fork(c[0] >> 4 & 3);
    if (base == 3) return 0;
    size_t p = 1, el = vf_fork(c[0] & 3) + 1;
    if (el == 4) { el = vf_fork(c[1]); p = 2; }
    if (el == 0 || p + el >= n) return 0;
    if (el > 1 && ((c[p] == 0xFF && (c[p + 1] & 0x80)) || (c[p] == 0 && !(c[p + 1] & 0x80)))) return 0;
    if (el > 4) return 1; // first nine bits differ: beyond any double (or zero mantissa, checked by the caller)
    int64_t e = c[p] & 0x80 ? -1 : 0;
    for (size_t i = 0; i < el; i++) e = int64_t(uint64_t(e) << 8 | c[p + i]);
    e = e * (base == 0 ? 1 : base == 1 ? 3 : 4) + (c[0] >> 2 & 3);
    uint64_t m = 0;
    for (size_t i = p + el; i < n; i++)
    {
        if (m >> 56) return 1;
        m = m << 8 | c[i];
    }
    if (m == 0) return 0;
    int len = 1; // position of the highest bit set
    while (len < 64 && m >> len) len++;
    int64_t top = e + len - 1;
    if (top > 1023) return 1;
    uint64_t s = uint64_t(c[0] >> 6 & 1) << 63;
    if (top >= -1022)
    {
        if (len > 53 && (m & ((uint64_t(1) << (len - 53)) - 1))) return 1;
        uint64_t f = len <= 53 ? m << (53 - len) : m >> (len - 53);
        *bits = s | uint64_t(top + 1023) << 52 | (f & ((uint64_t(1) << 52) - 1));
        return 2;
    }
    int64_t k = e + 1074; // subnormal: m * 2^k units of 2^-1074
    if (k >= 0) *bits = s | m << k;
    else
    {
        if (k <= -64 || (m & ((uint64_t(1) << -k) - 1))) return 1;
        *bits = s | m >> -k;
    }
    return 2;
}
template <typename I> static void real_value(I, uint64_t v)
{
    double  d = from_bits(v);
    Real<I> a(d);
    uint64_t w = to_bits(a.value());
    vf_check(nan_bits(v) ? nan_bits(w) : w == v, "the stored value is read back");
    size_t n = a.encoded_length();
    CHECK(n <= 40);
    uint8_t o[40];
    size_t  room = vf_pick(0, 1, "room");
    Buf     b(n + room);
    if (room) b.p[n] = 0xC6;
    EncodeResult er = fast_ber::encode(b.span(), a);
    CHECK(er.success && er.length == n);
    if (room) CHECK(b.p[n] == 0xC6);
    if (n)
    {
        Buf small(n - 1);
        CHECK(!fast_ber::encode(small.span(), a).success);
    }
    Real<I> c(2.0);
    CHECK(fast_ber::decode(b.cspan(), c).success);
    w = to_bits(c.value());
    vf_check(nan_bits(v) ? nan_bits(w) : w == v, "the decoded value is the encoded one");
    // the content means that value to any X.690 reader
    BerView view(absl::Span<const uint8_t>(b.p, n));
    if (std::is_same<I, IdDouble<UniversalTag::real>>::value) view = BerView(view.content());
    CHECK(view.is_valid());
    absl::Span<const uint8_t> x = view.content();
    uint64_t bits = 0;
    if (v == 0) CHECK(x.size() == 0);
    else if (v == uint64_t(1) << 63) CHECK(x.size() == 1 && x[0] == 0x43);
    else if (v == to_bits(INFINITY)) CHECK(x.size() == 1 && x[0] == 0x40);
    else if (v == to_bits(-INFINITY)) CHECK(x.size() == 1 && x[0] == 0x41);
    else if (nan_bits(v)) CHECK(x.size() == 1 && x[0] == 0x42);
    else CHECK(ref_binary(x.data(), x.size(), &bits) == 2 && bits == v);
    (void)o;
    Real<IdLong> e(7.0);
    Real<I>      f;
    CHECK(to_bits(f.value()) == 0);
    f = d;
    w = to_bits(f.value());
    CHECK(nan_bits(v) ? nan_bits(w) : w == v);
    e = f;
    w = to_bits(e.value());
    CHECK(nan_bits(v) ? nan_bits(w) : w == v);
    Real<I> g(e);
    w = to_bits(g.value());
    CHECK(nan_bits(v) ? nan_bits(w) : w == v);
    vf_cover("round trip");
}
extern "C" void vf_real_normal()
{
    uint64_t v = vf_u64("bits");
    vf_assume((v >> 52 & 0x7FF) != 0 && (v >> 52 & 0x7FF) != 0x7FF);
    real_value(IdUniv<UniversalTag::real>{}, v);
}
extern "C" void vf_real_other()
{
    uint64_t v = vf_u64("bits");
    vf_assume((v >> 52 & 0x7FF) == 0 || (v >> 52 & 0x7FF) == 0x7FF);
    if (nan_bits(v)) vf_cover("nan");
    else if ((v << 1) == 0) vf_cover("zero");
    else if (v << 12 == 0) vf_cover("infinity");
    else vf_cover("subnormal");
    real_value(IdUniv<UniversalTag::real>{}, v);
}
extern "C" void vf_real_tagged() { real_value(IdDouble<UniversalTag::real>{}, vf_u64("bits")); }
extern "C" void vf_real_long()
{
    uint64_t v = vf_u64("bits");
    Real<IdLong> a(from_bits(v));
    uint64_t w = to_bits(a.value());
    CHECK(nan_bits(v) ? nan_bits(w) : w == v);
    size_t n = a.encoded_length();
    Buf    b(n);
    CHECK(fast_ber::encode(b.span(), a).success);
    Real<IdLong> c(2.0);
    CHECK(fast_ber::decode(b.cspan(), c).success);
    w = to_bits(c.value());
    CHECK(nan_bits(v) ? nan_bits(w) : w == v);
    vf_cover("round trip");
}
#ifdef FULL
#define FULLN 9
#else
#define FULLN 2
#endif
#ifndef NMANT
#define NMANT 9
#endif
#ifndef NREAL
#define NREAL 14
#endif
// well-formed contents: control octet, exponent, leading zero octets, then a mantissa whose highest bit is split by case
static void binary(unsigned efmt, size_t explicit_len, size_t mlen, size_t zeros)
{
    size_t el = efmt == 3 ? explicit_len : efmt + 1, p = efmt == 3 ? 2 : 1;
    size_t n = p + el + zeros + mlen;
    Buf    c(n);
    sym(c, "content");
    unsigned base = vf_pick(0, 2, "base"), top = vf_pick(0, 7, "top");
    c.p[0] = uint8_t(0x80 | (c.p[0] & 0x4C) | base << 4 | efmt);
    if (efmt == 3) c.p[1] = uint8_t(el);
    for (size_t i = 0; i < zeros; i++) c.p[p + el + i] = 0;
    c.p[p + el + zeros] = uint8_t((1u << top) | (c.p[p + el + zeros] & ((1u << top) - 1)));
    double   d = 123.0;
    uint64_t bits = 0;
    int      r = ref_binary(c.p, n, &bits);
    vf_assume(r != 0);
    bool ok = decode_real(c.cspan(), d);
    if (r == 2)
    {
        CHECK(ok);
        vf_check(to_bits(d) == bits, "the decoded value is the X.690 value");
        vf_cover("exact value");
    }
    else vf_cover("not exactly representable");
}
// every exponent of one or two octets
extern "C" void vf_real_short_exp()
{
    size_t mlen = vf_pick(1, NMANT, "mlen");
#ifndef FULL
    vf_assume(mlen <= 2 || mlen >= 7);
#endif
    binary(vf_pick(0, 1, "efmt"), 0, mlen, vf_pick(0, 1, "zeros"));
}
extern "C" void vf_real_long_exp()
{
    bool three = vf_pick(0, 1, "three");
    binary(three ? 2 : 3, three ? 0 : vf_pick(1, 5, "el"), vf_pick(1, FULLN, "mlen"), 0);
}
// the same through the type, and the content untouched
extern "C" void vf_real_through_type()
{
    size_t  n = vf_pick(3, 5, "n");
    Buf     c(n);
    sym(c, "content");
    vf_assume((c.p[0] & 0xB3) == 0x80);
    uint8_t tlv[32];
    size_t  k = put_wrapped(tlv, IdUniv<UniversalTag::real>{}, false, c.p, n);
    Real<>  a(5.0);
    CHECK(a.decode(BerView(absl::Span<const uint8_t>(tlv, k))).success);
    uint64_t bits = 0;
    if (ref_binary(c.p, n, &bits) == 2) { CHECK(to_bits(a.value()) == bits); vf_cover("exact value"); }
    check_encode(a, tlv, k, k);
}
extern "C" void vf_real_malformed()
{
    size_t n = vf_pick(1, NREAL, "n");
    Buf    c(n);
    sym(c, "content");
    vf_assume(c.p[0] & 0x80);
    double d = 123.0;
    if (n >= 3 && (c.p[0] & 0x30) != 0x30)
    {
        size_t el = vf_fork(c.p[0] & 3) + 1, p = 1;
        if (el == 4) { el = c.p[1]; p = 2; }
        if (el != 0 && p + el < n)
        {
            el = vf_fork(el);
            bool nine = el > 1 && ((c.p[p] == 0xFF && (c.p[p + 1] & 0x80)) || (c.p[p] == 0 && !(c.p[p + 1] & 0x80)));
            bool zero = true;
            for (size_t i = p + el; i < n; i++) zero = zero & (c.p[i] == 0);
            if (!nine && !zero) return;
        }
        if (n >= 4) vf_cover("malformed body");
    }
    vf_check(!decode_real(c.cspan(), d), "malformed binary form refused");
    vf_cover("malformed refused");
}
// special values, empty content, decimal form excluded
extern "C" void vf_real_special()
{
    size_t n = vf_pick(0, 4, "n");
    Buf    c(n);
    sym(c, "content");
    if (n) vf_assume((c.p[0] & 0xC0) == 0x40);
    double d = 123.0;
    bool   ok = decode_real(c.cspan(), d);
    if (n == 0) { CHECK(ok && to_bits(d) == 0); return; }
    bool good = n == 1 && c.p[0] <= 0x43;
    CHECK(ok == good);
    if (!good) { vf_cover("refused"); return; }
    uint64_t u = to_bits(d);
    if (c.p[0] == 0x40) CHECK(u == to_bits(INFINITY));
    else if (c.p[0] == 0x41) CHECK(u == to_bits(-INFINITY));
    else if (c.p[0] == 0x42) CHECK(nan_bits(u));
    else CHECK(u == uint64_t(1) << 63);
    vf_cover("special value");
}
// arbitrary octets into the type: right element or refused; value() safe afterwards
extern "C" void vf_real_foreign()
{
    size_t n = vf_pick(0, 6, "n");
    Buf    b(n);
    sym(b, "in");
    ref::Tlv r = ref::parse(b.p, n);
    Real<> x(5.0);
    bool ok = fast_ber::decode(b.cspan(), x).success;
    CHECK(ok == (r.ok && r.cls == 0 && r.tag == 9 && !r.cons));
    if (ok)
    {
        if (r.clen && !(b.p[r.hlen] & 0xC0)) { vf_cover("decimal (text not explored)"); return; }
        x.value();
        vf_cover("accepted");
    }
    else vf_cover("refused");
}
