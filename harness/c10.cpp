// C10 OBJECT IDENTIFIER
#include "common.h"
// X.690 8.19: reference encoder and parser over subidentifiers
static size_t put_sub(uint8_t* o, uint64_t v)
{
    size_t n = 1;
    while (n < 10 && v >> (7 * n)) n++;
    for (size_t i = 0; i < n; i++) o[i] = uint8_t((v >> (7 * (n - 1 - i)) & 0x7F) | (i + 1 < n ? 0x80 : 0));
    return n;
}
static bool arcs_ok(const int64_t* a, size_t n)
{
    if (n < 2 || a[0] < 0 || a[0] > 2 || a[1] < 0 || (a[0] < 2 && a[1] > 39)) return false;
    for (size_t i = 2; i < n; i++) if (a[i] < 0) return false;
    return true;
}
static size_t ref_oid(uint8_t* o, const int64_t* a, size_t n)
{
    size_t k = put_sub(o, uint64_t(a[0]) * 40 + uint64_t(a[1]));
    for (size_t i = 2; i < n; i++) k += put_sub(o + k, uint64_t(a[i]));
    return k;
}
// number of arcs, 0 if malformed; *big is set when an arc does not fit 63 bits
static size_t ref_arcs(const uint8_t* c, size_t n, int64_t* a, bool* big)
{
    *big = false;
    if (n == 0) return 0;
    size_t   k = 0;
    uint64_t v = 0;
    bool     start = true;
    for (size_t i = 0; i < n; i++)
    {
        if (start && c[i] == 0x80) return 0;
        start = false;
        if (v >> 57) *big = true;
        v = v << 7 | (c[i] & 0x7F);
        if (c[i] & 0x80) continue;
        if (k == 0)
        {
            a[0] = v < 40 ? 0 : v < 80 ? 1 : 2;
            a[1] = int64_t(v - uint64_t(a[0]) * 40);
            if (v - uint64_t(a[0]) * 40 > uint64_t(INT64_MAX)) *big = true;
            k = 2;
        }
        else
        {
            if (v >> 63) *big = true;
            a[k++] = int64_t(v);
        }
        v = 0;
        start = true;
    }
    return start ? k : 0;
}
template <typename I> static void oid_value(I, size_t n, int64_t* a)
{
    ObjectIdentifierComponents arcs(a, a + n);
    bool                       good = arcs_ok(a, n);
    ObjectIdentifier<I>        o;
    bool                       ok = o.assign(arcs);
    vf_check(ok == good, "an arc list is accepted exactly when well formed");
    if (!good)
    {
        vf_cover("ill-formed arcs refused");
        o.value(); o.number_of_components(); o.component_number(1);
        Buf b(o.encoded_length());
        fast_ber::encode(b.span(), o);
        return;
    }
    uint8_t content[64], tlv[96];
    size_t  len = ref_oid(content, a, n);
    size_t  k = put_wrapped(tlv, I{}, false, content, len);
    check_encode(o, tlv, k, k);
    CHECK(o.number_of_components() == n);
    for (size_t i = 0; i < n; i++) CHECK(o.component_number(i) == a[i]);
    CHECK(o.component_number(n) == -1);
    ObjectIdentifierComponents v = o.value();
    CHECK(v.size() == n);
    for (size_t i = 0; i < n && i < v.size(); i++) CHECK(v[i] == a[i]);
    CHECK(o == arcs && !(o != arcs));
    ObjectIdentifier<I> p;
    CHECK(fast_ber::decode(absl::Span<const uint8_t>(tlv, k), p).success);
    CHECK(p == o && p.number_of_components() == n);
    ObjectIdentifier<I> q(arcs);
    CHECK(q == o);
    vf_cover("well-formed arcs");
}
extern "C" void vf_oid_first()
{
    // any first two arcs, also negative ones
    int64_t a[3] = {int64_t(vf_u64("a0")), int64_t(vf_u64("a1")), int64_t(vf_u64("a2"))};
    oid_value(IdUniv<UniversalTag::object_identifier>{}, vf_pick(0, 3, "n"), a);
}
#ifndef NARCS
#define NARCS 5
#endif
extern "C" void vf_oid_arcs()
{
    // all lengths of up to three further arcs
    int64_t a[6];
    size_t  n = vf_pick(3, NARCS, "n");
    a[0] = int64_t(vf_u8("a0") & 1);
    a[1] = int64_t(vf_u8("a1") & 31);
    for (size_t i = 2; i < n; i++) a[i] = int64_t(vf_u64("arc") >> 1);
    oid_value(IdUniv<UniversalTag::object_identifier>{}, n, a);
}
extern "C" void vf_oid_tagged()
{
    int64_t a[4];
    size_t  n = vf_pick(2, 4, "n");
    a[0] = int64_t(vf_u8("a0") & 3);
    a[1] = int64_t(vf_u8("a1"));
    for (size_t i = 2; i < n; i++) a[i] = int64_t(vf_u64("arc") >> 40);
    oid_value(IdDouble<UniversalTag::object_identifier>{}, n, a);
}
#ifndef NOID
#define NOID 7
#endif
static void oid_content(const Buf& c)
{
    int64_t a[32];
    bool    big = false;
    size_t  n = c.n, k = ref_arcs(c.p, n, a, &big);
    ObjectIdentifierComponents v{77, 78};
    bool ok = decode_object_id(c.cspan(), v).success;
    if (k == 0)
    {
        vf_check(!ok, "malformed content refused");
        vf_cover("malformed refused");
    }
    else if (!big)
    {
        CHECK(ok && v.size() == k);
        for (size_t i = 0; i < k && i < v.size(); i++) CHECK(v[i] == a[i]);
        CHECK(get_number_of_components(c.cspan()) == k);
        vf_cover("well-formed content");
    }
    for (size_t i = 0; i <= n + 1; i++)
    {
        int64_t r = get_component_number(c.cspan(), i);
        if (k && !big) CHECK(r == (i < k ? a[i] : -1));
        if (n == 0) CHECK(r == -1);
    }
    get_number_of_components(c.cspan());
}
extern "C" void vf_oid_content()
{
    Buf c(vf_pick(0, NOID, "n"));
    sym(c, "content");
    oid_content(c);
}
// one long subidentifier (first or second)
extern "C" void vf_oid_long()
{
    size_t n = vf_pick(8, 11, "n");
    Buf    c(n);
    sym(c, "content");
    size_t s = vf_pick(0, 1, "short first");
    for (size_t i = s; i + 1 < n; i++) c.p[i] |= 0x80;
    if (s) c.p[0] &= 0x7F;
    oid_content(c);
}
extern "C" void vf_oid_foreign()
{
    size_t n = vf_pick(0, 7, "n");
    Buf    b(n);
    sym(b, "in");
    ref::Tlv r = ref::parse(b.p, n);
    ObjectIdentifier<> x{1, 2, 3};
    bool ok = fast_ber::decode(b.cspan(), x).success;
    if (ok)
    {
        CHECK(r.ok && r.cls == 0 && r.tag == 6 && !r.cons);
        x.number_of_components();
        for (size_t i = 0; i < 4; i++) x.component_number(i);
        x.value();
        vf_cover("accepted");
    }
    else
    {
        int64_t a[16];
        bool big, mine = r.ok && r.cls == 0 && r.tag == 6 && !r.cons;
        if (mine) vf_check(ref_arcs(b.p + r.hlen, vf_fork(r.clen), a, &big) == 0, "a well-formed identifier is accepted");
        vf_cover("refused");
    }
}
