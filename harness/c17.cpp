// C17 SEQUENCE OF / SET OF
#include "common.h"
#include <string>
#include <utility>
#ifndef NEL
#define NEL 7
#endif
#ifndef NB
#define NB 9
#endif
static int64_t small() { return int8_t(vf_u8("element")); }
template <typename S> static bool same(const S& s, const int64_t* v, size_t n)
{
    bool e = s.size() == n;
    if (!e) return false;
    size_t i = 0;
    for (const auto& x : s) e = e & (x.value() == v[i++]);
    return e;
}
template <typename S, typename S2, typename I> static void lists(I)
{
    size_t  n = vf_pick(0, NEL, "n");
    int64_t v[NEL + 1];
    uint8_t c[4 * NEL + 4], tlv[128];
    S       a;
    for (size_t i = 0; i < n; i++)
    {
        v[i]         = small();
        c[3 * i]     = 2;
        c[3 * i + 1] = 1;
        c[3 * i + 2] = uint8_t(v[i]);
        a.push_back(v[i]);
    }
    CHECK(same(a, v, n));
    size_t k = put_wrapped(tlv, I{}, true, c, 3 * n);
    check_encode(a, tlv, k, k - vf_pick(0, 1, "short"));
    S b;
    size_t prior = vf_pick(0, 2, "prior") * 3;
    for (size_t i = 0; i < prior; i++) b.push_back(100 + i);
    CHECK(fast_ber::decode(absl::Span<const uint8_t>(tlv, k), b).success);
    CHECK(same(b, v, n));
    CHECK(a == b && !(a != b));
    S2 other(b);
    CHECK(other == a && same(other, v, n));
    S copy(b);
    b.push_back(1);
    CHECK(!(copy == b) && copy != b && same(copy, v, n));
    S moved(std::move(copy));
    CHECK(same(moved, v, n));
    copy = std::move(moved);
    CHECK(same(copy, v, n));
    moved = copy;
    CHECK(same(moved, v, n));
    if (n)
    {
        moved[n - 1] = v[n - 1] ^ 1;
        CHECK(moved != copy);
        moved.pop_back();
        CHECK(moved != copy && same(moved, v, n - 1));
        check_encode(moved, tlv, put_wrapped(tlv, I{}, true, c, 3 * (n - 1)), 100);
    }
    vf_cover("list");
}
using Seq    = ExplicitId<UniversalTag::sequence>;
using Set    = ExplicitId<UniversalTag::set>;
constexpr StorageMode SB = StorageMode::small_buffer_optimised, DY = StorageMode::dynamic;
template <typename I> static void both(I i)
{
    if (vf_pick(0, 1, "heap")) lists<SequenceOf<Integer<>, I, DY>, SequenceOf<Integer<>, I, SB>>(i);
    else lists<SequenceOf<Integer<>, I, SB>, SequenceOf<Integer<>, I, DY>>(i);
}
extern "C" void vf_of_seq() { both(Seq{}); }
extern "C" void vf_of_set() { both(Set{}); }
extern "C" void vf_of_long() { both(IdLong{}); }
extern "C" void vf_of_double() { both(DoubleId<Id<Class::context_specific, 3>, Seq>{}); }
// long contents: header grows when the content passes 127 octets
template <typename S> static void strings()
{
    static const size_t lens[] = {0, 1, 40, 120, 122, 123, 124, 125, 126, 127, 128, 130};
    size_t  n = vf_pick(0, 2, "n");
    uint8_t c[300], tlv[320], item[140];
    size_t  p = 0;
    S       a;
    for (size_t i = 0; i < n; i++)
    {
        size_t len = lens[i == 0 ? vf_pick(0, 11, "len") : vf_pick(0, 2, "len2")];
        for (size_t j = 0; j < len; j++) item[j] = uint8_t(i + j);
        if (len) item[0] = vf_u8("first");
        p += put_wrapped(c + p, IdUniv<UniversalTag::octet_string>{}, false, item, len);
        a.push_back(OctetString<>(absl::Span<const uint8_t>(item, len)));
    }
    size_t k = put_wrapped(tlv, typename S::AsnId{}, true, c, p);
    check_encode(a, tlv, k, k - vf_pick(0, 1, "short"));
    check_encode(a, tlv, k, k + 1);
    S b;
    CHECK(fast_ber::decode(absl::Span<const uint8_t>(tlv, k), b).success);
    CHECK(a == b && b.size() == n);
    vf_cover("list");
}
extern "C" void vf_of_strings()
{
    if (vf_pick(0, 1, "heap")) strings<SequenceOf<OctetString<>, Seq, DY>>();
    else strings<SequenceOf<OctetString<>, DoubleId<IdLong, Set>, SB>>();
}
// nested lists
extern "C" void vf_of_nested()
{
    using In  = SequenceOf<Integer<>, Seq, SB>;
    using Out = SequenceOf<In, Seq, DY>;
    size_t  n = vf_pick(0, 2, "n"), p = 0;
    uint8_t c[64], in[32], tlv[80];
    Out     a;
    for (size_t i = 0; i < n; i++)
    {
        size_t m = vf_pick(0, 2, "m");
        In     x;
        for (size_t j = 0; j < m; j++) { int64_t v = small(); x.push_back(v); in[3 * j] = 2; in[3 * j + 1] = 1; in[3 * j + 2] = uint8_t(v); }
        p += put_wrapped(c + p, Seq{}, true, in, 3 * m);
        a.push_back(x);
    }
    size_t k = put_wrapped(tlv, Seq{}, true, c, p);
    check_encode(a, tlv, k, k);
    Out b;
    b.resize(vf_pick(0, 3, "prior"));
    CHECK(fast_ber::decode(absl::Span<const uint8_t>(tlv, k), b).success);
    CHECK(a == b && b.size() == n);
    Out d(a);
    CHECK(d == a);
    vf_cover("list");
}
// arbitrary octets: fails, or holds exactly the elements present
template <typename S, typename I> static void foreign(I)
{
    size_t n = vf_pick(0, NB, "n");
    Buf    b(n);
    sym(b, "in");
    ref::Tlv r = ref::parse(b.p, n);
    S        s;
    if (vf_pick(0, 1, "prior")) { s.push_back(5); s.push_back(6); }
    bool ok = fast_ber::decode(b.cspan(), s).success;
    bool mine = r.ok && r.cls == 0 && r.cons && r.tag == 16;
    if (!mine) { CHECK(!ok); vf_cover("refused"); return; }
    size_t at = vf_fork(r.hlen), end = vf_fork(r.hlen + r.clen), count = 0;
    bool   good = true;
    while (at < end)
    {
        ref::Tlv e = ref::parse(b.p + at, end - at);
        if (!e.ok) break;
        if (!(e.cls == 0 && e.tag == 2 && !e.cons && e.clen >= 1 && e.clen <= 8)) { good = false; break; }
        size_t  hl = vf_fork(e.hlen), cl = vf_fork(e.clen);
        int64_t v = int8_t(b.p[at + hl]);
        for (size_t i = 1; i < cl; i++) v = int64_t(uint64_t(v) << 8 | b.p[at + hl + i]);
        if (ok) { CHECK(count < s.size()); CHECK(s[count].value() == v); }
        count++;
        at += hl + cl;
    }
    if (!good) { if (ok) { ref::Tlv e = ref::parse(b.p + at, end - at); CHECK(e.cls == 0 && e.tag == 2 && !e.cons && e.clen == 0); } vf_cover("wrong element"); return; }
    vf_check(ok == (at >= end), "accepted exactly when the contents are whole elements");
    if (ok) { CHECK(s.size() == count); vf_cover("accepted"); }
    else vf_cover("trailing octets");
}
extern "C" void vf_of_foreign() { if (vf_pick(0, 1, "heap")) foreign<SequenceOf<Integer<>, Seq, DY>>(Seq{}); else foreign<SequenceOf<Integer<>, Seq, SB>>(Seq{}); }
