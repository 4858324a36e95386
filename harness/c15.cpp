// C15 Optional, C16 Default
#include "common.h"
#include <string>
#include <utility>
#ifdef WIDE
#define IVAL int16_t(vf_u16("value"))
#else
#define IVAL int8_t(vf_u8("value"))
#endif
#ifndef NSTEP
#define NSTEP 2
#endif
// ---- values
template <typename T> struct Gen;
template <typename I> struct Gen<Integer<I>>
{
    struct M { int64_t v = 0; };
    static M    make() { M m; m.v = IVAL; return m; }
    static Integer<I> of(const M& m) { return Integer<I>(m.v); }
    static bool same(const M& a, const M& b) { return a.v == b.v; }
    static bool is(const Integer<I>& t, const M& m) { return t.value() == m.v; }
    static size_t wire(uint8_t* o, const M& m)
    {
        uint8_t c[8];
        size_t  n = 1;
        while (n < 8 && (m.v < -(int64_t(1) << (8 * n - 1)) || m.v > (int64_t(1) << (8 * n - 1)) - 1)) n++;
        for (size_t i = 0; i < n; i++) c[i] = uint8_t(uint64_t(m.v) >> (8 * (n - 1 - i)));
        return put_wrapped(o, I{}, false, c, n);
    }
};
template <typename I> struct Gen<OctetString<I>>
{
    struct M { uint8_t b[4]; size_t n = 0; };
    static M    make() { M m; m.n = vf_pick(0, 1, "len") * 3; vf_bytes(m.b, m.n, "value"); return m; }
    static OctetString<I> of(const M& m) { return OctetString<I>(absl::Span<const uint8_t>(m.b, m.n)); }
    static bool same(const M& a, const M& b) { bool e = a.n == b.n; for (size_t i = 0; i < 3; i++) e = e & (i >= a.n || a.b[i] == b.b[i]); return e; }
    static bool is(const OctetString<I>& t, const M& m) { return t.size() == m.n && t == of(m); }
    static size_t wire(uint8_t* o, const M& m) { return put_wrapped(o, I{}, false, m.b, m.n); }
};
template <typename T> struct Model { bool present = false; typename Gen<T>::M v; };
template <typename O, typename T> static void holds(const O& o, const Model<T>& m)
{
    CHECK(o.has_value() == m.present && bool(o) == m.present);
    if (m.present) CHECK(Gen<T>::is(*o, m.v));
    uint8_t tlv[64];
    size_t  n = m.present ? Gen<T>::wire(tlv, m.v) : 0;
    check_encode(o, tlv, n, n);
}
template <typename O, typename T> static void compare(const O& a, const Model<T>& ma, const O& b, const Model<T>& mb)
{
    bool eq = ma.present == mb.present && (!ma.present || Gen<T>::same(ma.v, mb.v));
    CHECK((a == b) == eq);
    CHECK((a != b) == !eq);
    typename Gen<T>::M k  = Gen<T>::make();
    bool               ek = ma.present && Gen<T>::same(ma.v, k);
    CHECK((a == Gen<T>::of(k)) == ek);
    CHECK((a != Gen<T>::of(k)) == !ek);
}
template <typename O, typename T, typename I> static void optional(I)
{
    O*       a = new O();
    O*       b = new O(empty);
    Model<T> ma, mb;
#ifdef START
    int      start = int(vf_pick(1, 2, "initial"));
#else
    int      start = 0;
#endif
    if (start & 1) { ma.v = Gen<T>::make(); ma.present = true; *a = Gen<T>::of(ma.v); }
    if (start) { mb.v = Gen<T>::make(); mb.present = true; *b = Gen<T>::of(mb.v); }
    holds(*a, ma);
    holds(*b, mb);
    for (size_t i = 0; i < NSTEP; i++)
    {
        switch (vf_pick(0, 11, "op"))
        {
        case 0: ma.v = Gen<T>::make(); ma.present = true; *a = Gen<T>::of(ma.v); vf_cover("assign"); break;
        case 1: *a = empty; ma.present = false; vf_cover("reset"); break;
        case 2: *b = *a; mb = ma; vf_cover("copy"); break;
        case 3: { O* c = new O(*a); *b = std::move(*c); delete c; mb = ma; break; }
        case 4: { O* c = new O(std::move(*b)); *b = empty; delete b; b = c; vf_cover("move"); break; }
        case 5: { const O& self = *a; *a = self; vf_cover("self copy"); break; }
        case 6: ma.v = Gen<T>::make(); ma.present = true; a->emplace(Gen<T>::of(ma.v)); break;
        case 7: { // present on the wire
            typename Gen<T>::M v = Gen<T>::make();
            uint8_t tlv[64];
            size_t  n = Gen<T>::wire(tlv, v);
            CHECK(a->decode(BerView(absl::Span<const uint8_t>(tlv, n))).success);
            ma.v = v; ma.present = true;
            vf_cover("decode");
            break;
        }
        case 8: CHECK(a->decode(BerView(absl::Span<const uint8_t>())).success); ma.present = false; vf_cover("decode nothing"); break;
        case 9: { // another element on the wire: refused or treated as absent by the iterator form
            uint8_t tlv[3] = {0x9f, 0x63, 0};
            CHECK(!a->decode(BerView(absl::Span<const uint8_t>(tlv, 3))).success);
            uint8_t      outer[5] = {0x30, 3, 0x9f, 0x63, 0};
            BerView      v{absl::Span<const uint8_t>(outer, 5)};
            BerViewIterator it = v.begin();
            CHECK(fast_ber::decode(it, *a).success);
            CHECK(it->is_valid() && it->tag() == 0x63);
            ma.present = false;
            vf_cover("other element");
            break;
        }
        case 10: { // iterator form, present, then the next element is still there
            typename Gen<T>::M v = Gen<T>::make();
            uint8_t c[64], tlv[80];
            size_t  n = Gen<T>::wire(c, v);
            c[n] = 5; c[n + 1] = 0;
            n = ref::put_header(tlv, 0, true, 16, n + 2);
            size_t k = Gen<T>::wire(tlv + n, v);
            tlv[n + k] = 5; tlv[n + k + 1] = 0;
            BerView         w{absl::Span<const uint8_t>(tlv, n + k + 2)};
            BerViewIterator it = w.begin();
            CHECK(fast_ber::decode(it, *a).success);
            CHECK(it->is_valid() && it->tag() == 5);
            ma.v = v; ma.present = true;
            vf_cover("iterator decode");
            break;
        }
        default: if (ma.present) { ma.v = Gen<T>::make(); **a = Gen<T>::of(ma.v); vf_cover("through dereference"); } break;
        }
        holds(*a, ma);
        holds(*b, mb);
        compare(*a, ma, *b, mb);
    }
    delete b;
    holds(*a, ma);
    delete a;
}
using IntD = Integer<IdDouble<UniversalTag::integer>>;
extern "C" void vf_optional_int() { if (vf_pick(0, 1, "heap")) optional<Optional<Integer<>, StorageMode::dynamic>, Integer<>>(0); else optional<Optional<Integer<>>, Integer<>>(0); }
extern "C" void vf_optional_tagged() { if (vf_pick(0, 1, "heap")) optional<Optional<IntD, StorageMode::dynamic>, IntD>(0); else optional<Optional<IntD>, IntD>(0); }
extern "C" void vf_optional_str() { if (vf_pick(0, 1, "heap")) optional<Optional<OctetString<>, StorageMode::dynamic>, OctetString<>>(0); else optional<Optional<OctetString<>>, OctetString<>>(0); }
// an optional never reports present for octets which are not an element with its identifier
template <typename O> static void foreign()
{
    size_t n = vf_pick(0, 6, "n");
    Buf    b(n);
    sym(b, "in");
    ref::Tlv r = ref::parse(b.p, n);
    O        o(vf_pick(0, 1, "prior") ? O(Integer<>(77)) : O());
    bool ok = o.decode(BerView(b.cspan())).success;
    bool mine = r.ok && r.cls == 0 && r.tag == 2;
    if (!mine && ok) { CHECK(!o.has_value()); CHECK(!r.ok); vf_cover("absent"); }
    if (mine && ok) { CHECK(o.has_value()); vf_cover("present"); }
    if (!ok) { CHECK(r.ok); vf_cover("refused"); }
}
extern "C" void vf_optional_foreign() { if (vf_pick(0, 1, "heap")) foreign<Optional<Integer<>, StorageMode::dynamic>>(); else foreign<Optional<Integer<>>>(); }
