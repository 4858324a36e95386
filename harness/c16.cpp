// C16 Default
#include "common.h"
#include <string>
#include <utility>
#ifdef WIDE
#define IVAL int16_t(vf_u16("value"))
#else
#define IVAL int8_t(vf_u8("value"))
#endif
#ifndef NSTEP
#define NSTEP 2
#endif
struct Seven { static int64_t get_value() { return 7; } };
struct Minus { static int64_t get_value() { return -300; } };
struct Abc { static absl::string_view get_value() { return "abc"; } };
struct Yes { static bool get_value() { return true; } };
// a kind: component type T, default, model value and wire form
template <typename I, typename D> struct KInt
{
    using T   = Integer<I>;
    using Def = Default<T, D>;
    static const bool pickdflt = false;
    struct M { int64_t v; };
    static M       dflt() { return M{D::get_value()}; }
    static M       make() { return M{IVAL}; }
    static bool    same(M a, M b) { return a.v == b.v; }
    static T       of(M m) { return T(m.v); }
    static int64_t raw(const M& m) { return m.v; }
    static size_t  wire(uint8_t* o, M m)
    {
        uint8_t c[8];
        size_t  n = 1;
        while (n < 8 && (m.v < -(int64_t(1) << (8 * n - 1)) || m.v > (int64_t(1) << (8 * n - 1)) - 1)) n++;
        for (size_t i = 0; i < n; i++) c[i] = uint8_t(uint64_t(m.v) >> (8 * (n - 1 - i)));
        return put_wrapped(o, I{}, false, c, n);
    }
};
template <typename I> struct KStr
{
    using T   = OctetString<I>;
    using Def = Default<T, Abc>;
    static const bool pickdflt = true;
    struct M { uint8_t b[4] = {}; size_t n = 0; };
    static M    dflt() { M m; m.b[0] = 'a'; m.b[1] = 'b'; m.b[2] = 'c'; m.n = 3; return m; }
    static M    make() { M m; m.n = vf_pick(0, 1, "len") * 3; vf_bytes(m.b, m.n, "value"); return m; }
    static bool same(const M& a, const M& b) { bool e = a.n == b.n; for (size_t i = 0; i < 3; i++) e = e & (i >= a.n || a.b[i] == b.b[i]); return e; }
    static T    of(const M& m) { return T(absl::Span<const uint8_t>(m.b, m.n)); }
    static absl::string_view raw(const M& m) { return absl::string_view(reinterpret_cast<const char*>(m.b), m.n); }
    static size_t wire(uint8_t* o, const M& m) { return put_wrapped(o, I{}, false, m.b, m.n); }
};
struct KBool
{
    using T   = Boolean<>;
    using Def = Default<T, Yes>;
    static const bool pickdflt = false;
    struct M { bool v; };
    static M      dflt() { return M{true}; }
    static M      make() { return M{(vf_u8("value") & 1) != 0}; }
    static bool   same(M a, M b) { return a.v == b.v; }
    static T      of(M m) { return T(m.v); }
    static bool   raw(const M& m) { return m.v; }
    static size_t wire(uint8_t* o, M m) { o[0] = 1; o[1] = 1; o[2] = m.v ? 0xff : 0; return 3; }
};
template <typename K> static void holds(const typename K::Def& d, const typename K::M& m)
{
    CHECK(d.get() == K::of(m));
    CHECK((d == K::of(m)) && !(d != K::of(m)) && (d == K::raw(m)));
    bool    dflt = K::same(m, K::dflt());
    uint8_t tlv[64];
    vf_check(d.is_default() == dflt, "is_default exactly when the value is the default");
    if (dflt) { vf_cover("default value"); check_encode(d, tlv, 0, 0); }
    else { vf_cover("other value"); size_t n = K::wire(tlv, m); check_encode(d, tlv, n, n); }
}
template <typename K> static void history()
{
    using D = typename K::Def;
    using M = typename K::M;
    D* a  = new D();
    M  ma = K::dflt(), mb = K::make();
    D* b  = vf_pick(0, 1, "construct") ? new D(K::of(mb)) : new D(K::raw(mb));
    holds<K>(*a, ma);
    holds<K>(*b, mb);
    for (size_t i = 0; i < NSTEP; i++)
    {
        switch (vf_pick(0, 9, "op"))
        {
        case 0: ma = K::make(); *a = K::of(ma); break;
        case 1: ma = K::make(); *a = K::raw(ma); break;
        case 2: a->set_to_default(); ma = K::dflt(); break;
        case 3: *b = *a; mb = ma; break;
        case 4: { D* c = new D(*a); *b = std::move(*c); delete c; mb = ma; break; }
        case 5: { D* c = new D(std::move(*b)); delete b; b = c; break; }
        case 6: { const D& self = *a; *a = self; break; }
        case 7: { // present: direct, or through an iterator followed by another element
            M       v = K::make();
            if (K::pickdflt && vf_pick(0, 1, "dflt")) v = K::dflt();
            uint8_t c[64], tlv[80];
            size_t  n = K::wire(c, v);
            c[n] = 5; c[n + 1] = 0;
            size_t k = ref::put_header(tlv, 0, true, 16, n + 2);
            for (size_t j = 0; j < n + 2; j++) tlv[k + j] = c[j];
            BerView         w{absl::Span<const uint8_t>(tlv, k + n + 2)};
            BerViewIterator it = w.begin();
            if (vf_pick(0, 1, "iterator"))
            {
                CHECK(fast_ber::decode(it, *a).success);
                CHECK(it->is_valid() && it->tag() == 5);
            }
            else CHECK(fast_ber::decode(*it, *a).success);
            ma = v;
            vf_cover("decode");
            break;
        }
        case 8: CHECK(a->decode(BerView(absl::Span<const uint8_t>())).success); ma = K::dflt(); vf_cover("decode nothing"); break;
        default: {
            uint8_t outer[5] = {0x30, 3, 0x9f, 0x63, 0};
            BerView v{absl::Span<const uint8_t>(outer, 5)};
            BerViewIterator it = v.begin();
            CHECK(!a->decode(*it).success);
            CHECK(fast_ber::decode(it, *a).success);
            CHECK(it->is_valid() && it->tag() == 0x63);
            ma = K::dflt();
            vf_cover("other element");
        }
        }
        holds<K>(*a, ma);
        holds<K>(*b, mb);
        CHECK((*a == *b) == K::same(ma, mb) && (*a != *b) == !K::same(ma, mb));
    }
    delete b;
    holds<K>(*a, ma);
    delete a;
}
extern "C" void vf_default_int() { history<KInt<ExplicitId<UniversalTag::integer>, Seven>>(); }
extern "C" void vf_default_tagged() { history<KInt<IdDouble<UniversalTag::integer>, Minus>>(); }
extern "C" void vf_default_str() { history<KStr<ExplicitId<UniversalTag::octet_string>>>(); }
extern "C" void vf_default_bool() { history<KBool>(); }
extern "C" void vf_default_literal()
{
    Default<OctetString<>, Abc> d("abc"), e("abd");
    CHECK(d.is_default() && !e.is_default() && d == "abc" && e == "abd" && e != "abc" && "abc" == d);
    d = "x";
    e = "abc";
    CHECK(!d.is_default() && e.is_default());
    Default<Integer<>, Seven> i(7), j(8);
    CHECK(i.is_default() && !j.is_default() && i.value() == 7 && j.value() == 8);
    vf_cover("literals");
}
