// C22 (MODE 22): the outcome of decoding does not depend on what the target held.
// C23 (MODE 23): any octets, any type: safe to decode, inspect, copy, encode, destroy.
// C32 (MODE 32): what is accepted re-encodes to an equivalent packet, and that encoding is stable.
#include "gen.h"
#include "timeenv.h"
#include "fast_ber/ber_types/All.hpp"
#ifndef MODE
#define MODE 23
#endif
#ifndef NB
#define NB 6
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
#ifdef LESS // the first or last alternative of a CHOICE only, used targets hold everything
enum { ALTS = false };
#else
enum { ALTS = true };
#endif
#ifndef NCORRUPT
#define NCORRUPT 1
#endif
#define BIG ((size_t)1 << 20)
using namespace g;
template <typename T> static bool eqv(const T& a, const T& b) { return a == b; }
template <typename I> static bool eqv(const GeneralizedTime<I>& a, const GeneralizedTime<I>& b) { return a.string() == b.string(); }
template <typename I> static bool eqv(const Real<I>& a, const Real<I>& b)
{
    double x = a.value(), y = b.value(); // operator== compares with an absolute tolerance
    return x == y || (x != x && y != y);
}
static bool eqv(const Any<>& a, const Any<>& b)
{
    if (a.index() != b.index()) return false;
    switch (a.index())
    {
    case 0: return eqv(get<0>(a), get<0>(b)); case 1: return eqv(get<1>(a), get<1>(b)); case 2: return eqv(get<2>(a), get<2>(b));
    case 3: return eqv(get<3>(a), get<3>(b)); case 4: return eqv(get<4>(a), get<4>(b)); case 5: return eqv(get<5>(a), get<5>(b));
    case 6: return eqv(get<6>(a), get<6>(b)); case 7: return eqv(get<7>(a), get<7>(b)); case 8: return true;
    case 9: return eqv(get<9>(a), get<9>(b)); case 10: return eqv(get<10>(a), get<10>(b)); case 11: return true;
    case 12: return eqv(get<12>(a), get<12>(b)); case 13: return eqv(get<13>(a), get<13>(b)); case 14: return eqv(get<14>(a), get<14>(b));
    case 15: return eqv(get<15>(a), get<15>(b));
    }
    return false;
}
template <typename T> static void inspect(const T&) {}
template <typename I> static void inspect(const Integer<I>& a) { vf_check(a.value() == a.value(), "value"); }
template <typename I> static void inspect(const Boolean<I>& a) { (void)a.value(); }
template <typename I> static void inspect(const Real<I>& a) { (void)a.value(); }
template <typename I> static void inspect(const ObjectIdentifier<I>& a)
{
    auto v = a.value();

    vf_check(a == v, "value compares equal to itself");
    for (size_t i = 1; i <= a.number_of_components() && i < 4; i++) (void)a.component_number(i);
}
template <typename I> static void inspect(const GeneralizedTime<I>& a) { vf_check(a.string().size() < BIG, "text"); (void)a.format(); }
template <UniversalTag t, typename I> static void inspect(const StringImpl<t, I>& a)
{
    uint8_t x = 0;
    for (size_t i = 0; i < a.length(); i++) x ^= uint8_t(a.data()[i]);
    vf_check(a == absl::string_view(a), "string equals its characters");
}
template <typename T, StorageMode s> static void inspect(const Optional<T, s>& a) { if (a.has_value()) inspect(*a); }
template <typename T, typename I, StorageMode s> static void inspect(const SequenceOf<T, I, s>& a) { for (const T& x : a) inspect(x); }
// octets of v in an exactly sized buffer
template <typename T> static uint8_t* octets(const T& v, size_t& n)
{
    n          = v.encoded_length();
    uint8_t* p = new uint8_t[n];
    EncodeResult r = fast_ber::encode(absl::Span<uint8_t>(p, n), v);
    vf_check(r.success && r.length == n, "an accepted value encodes into exactly the announced length");
    return p;
}
template <typename T> static void after(T& a, bool ok)
{
#if MODE == 23
    inspect(a);
    size_t   n = a.encoded_length();
    if (n < 4096)
    {
        uint8_t* p = new uint8_t[n];
        EncodeResult r = fast_ber::encode(absl::Span<uint8_t>(p, n), a);
        if (r.success) vf_check(r.length <= n, "encoding stays in the buffer");
        delete[] p;
    }
    T c(a), d{};
    d = c;
    T e(static_cast<T&&>(c));
    d = static_cast<T&&>(e);
    inspect(d);
    (void)eqv(d, a);
#elif MODE == 32
    if (!ok) { vf_cover("refused"); return; }
    size_t   n, m;
    uint8_t* p = octets(a, n);
    T        b{};
    vf_check(fast_ber::decode(absl::Span<const uint8_t>(p, n), b).success, "the re-encoded packet is accepted");
    vf_check(eqv(a, b), "with an equal value");
    uint8_t* q = octets(b, m);
    bool     e = n == m;
    for (size_t i = 0; i < n && i < m; i++) e = e & (p[i] == q[i]);
    vf_check(e, "and encodes to the same octets again");
    delete[] p;
    delete[] q;
#endif
    if (ok) vf_cover("accepted");
    else vf_cover("refused");
}
template <typename T> static bool decode_exact(const uint8_t* b, size_t n, T& a)
{
    uint8_t* p = new uint8_t[n];
    for (size_t i = 0; i < n; i++) p[i] = b[i];
    bool r = fast_ber::decode(absl::Span<const uint8_t>(p, n), a).success;
    delete[] p;
    return r;
}
// b..b+n decoded into a fresh target, or (C22) into a fresh and a used one
template <typename T, typename Fill> static void one(const uint8_t* b, size_t n, Fill fill)
{
    T    a{};
#if MODE == 22
    T    u{};
    fill(u);
    bool ra = decode_exact(b, n, a), ru = decode_exact(b, n, u);
    vf_check(ra == ru, "the outcome does not depend on the previous value");
    if (!ra) { vf_cover("refused"); return; }
    vf_check(eqv(a, u), "nor does the decoded value");
    size_t   k, m;
    uint8_t* p = octets(a, k);
    uint8_t* q = octets(u, m);
    bool     e = k == m;
    for (size_t i = 0; i < k && i < m; i++) e = e & (p[i] == q[i]);
    vf_check(e, "nor does its encoding");
    delete[] p;
    delete[] q;
    vf_cover("accepted");
#else
#if MODE == 23 || defined(USED)
    fill(a);
#endif
    after(a, decode_exact(b, n, a));
#endif
}
template <typename T, typename Fill> static void any_octets(Fill fill, size_t most = NB)
{
    size_t  n = vf_pick(0, most, "size");
    uint8_t b[16];
    vf_bytes(b, n, "packet");
    one<T>(b, n, fill);
}
// ---- library types
#define LIB(name, T, ...) extern "C" void vf_##name() { using X = T; any_octets<X>([](X& a) { size_t k = vf_pick(0, 2, "previous"); (void)k; (void)a; __VA_ARGS__ }); }
#define COMMA ,
using XId = DoubleId<Id<Class::context_specific, 3>, Id<Class::application, 2>>;
enum class Col2 { red = 0, green = 5, blue = -3 };
struct Seven { static int64_t get_value() { return 7; } };
struct Abc { static absl::string_view get_value() { return "abc"; } };
static uint8_t long_text[200];
template <typename T> static void fill_str(T& a, size_t k) { if (k) a = absl::Span<const uint8_t>(long_text, k == 1 ? 3 : 130); }
template <typename T> static void fill_time(T& a, size_t k)
{
    uint8_t w[40];
    size_t  n = ref::put_header(w, 0, false, 24, k == 1 ? 3 : 15);
    for (size_t i = n; i < n + 15; i++) w[i] = 'Z';
    if (k) a.decode(BerView(absl::Span<const uint8_t>(w, n + (k == 1 ? 3 : 15))));
}
LIB(int, Integer<>, if (k) a = k == 1 ? int64_t(-1) : int64_t(1) << 40;)
LIB(int_x, Integer<XId>, if (k) a = k == 1 ? int64_t(-1) : int64_t(1) << 40;)
LIB(bool, Boolean<>, if (k) a = k == 1;)
LIB(null, Null<>, )
LIB(enum, Enumerated<Col2>, if (k) a = k == 1 ? Col2::green : Col2::blue;)
LIB(real, Real<>, if (k) a = k == 1 ? 1.5 : -1e300;)
LIB(oid, ObjectIdentifier<>, if (k) a = ObjectIdentifierComponents{1 COMMA 2 COMMA int64_t(k) * 1000};)
LIB(bool_x, Boolean<XId>, if (k) a = k == 1;)
LIB(enum_x, Enumerated<Col2 COMMA XId>, if (k) a = k == 1 ? Col2::green : Col2::blue;)
LIB(real_x, Real<XId>, if (k) a = k == 1 ? 1.5 : -1e300;)
LIB(oid_x, ObjectIdentifier<XId>, if (k) a = ObjectIdentifierComponents{1 COMMA 2 COMMA int64_t(k) * 1000};)
LIB(octet, OctetString<>, fill_str(a, k);)
LIB(octet_x, OctetString<XId>, fill_str(a, k);)
LIB(bits, BitString<>, fill_str(a, k);)
LIB(utf8, UTF8String<>, fill_str(a, k);)
LIB(time, GeneralizedTime<>, fill_time(a, k);)
template <typename T> static void fill_opt(T& a, size_t k) { if (k) a = Integer<>(k == 1 ? -1 : 70000); }
using OptS = Optional<Integer<>, StorageMode::static_>;
using OptD = Optional<Integer<>, StorageMode::dynamic>;
using OptStr = Optional<OctetString<XId>, StorageMode::dynamic>;
LIB(opt, OptS, fill_opt(a, k);)
LIB(opt_dyn, OptD, fill_opt(a, k);)
LIB(opt_str, OptStr, if (k) { a.emplace(); fill_str(*a, k); })
using Dint = Default<Integer<>, Seven>;
using Dstr = Default<OctetString<>, Abc>;
LIB(def_int, Dint, if (k) a = Integer<>(k == 1 ? -1 : 70000);)
LIB(def_str, Dstr, if (k) { OctetString<> s; fill_str(s, k); a = s; })
using OfS = SequenceOf<Integer<>, ExplicitId<UniversalTag::sequence>, StorageMode::small_buffer_optimised>;
using OfD = SequenceOf<OctetString<>, XId, StorageMode::dynamic>;
using OfO = SequenceOf<ObjectIdentifier<>, ExplicitId<UniversalTag::set>, StorageMode::dynamic>;
LIB(of, OfS, for (size_t i = 0; i < 3 * k; i++) a.push_back(int64_t(i));)
LIB(of_dyn, OfD, for (size_t i = 0; i < 3 * k; i++) { OctetString<> s; fill_str(s, 1); a.push_back(s); })
LIB(of_oid, OfO, for (size_t i = 0; i < k; i++) a.push_back(ObjectIdentifier<>(ObjectIdentifierComponents{1 COMMA 2 COMMA 3}));)
template <typename Base> struct Lib : Base
{
    using Base::Base;
    size_t       encoded_length() const noexcept { return this->encoded_length_old(); }
    EncodeResult encode(absl::Span<uint8_t> b) const noexcept { return this->encode_old(b); }
    DecodeResult decode(BerView v) noexcept { return this->decode_old(v); }
};
using LB = Lib<Choice<Choices<Integer<Id<Class::context_specific, 0>>, OctetString<Id<Class::application, 0>>, Integer<DoubleId<Id<Class::private_, 40>, ExplicitId<UniversalTag::integer>>>>, Id<Class::context_specific, 9>, StorageMode::dynamic>>;
template <typename T, bool dyn> static void fill_cho(T& a, size_t k) { if (k == 1) a.template emplace<1>(); if (k == 2) a.template emplace<2>(5); }
LIB(choice, LB, fill_cho<LB COMMA true>(a, k);)
LIB(any, Any<>, if (k == 1) a.emplace<7>(5); if (k == 2) a.emplace<10>("abc");)
// ---- generated types: an X.690 encoding with NCORRUPT octets replaced, decoded into a fresh or used target
static uint8_t concrete = 1;
template <typename T> static void fill_gen(const Ty& t, T& a)
{
    size_t k = ALTS ? vf_pick(0, 3, "previous") : 2;
    if (!k) return;
    // 1: mandatory components only, 2: everything, 3: a failed decode
    Plan p;
    p.minimal = k == 1;
    p.full    = k != 1;
    p.fixed   = true;
    W w;
    element(w, t, DEPTH, p);
    if (k == 3) w.b[w.n - 1] = 0xff, w.b[w.n - 2] = 0x7f;
    decode_exact(w.b, w.n, a);
}
template <typename T> static void corrupt(const Ty& t)
{
    W    w;
    Plan p;
    int  shape = int(vf_pick(0, 1, "shape"));
    p.minimal = shape == 0;
    p.full    = true;
    p.fixed   = true;
    p.alts    = ALTS;
    element(w, t, DEPTH, p);
    for (int i = 0; i < NCORRUPT; i++)
    {
        size_t  at = vf_pick(0, w.n - 1, "place");
        uint8_t v  = vf_u8("octet");
        if (w.len[at] && v <= w.n - at) v = uint8_t(vf_fork(v)); // lengths which fit: one path each
        w.b[at] = v;
    }
    one<T>(w.b, w.n, [&](T& a) { fill_gen(t, a); });
}
template <typename T> static void sound(const Ty& t)
{
    W w;
    element(w, t, DEPTH);
    one<T>(w.b, w.n, [&](T& a) { fill_gen(t, a); });
}
template <typename T> static void octets_of(const Ty& t)
{
    any_octets<T>([&](T& a) { fill_gen(t, a); });
}
#define RUN(n, T, t) \
    extern "C" void vf_corrupt_##n() { corrupt<fast_ber::T>(t); } \
    extern "C" void vf_sound_##n() { sound<fast_ber::T>(t); } \
    extern "C" void vf_octets_##n() { octets_of<fast_ber::T>(t); }
#ifndef GEN2
RUN(auto_leaf, AutoMod::Leaf, t_leaf)
RUN(auto_pick, AutoMod::Pick, t_pick)
RUN(auto_rec, AutoMod::Rec, t_rec)
RUN(auto_col, AutoMod::Col, t_col)
RUN(auto_top, AutoMod::Top, t_top)
RUN(auto_manual, AutoMod::Manual, t_manual)
RUN(expl_seq, ExplMod::Seq, t_eseq)
RUN(expl_seq2, ExplMod::Seq2, t_eseq2)
RUN(expl_bag, ExplMod::Bag, t_bag)
RUN(expl_bagext, ExplMod::BagExt, t_bagext)
RUN(expl_nest, ExplMod::Nest, t_nest)
RUN(expl_ext, ExplMod::Ext, t_ext)
RUN(expl_derived, ExplMod::Derived, t_derived)
RUN(impl_seq, ImplMod::Seq, t_iseq)
RUN(impl_seq2, ImplMod::Seq2, t_iseq2)
#else
RUN(mixedopt, Expl::MixedOpt, t_mixedopt)
RUN(mixedopt2, Expl::MixedOpt2, t_mixedopt2)
RUN(high, Expl::High, t_high)
RUN(highext, Expl::HighExt, t_highext)
RUN(extdef, Expl::ExtDef, t_extdef)
RUN(empty, Expl::Empty, t_empty)
RUN(emptyext, Expl::EmptyExt, t_emptyext)
RUN(lists, Expl::Lists, t_lists)
RUN(holder, Impl::Holder, t_holder)
RUN(mixed, Expl::Mixed, t_mixed)
RUN(either, Impl::Either, t_either)
RUN(cols, Expl::Cols, t_cols)
RUN(colset, Expl::ColSet, t_colset)
RUN(colof, Expl::ColOf, t_colof)
RUN(colseq, Expl::ColSeq, t_colseq)
#endif
