// C05: encoding fills exactly the announced octets of a large enough buffer and refuses a smaller one
#define WMAX 620
#include "gen.h"
#include "timeenv.h"
#include "fast_ber/ber_types/All.hpp"
#ifndef DEPTH
#define DEPTH 2
#endif
using namespace g;
enum { GUARD = 0xC6 };
// v into a buffer of the given size (an allocation of its own: writes outside it are memory errors)
template <typename T> static void into(const T& v, size_t n, size_t size)
{
    uint8_t* p = new uint8_t[size];
    for (size_t i = 0; i < size; i++) p[i] = GUARD;
    EncodeResult r = fast_ber::encode(absl::Span<uint8_t>(p, size), v);
    vf_check(r.success == (size >= n), "encoding succeeds exactly when the buffer holds the announced length");
    if (r.success)
    {
        vf_check(r.length == n, "the reported length is the announced one");
        for (size_t i = n; i < size; i++) vf_check(p[i] == GUARD, "octets after the encoding are untouched");
        if (n)
        {
            ref::Tlv h = ref::parse(p, n);
            vf_check(h.ok && h.hlen + h.clen == n, "the octets written are one element of that length");
        }
        // what is written does not depend on the room
        if (size > n)
        {
            uint8_t* q = new uint8_t[n];
            for (size_t i = 0; i < n; i++) q[i] = uint8_t(~p[i]);
            EncodeResult s = fast_ber::encode(absl::Span<uint8_t>(q, n), v);
            vf_check(s.success && s.length == n, "a buffer of exactly the announced length is enough");
            bool e = true;
            for (size_t i = 0; i < n; i++) e = e & (p[i] == q[i]);
            vf_check(e, "every announced octet is written");
            delete[] q;
        }
        vf_cover("encoded");
    }
    else vf_cover("refused");
    delete[] p;
}
// every size up to a few octets more; around the ends only, when the encoding is long
template <typename T> static void sizes(const T& v)
{
    size_t n = v.encoded_length();
    vf_check(n < 4096, "announced length");
    size_t m = vf_fork(n);
    size_t size;
    if (m <= 40) size = vf_pick(0, m + 3, "room");
    else
    {
        size_t k = vf_pick(0, 23, "room");
        size     = k < 8 ? k : k < 20 ? m - 20 + k : m - 20 + k; // 0..7, n-12..n+3
    }
    into(v, m, size);
}
static const size_t lens[] = {0, 1, 60, 99, 112, 116, 118, 120, 122, 123, 124, 125, 126, 127, 128, 129, 130, 240, 246, 248, 250, 252, 253, 254, 255, 256, 257, 258};
static size_t length() { return lens[vf_pick(0, sizeof(lens) / sizeof(*lens) - 1, "length")]; }
#ifndef NLIB // library types
#define LIB(name, T, ...) extern "C" void vf_##name() { T a{}; __VA_ARGS__ sizes(a); }
using IdX = DoubleId<Id<Class::context_specific, 3>, Id<Class::application, 2>>;
using IdL = Id<Class::private_, 1000>;
using IdXL = DoubleId<Id<Class::application, 200>, Id<Class::context_specific, 5000>>;
template <UniversalTag U> using IdXU = DoubleId<Id<Class::context_specific, 3>, ExplicitId<U>>;
enum class Col2 { red = 0, green = 5, blue = -3, wide = 70000 };
static uint8_t text[300];
template <typename T> static void str(T& a) { size_t n = length(); text[0] = vf_u8("first"); if (n > 1) text[n - 1] = vf_u8("last"); a = absl::Span<const uint8_t>(text, n); }
LIB(int, Integer<>, a = int64_t(vf_u64("value"));)
LIB(int_l, Integer<IdL>, a = int64_t(vf_u64("value"));)
LIB(int_x, Integer<IdXL>, a = int64_t(vf_u64("value"));)
LIB(bool, Boolean<>, a = bool(vf_u8("value") & 1);)
LIB(bool_x, Boolean<IdXL>, a = bool(vf_u8("value") & 1);)
LIB(null, Null<>, )
LIB(null_x, Null<IdXL>, )
static Col2 col() { static const Col2 c[] = {Col2::red, Col2::green, Col2::blue, Col2::wide}; return c[vf_pick(0, 3, "value")]; }
LIB(enum, Enumerated<Col2>, a = col();)
using EnumX = Enumerated<Col2, IdX>;
LIB(enum_x, EnumX, a = col();)
static double dbl() { uint64_t u = vf_u64("value"); double d; memcpy(&d, &u, 8); return d; }
LIB(real, Real<>, a = dbl();)
LIB(real_x, Real<IdX>, a = dbl();)
template <typename T> static void arcs(T& a)
{
    size_t n = vf_pick(0, 2, "arcs");
    ObjectIdentifierComponents c{1, int64_t(vf_u8("arc") & 31)};
    for (size_t i = 0; i < n; i++) c.push_back(int64_t(vf_u64("arc") >> 1));
    a = c;
}
LIB(oid, ObjectIdentifier<>, arcs(a);)
LIB(oid_x, ObjectIdentifier<IdX>, arcs(a);)
LIB(oid_empty, ObjectIdentifier<>, )
LIB(octet, OctetString<>, str(a);)
LIB(octet_l, OctetString<IdL>, str(a);)
LIB(octet_x, OctetString<IdXL>, str(a);)
LIB(bits, BitString<>, str(a);)
LIB(utf8_x, UTF8String<IdX>, str(a);)
LIB(time, GeneralizedTime<>, if (vf_pick(0, 1, "offset")) a.set_time(absl::UnixEpoch(), 90);)
LIB(time_x, UTCTime<IdX>, if (vf_pick(0, 1, "offset")) a.set_time(absl::UnixEpoch(), 90);)
using OptS = Optional<Integer<>, StorageMode::static_>;
using OptD = Optional<OctetString<IdX>, StorageMode::dynamic>;
LIB(opt, OptS, if (vf_pick(0, 1, "present")) a = Integer<>(int64_t(vf_u64("value")));)
LIB(opt_dyn, OptD, if (vf_pick(0, 1, "present")) { a.emplace(); str(*a); })
struct Seven { static int64_t get_value() { return 7; } };
struct Abc { static absl::string_view get_value() { return "abc"; } };
using Dint = Default<Integer<IdXL>, Seven>;
using Dstr = Default<OctetString<>, Abc>;
LIB(def_int, Dint, if (vf_pick(0, 1, "set")) a = Integer<IdXL>(int64_t(vf_u64("value")));)
LIB(def_str, Dstr, if (vf_pick(0, 1, "set")) { OctetString<> s; str(s); a = s; })
template <typename T> static void many(T& a) { static const size_t n[] = {0, 1, 2, 41, 42, 43, 84, 85, 86}; size_t k = n[vf_pick(0, 8, "elements")]; for (size_t i = 0; i < k; i++) a.push_back(int64_t(i)); }
using OfS = SequenceOf<Integer<>, ExplicitId<UniversalTag::sequence>, StorageMode::small_buffer_optimised>;
using OfX = SequenceOf<Integer<>, IdXL, StorageMode::dynamic>;
using OfStr = SequenceOf<OctetString<>, IdX, StorageMode::dynamic>;
using OfOf = SequenceOf<OfStr, IdL, StorageMode::dynamic>;
LIB(of, OfS, many(a);)
LIB(of_x, OfX, many(a);)
LIB(of_str, OfStr, size_t k = vf_pick(0, 2, "elements"); for (size_t i = 0; i < k; i++) { OctetString<> s; if (i) s = "xy"; else str(s); a.push_back(s); })
LIB(of_of, OfOf, OfStr b; OctetString<> s; str(s); b.push_back(s); a.push_back(b); a.push_back(OfStr());)
template <typename Base> struct Lib : Base
{
    using Base::Base;
    size_t       encoded_length() const noexcept { return this->encoded_length_old(); }
    EncodeResult encode(absl::Span<uint8_t> b) const noexcept { return this->encode_old(b); }
    DecodeResult decode(BerView v) noexcept { return this->decode_old(v); }
};
using ChoX = Lib<Choice<Choices<Integer<Id<Class::context_specific, 0>>, OctetString<Id<Class::application, 0>>, Integer<DoubleId<Id<Class::private_, 40>, ExplicitId<UniversalTag::integer>>>>, Id<Class::context_specific, 9>, StorageMode::dynamic>>;
using ChoU = Lib<Choice<Choices<Boolean<>, Integer<>, OctetString<>>>>;
using ChoL = Lib<Choice<Choices<Null<>, OctetString<Id<Class::context_specific, 2>>>, IdL>>;
LIB(cho_x, ChoX, switch (vf_pick(0, 2, "alternative")) { case 0: a.emplace<0>(int64_t(vf_u64("value"))); break; case 1: a.emplace<1>(); str(fast_ber::get<1>(a)); break; case 2: a.emplace<2>(int64_t(vf_u64("value"))); break; })
LIB(cho_u, ChoU, switch (vf_pick(0, 2, "alternative")) { case 0: a.emplace<0>(true); break; case 1: a.emplace<1>(int64_t(vf_u64("value"))); break; case 2: a.emplace<2>(); str(fast_ber::get<2>(a)); break; })
LIB(cho_l, ChoL, if (vf_pick(0, 1, "alternative")) { a.emplace<1>(); str(fast_ber::get<1>(a)); })
LIB(any, Any<>, switch (vf_pick(0, 2, "alternative")) { case 0: a.emplace<7>(int64_t(vf_u64("value"))); break; case 1: a.emplace<10>(); str(fast_ber::get<10>(a)); break; case 2: break; })
extern "C" void vf_container()
{
    size_t       n = length();
    BerContainer c;
    text[0] = vf_u8("first");
    static const uint64_t tags[] = {0, 30, 31, 127, 128, uint64_t(1) << 40, uint64_t(1) << 62};
    if (vf_pick(0, 1, "valid")) c.assign_content(Construction::constructed, Class(vf_u8("class") & 3), fast_ber::Tag(tags[vf_pick(0, 6, "tag")]), absl::Span<const uint8_t>(text, n));
    if (c.is_valid()) { struct V { const BerContainer& c; size_t encoded_length() const { return c.ber_length(); } EncodeResult encode(absl::Span<uint8_t> b) const { return c.encode(b); } } v{c}; sizes(v); }
    else
    {
        uint8_t* p = new uint8_t[3];
        c.encode(absl::Span<uint8_t>(p, vf_pick(0, 3, "room")));
        delete[] p;
    }
}
// headers put around contents that lie anywhere in the buffer
template <typename I> static void wrap(I id, int cls, uint64_t tag, int cls2, uint64_t tag2, bool two)
{
    static const size_t lens[] = {0, 1, 5, 120, 126, 127, 128, 200};
    size_t  n = lens[vf_pick(0, 7, "content")], off = vf_pick(0, 10, "offset"), room = n + off + vf_pick(0, 4, "room");
    uint8_t want[260], inner[260];
    uint8_t* p = new uint8_t[room];
    for (size_t i = 0; i < room; i++) p[i] = GUARD;
    for (size_t i = 0; i < n; i++) p[off + i] = i == 0 || i + 1 == n ? vf_u8("octet") : uint8_t(i * 3);
    size_t h = 0;
    if (two) { h = ref::put_header(inner, cls2, true, tag2, n); }
    size_t o = ref::put_header(want, cls, true, tag, n + h);
    for (size_t i = 0; i < h; i++) want[o + i] = inner[i];
    for (size_t i = 0; i < n; i++) want[o + h + i] = p[off + i];
    size_t       all = o + h + n;
    EncodeResult r = wrap_with_ber_header(absl::Span<uint8_t>(p, room), n, id, off);
    vf_check(r.success == (room >= all), "a header fits exactly when header and contents fit");
    if (r.success)
    {
        vf_check(r.length == all, "reported length");
        bool e = true;
        for (size_t i = 0; i < all; i++) e = e & (p[i] == want[i]);
        vf_check(e, "header and contents");
        for (size_t i = all > off + n ? all : off + n; i < room; i++) vf_check(p[i] == GUARD, "octets after the encoding are untouched");
        vf_cover("encoded");
    }
    else vf_cover("refused");
    delete[] p;
}
extern "C" void vf_wrap()
{
    switch (vf_pick(0, 3, "identifier"))
    {
    case 0: wrap(ExplicitId<UniversalTag::sequence>{}, 0, 16, 0, 0, false); break;
    case 1: wrap(IdL{}, 3, 1000, 0, 0, false); break;
    case 2: wrap(IdX{}, 2, 3, 1, 2, true); break;
    case 3: wrap(IdXL{}, 1, 200, 2, 5000, true); break;
    }
}
#else // generated types
// any structure, short leaves
template <typename T> static void short_values(const Ty& t)
{
    W    w;
    Plan p;
    int  shape = int(vf_pick(0, 2, "shape"));
    p.minimal = shape == 0;
    p.full    = shape == 1;
    p.fixed   = shape != 2;
    p.alts    = true;
    struct Conc { Conc() { concrete_leaves = true; } ~Conc() { concrete_leaves = false; } } conc;
    element(w, t, DEPTH, p);
    T a{};
    vf_check(dec(w, a), "the X.690 encoding decodes");
    sizes(a);
}
// one string of 0..258 octets anywhere
template <typename T> static void long_values(const Ty& t)
{
    W    w;
    Plan p;
    p.full = p.fixed = p.alts = true;
    lng    = Long{};
    lng.at = int(vf_pick(0, 5, "string"));
    lng.n  = length();
    element(w, t, DEPTH, p);
    if (!lng.done) return;
    lng.at = -1;
    T a{};
    vf_check(dec(w, a), "the X.690 encoding decodes");
    sizes(a);
    vf_cover("long");
}
#define RUN(name, T, t) extern "C" void vf_short_##name() { short_values<fast_ber::T>(t); } extern "C" void vf_long_##name() { long_values<fast_ber::T>(t); }
#ifndef GEN2
RUN(auto_leaf, AutoMod::Leaf, t_leaf)
RUN(auto_pick, AutoMod::Pick, t_pick)
RUN(auto_rec, AutoMod::Rec, t_rec)
RUN(auto_col, AutoMod::Col, t_col)
RUN(auto_top, AutoMod::Top, t_top)
RUN(auto_manual, AutoMod::Manual, t_manual)
RUN(expl_seq, ExplMod::Seq, t_eseq)
RUN(expl_seq2, ExplMod::Seq2, t_eseq2)
RUN(expl_bag, ExplMod::Bag, t_bag)
RUN(expl_bagext, ExplMod::BagExt, t_bagext)
RUN(expl_nest, ExplMod::Nest, t_nest)
RUN(expl_ext, ExplMod::Ext, t_ext)
RUN(expl_derived, ExplMod::Derived, t_derived)
RUN(impl_seq, ImplMod::Seq, t_iseq)
RUN(impl_seq2, ImplMod::Seq2, t_iseq2)
RUN(t4, ExplMod::Tagged4, ix4a2)
RUN(talt, ExplMod::TAlt, alt9)
RUN(tinner, ExplMod::TInner, inner_7x)
#else
RUN(mixedopt, Expl::MixedOpt, t_mixedopt)
RUN(mixedopt2, Expl::MixedOpt2, t_mixedopt2)
RUN(high, Expl::High, t_high)
RUN(highext, Expl::HighExt, t_highext)
RUN(extdef, Expl::ExtDef, t_extdef)
RUN(empty, Expl::Empty, t_empty)
RUN(emptyext, Expl::EmptyExt, t_emptyext)
RUN(lists, Expl::Lists, t_lists)
RUN(holder, Impl::Holder, t_holder)
RUN(mixed, Expl::Mixed, t_mixed)
RUN(either, Impl::Either, t_either)
#endif
#endif
