// C18: a CHOICE decodes to the alternative named by class and tag number
#include "gen.h"
#include "timeenv.h"
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef NB
#define NB 6
#endif
using namespace g;
static const Ty& elem_of(const Ty& t, int i) { return *t.comps[i].ty; }
// every alternative comes back as itself
template <typename T> static void alternatives(const Ty& t)
{
    int i = int(vf_pick(0, t.ncomps - 1, "alternative"));
    W   w;
    element(w, elem_of(t, i), DEPTH - 1);
    for (int k = t.ntags; k-- > 0;) w.wrap(t.tags[k].cls, true, t.tags[k].num);
    T a{};
    vf_check(dec(w, a), "an encoded alternative decodes");
    vf_check(a.index() == size_t(i), "the alternative named by the identifier is selected");
    W e;
    vf_check(enc(a, e), "encodes into the announced length");
    // decode into an object that holds another alternative
    T       b{};
    int     j = int(vf_pick(0, t.ncomps - 1, "previous alternative"));
    W       o;
    Plan    small;
    small.minimal = true;
    element(o, elem_of(t, j), 1, small);
    for (int k = t.ntags; k-- > 0;) o.wrap(t.tags[k].cls, true, t.tags[k].num);
    dec(o, b);
    vf_check(dec(e, b), "its own encoding decodes");
    vf_check(b.index() == size_t(i), "the same alternative is selected again");
    vf_check(a == b, "with the same value");
    if (i == j) vf_cover("same alternative before");
    else vf_cover("other alternative before");
}
// arbitrary packets
template <typename T> static void foreign(const Ty& t)
{
    size_t n = vf_pick(0, NB, "size");
    W      w;
    w.n = n;
    vf_bytes(w.b, n, "packet");
    T    a{};
    bool r = dec(w, a);
    if (!r) { vf_cover("refused"); return; }
    vf_cover("accepted");
    const uint8_t* p = w.b;
    ref::Tlv       h;
    for (int k = 0; k <= t.ntags; k++)
    {
        h = ref::parse(p, n);
        vf_check(h.ok, "a malformed packet is refused");
        if (k < t.ntags)
        {
            vf_check(h.cls == t.tags[k].cls && h.tag == t.tags[k].num, "a packet with another outer identifier is refused");
            p += h.hlen; n = h.clen;
        }
    }
    vf_check(a.index() < size_t(t.ncomps), "an alternative is selected");
    for (int i = 0; i < t.ncomps; i++)
        if (a.index() == size_t(i)) vf_check(named(elem_of(t, i), h.cls, h.tag), "class and tag number name the selected alternative");
}
#define RUN(name, T, t) extern "C" void vf_alt_##name() { alternatives<fast_ber::T>(t); } extern "C" void vf_foreign_##name() { foreign<fast_ber::T>(t); }
#ifndef GEN2
RUN(pick, AutoMod::Pick, t_pick)
RUN(alt, ExplMod::Alt, t_alt)
RUN(talt, ExplMod::TAlt, alt9)
RUN(nest, ExplMod::Nest, t_nest)
#else
RUN(mixed, Expl::Mixed, t_mixed)
RUN(either, Impl::Either, t_either)
RUN(colof, Expl::ColOf, t_colof)
RUN(colseq, Expl::ColSeq, t_colseq)
RUN(ch0, Expl::Ch0, t_ch0)
RUN(ch1, Expl::Ch1, t_ch1)
RUN(ch2, Expl::Ch2, t_ch2)
RUN(ch3, Expl::Ch3, t_ch3)
#endif
// a CHOICE component in the middle of other components, several tagged choices of the same kind next to each other
template <typename S, typename C> static void component_choice(const Ty& seq, int comp, C S::*member)
{
    const Ty& t = elem_of(seq, comp);
    int i = int(vf_pick(0, t.ncomps - 1, "alternative"));
    Plan small;
    small.minimal = true;
    W all;
    for (int c = 0; c < seq.ncomps; c++)
    {
        if (c != comp) { if (seq.comps[c].pres == MAND) element(all, elem_of(seq, c), 1, small); continue; }
        W w;
        element(w, elem_of(t, i), 2);
        for (int k = t.ntags; k-- > 0;) w.wrap(t.tags[k].cls, true, t.tags[k].num);
        all.put(w.b, w.n);
    }
    for (int k = seq.ntags; k-- > 0;) all.wrap(seq.tags[k].cls, true, seq.tags[k].num);
    S a{};
    vf_check(dec(all, a), "a sequence with this alternative decodes");
    vf_check((a.*member).index() == size_t(i), "the alternative named by the identifier is selected");
    W e;
    vf_check(enc(a, e) && same(all, e), "and encodes to the same octets");
    S b{};
    vf_check(dec(e, b) && b == a && (b.*member).index() == size_t(i), "and decodes again");
    vf_cover("component");
}
#ifdef GEN2
extern "C" void vf_components() { component_choice(t_holder, 0, &Impl::Holder::a); }
#else
extern "C" void vf_components()
{
    switch (vf_pick(0, 4, "component"))
    {
    case 0: component_choice(t_eseq, 4, &ExplMod::Seq::e); break;
    case 1: component_choice(t_iseq, 2, &ImplMod::Seq::c); break;
    case 2: component_choice(t_iseq, 5, &ImplMod::Seq::f); break;
    case 3: component_choice(t_bagext, 2, &ExplMod::BagExt::ch); break;
    case 4: component_choice(t_col, 3, &AutoMod::Col::pick); break;
    }
}
// the library's own Choice template and ANY
template <typename Base> struct Lib : Base
{
    using Base::Base;
    size_t       encoded_length() const noexcept { return this->encoded_length_old(); }
    EncodeResult encode(absl::Span<uint8_t> b) const noexcept { return this->encode_old(b); }
    DecodeResult decode(BerView v) noexcept { return this->decode_old(v); }
};
using LA = Lib<Choice<Choices<Boolean<>, Integer<>, OctetString<>>>>;
using LB = Lib<Choice<Choices<Integer<Id<Class::context_specific, 0>>, Integer<Id<Class::application, 0>>, Integer<DoubleId<Id<Class::private_, 40>, ExplicitId<UniversalTag::integer>>>, Boolean<>>,
                      Id<Class::context_specific, 9>, StorageMode::dynamic>>;
using LC = Lib<Choice<Choices<Null<>, OctetString<Id<Class::context_specific, 2>>>, Id<Class::private_, 200>>>;
static const Comp c_la[] = {{&t_bool, MAND}, {&t_int, MAND}, {&t_oct, MAND}};
LEAF(ia0, INT, ONE(A, 0));
static const Comp c_lb[] = {{&i0, MAND}, {&ia0, MAND}, {&ip40, MAND}, {&t_bool, MAND}};
static const Comp c_lc[] = {{&t_null, MAND}, {&o2, MAND}};
COLL(t_la, CHO, c_la, false, NONE); COLL(t_lb, CHO, c_lb, false, ONE(X, 9)); COLL(t_lc, CHO, c_lc, false, ONE(P, 200));
#define RUNL(name, T, t) extern "C" void vf_alt_##name() { alternatives<T>(t); } extern "C" void vf_foreign_##name() { foreign<T>(t); }
RUNL(la, LA, t_la)
RUNL(lb, LB, t_lb)
RUNL(lc, LC, t_lc)
#define LEAFU(n, tag) static const Ty n = {OCT, ONE(U, tag), nullptr, 0, false}; 
LEAFU(u3, 3) LEAFU(u6, 6) LEAFU(u9, 9) LEAFU(u14, 14) LEAFU(u23, 23) LEAFU(u24, 24) LEAFU(u26, 26) LEAFU(u29, 29) LEAFU(u31, 31) LEAFU(u32, 32) LEAFU(u33, 33) LEAFU(u34, 34)
static const Comp c_any[] = {{&u3, MAND}, {&t_bool, MAND}, {&u29, MAND}, {&u31, MAND}, {&u33, MAND}, {&u34, MAND}, {&u24, MAND}, {&t_int, MAND}, {&t_null, MAND}, {&u6, MAND}, {&t_oct, MAND}, {&u9, MAND}, {&u14, MAND}, {&u32, MAND}, {&u23, MAND}, {&u26, MAND}};
COLL(t_any, CHO, c_any, false, NONE);
extern "C" void vf_foreign_any() { foreign<Any<>>(t_any); }
#endif
