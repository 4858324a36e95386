// C24: incomplete, mis-tagged and cut encodings are refused; extension additions are skipped
#include "gen.h"
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef CUTS
#define CUTS 1
#endif
using namespace g;
template <typename T> static bool accepted(const uint8_t* b, size_t n)
{
    uint8_t* p = new uint8_t[n];
    for (size_t i = 0; i < n; i++) p[i] = b[i];
    T    a{};
    bool r = fast_ber::decode(absl::Span<const uint8_t>(p, n), a).success;
    delete[] p;
    return r;
}
template <typename T> static void faulty(const Ty& t, Fault f, int most)
{
    dmg      = Damage{};
    dmg.kind = f;
    dmg.at   = int(vf_pick(0, most, "place"));
    W w;
    element(w, t, DEPTH);
    if (!dmg.done) { vf_cover("no such place"); return; }
    vf_check(!accepted<T>(w.b, w.n), f == DROP ? "a missing mandatory component is refused" : "a wrong identifier is refused");
    vf_cover(f == DROP ? "component missing" : "wrong identifier");
}
// every prefix
template <typename T> static void prefix(const Ty& t)
{
    W w;
    element(w, t, DEPTH);
    size_t k = vf_pick(0, w.n - 1, "cut");
    vf_check(!accepted<T>(w.b, k), "a packet cut short is refused");
    vf_cover("cut packet");
}
// the last component present is cut, the enclosing lengths are right
template <typename T> static void inner_cut(const Ty& t)
{
    W   w, x;
    int k = int(vf_pick(0, t.ncomps - 1, "component"));
    Plan p, small;
    p.minimal = small.minimal = true;
    for (int i = 0; i < k; i++)
        if (t.comps[i].pres == MAND || (CUTS && vf_pick(0, 1, "present"))) component(w, t.comps[i], DEPTH, small);
    component(x, t.comps[k], DEPTH, Plan{});
    if (x.n < 2) return;
    size_t cut = vf_pick(1, x.n - 1, "octets kept");
    w.put(x.b, cut);
    put_headers(w, t);
    vf_check(!accepted<T>(w.b, w.n), "a component cut short is refused");
    vf_cover("cut component");
}
#define RUN(n, T, t) \
    extern "C" void vf_missing_##n() { faulty<fast_ber::T>(t, DROP, 9); } \
    extern "C" void vf_mistag_##n() { faulty<fast_ber::T>(t, MISTAG, 17); } \
    extern "C" void vf_prefix_##n() { prefix<fast_ber::T>(t); } \
    extern "C" void vf_inner_cut_##n() { inner_cut<fast_ber::T>(t); }
#define RUNC(n, T, t) \
    extern "C" void vf_mistag_##n() { faulty<fast_ber::T>(t, MISTAG, 9); } \
    extern "C" void vf_prefix_##n() { prefix<fast_ber::T>(t); }
#ifndef GEN2
RUN(auto_leaf, AutoMod::Leaf, t_leaf)
RUN(auto_rec, AutoMod::Rec, t_rec)
RUN(auto_col, AutoMod::Col, t_col)
RUN(auto_top, AutoMod::Top, t_top)
RUN(auto_manual, AutoMod::Manual, t_manual)
RUN(expl_seq, ExplMod::Seq, t_eseq)
RUN(expl_seq2, ExplMod::Seq2, t_eseq2)
RUN(expl_bag, ExplMod::Bag, t_bag)
RUN(expl_bagext, ExplMod::BagExt, t_bagext)
RUN(expl_ext, ExplMod::Ext, t_ext)
RUN(expl_derived, ExplMod::Derived, t_derived)
RUN(impl_seq, ImplMod::Seq, t_iseq)
RUN(impl_seq2, ImplMod::Seq2, t_iseq2)
RUNC(auto_pick, AutoMod::Pick, t_pick)
RUNC(expl_nest, ExplMod::Nest, t_nest)
#else
RUN(mixedopt, Expl::MixedOpt, t_mixedopt)
RUN(mixedopt2, Expl::MixedOpt2, t_mixedopt2)
RUN(high, Expl::High, t_high)
RUN(highext, Expl::HighExt, t_highext)
RUN(extdef, Expl::ExtDef, t_extdef)
RUN(lists, Expl::Lists, t_lists)
RUN(holder, Impl::Holder, t_holder)
RUN(cols, Expl::Cols, t_cols)
RUN(colset, Expl::ColSet, t_colset)
RUNC(mixed, Expl::Mixed, t_mixed)
RUNC(either, Impl::Either, t_either)
RUNC(colof, Expl::ColOf, t_colof)
RUNC(colseq, Expl::ColSeq, t_colseq)
#endif
// unknown trailing additions
template <typename T> static void additions(const Ty& t)
{
    Plan small;
    small.minimal = true;
    W w;
    int tail = 0; // the components which may still follow
    for (int i = 0; i < t.ncomps; i++)
        if (t.comps[i].pres == MAND || vf_pick(0, 1, "present")) { component(w, t.comps[i], DEPTH, small); tail = i + 1; }
    W with = w;
    put_headers(w, t);
    int n = int(vf_pick(1, 2, "additions"));
    for (int i = 0; i < n; i++)
    {
        int      cls;
        uint64_t tag;
        any_id(with, cls, tag);
        bool known = false;
        if (t.kind == SET) for (int k = 0; k < t.ncomps; k++) known = known | named(*t.comps[k].ty, cls, tag);
        if (t.kind == SEQ) for (int k = tail; k < t.ncomps; k++) known = known | named(*t.comps[k].ty, cls, tag);
        vf_assume(!known);
        size_t l = vf_pick(0, 2, "length");
        with.b[with.n++] = uint8_t(l);
        while (l--) with.b[with.n++] = vf_u8("content");
    }
    put_headers(with, t);
    T a{}, b{};
    vf_check(dec(w, a), "without additions");
    vf_check(dec(with, b), "additions of an extensible type are skipped");
    vf_check(a == b, "known components are undisturbed");
    vf_cover("additions");
}
#ifndef GEN2
extern "C" void vf_additions_ext() { additions<ExplMod::Ext>(t_ext); }
extern "C" void vf_additions_bagext() { additions<ExplMod::BagExt>(t_bagext); }
extern "C" void vf_additions_top() { additions<AutoMod::Top>(t_top); }
#else
extern "C" void vf_additions_highext() { additions<Expl::HighExt>(t_highext); }
extern "C" void vf_additions_extdef() { additions<Expl::ExtDef>(t_extdef); }
extern "C" void vf_additions_extmid() { additions<Expl::ExtMid>(t_extmid); }
extern "C" void vf_additions_emptyext() { additions<Expl::EmptyExt>(t_emptyext); }
#endif
