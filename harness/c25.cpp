// C25: wire octets follow the declared tagging
#include "gen.h"
#ifdef GEN2
#include "timeenv.h"
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
using namespace g;
template <typename T> static void follows(const Ty& t)
{
    W w, e;
    element(w, t, DEPTH);
    T a{};
    vf_check(dec(w, a), "the X.690 encoding decodes");
    vf_check(enc(a, e), "encodes into the announced length");
    vf_check(same(w, e), "encoded octets are the prescribed ones");
    vf_cover("followed");
}
#ifdef GEN2
// every component in turn with arbitrary contents, the others fixed
template <typename T> static void each(const Ty& t)
{
    int  k = int(vf_pick(0, t.ncomps - 1, "component"));
    W    w, e;
    Plan fixed;
    fixed.fixed = true;
    for (int i = 0; i < t.ncomps; i++) component(w, t.comps[i], DEPTH, i == k ? Plan{} : fixed);
    put_headers(w, t);
    T a{};
    vf_check(dec(w, a), "the X.690 encoding decodes");
    vf_check(enc(a, e), "encodes into the announced length");
    vf_check(same(w, e), "encoded octets are the prescribed ones");
    vf_cover("followed");
}
// any two of the optional components
template <typename T> static void two(const Ty& t)
{
    int  i = int(vf_pick(0, t.ncomps, "first")), j = int(vf_pick(0, t.ncomps, "second"));
    vf_assume(i <= j);
    W    w, e;
    Plan fixed;
    fixed.fixed = true;
    if (i < t.ncomps) component(w, t.comps[i], DEPTH, fixed);
    if (j < t.ncomps && j != i) component(w, t.comps[j], DEPTH, fixed);
    put_headers(w, t);
    T a{};
    vf_check(dec(w, a), "the X.690 encoding decodes");
    vf_check(enc(a, e), "encodes into the announced length");
    vf_check(same(w, e), "encoded octets are the prescribed ones");
    vf_cover("followed");
}
#endif
#define RUN(name, T, t) extern "C" void vf_##name() { follows<fast_ber::T>(t); }
#ifdef GEN2
extern "C" void vf_leaves_u() { each<fast_ber::Expl::AllU>(t_allu); }
extern "C" void vf_leaves_x() { each<fast_ber::Expl::AllX>(t_allx); }
extern "C" void vf_leaves_i() { each<fast_ber::Expl::AllI>(t_alli); }
extern "C" void vf_leaves_auto() { each<fast_ber::Auto::All>(t_autoall); }
extern "C" void vf_leaves_impl() { each<fast_ber::Impl::All>(t_implall); }
extern "C" void vf_leaves_opt() { two<fast_ber::Expl::OptU>(t_optu); }
RUN(ch0, Expl::Ch0, t_ch0)
RUN(ch1, Expl::Ch1, t_ch1)
RUN(ch2, Expl::Ch2, t_ch2)
RUN(ch3, Expl::Ch3, t_ch3)
RUN(pick, Auto::Pick, t_pick)
RUN(mixed, Expl::Mixed, t_mixed)
RUN(mixedopt, Expl::MixedOpt, t_mixedopt)
RUN(mixedopt2, Expl::MixedOpt2, t_mixedopt2)
RUN(high, Expl::High, t_high)
RUN(highext, Expl::HighExt, t_highext)
RUN(extdef, Expl::ExtDef, t_extdef)
RUN(extmid, Expl::ExtMid, t_extmid)
RUN(empty, Expl::Empty, t_empty)
RUN(emptyext, Expl::EmptyExt, t_emptyext)
RUN(lists, Expl::Lists, t_lists)
RUN(holder, Impl::Holder, t_holder)
RUN(either, Impl::Either, t_either)
RUN(cols, Expl::Cols, t_cols)
RUN(colset, Expl::ColSet, t_colset)
RUN(colof, Expl::ColOf, t_colof)
RUN(colseq, Expl::ColSeq, t_colseq)
#else
RUN(auto_leaf, AutoMod::Leaf, t_leaf)
RUN(auto_pick, AutoMod::Pick, t_pick)
RUN(auto_rec, AutoMod::Rec, t_rec)
RUN(auto_col, AutoMod::Col, t_col)
RUN(auto_top, AutoMod::Top, t_top)
RUN(auto_manual, AutoMod::Manual, t_manual)
RUN(expl_seq, ExplMod::Seq, t_eseq)
RUN(expl_seq2, ExplMod::Seq2, t_eseq2)
RUN(expl_bag, ExplMod::Bag, t_bag)
RUN(expl_bagext, ExplMod::BagExt, t_bagext)
RUN(expl_nest, ExplMod::Nest, t_nest)
RUN(expl_ext, ExplMod::Ext, t_ext)
RUN(expl_derived, ExplMod::Derived, t_derived)
RUN(impl_seq, ImplMod::Seq, t_iseq)
RUN(impl_seq2, ImplMod::Seq2, t_iseq2)
extern "C" void vf_single()
{
    switch (vf_pick(0, 10, "type"))
    {
    case 0: follows<ExplMod::Num>(t_int); break;
    case 1: follows<ExplMod::Tagged1>(ix1); break;
    case 2: follows<ExplMod::Tagged2>(ia2); break;
    case 3: follows<ExplMod::Tagged3>(ip40); break;
    case 4: follows<ExplMod::Tagged4>(ix4a2); break;
    case 5: follows<ImplMod::T2>(t2x); break;
    case 6: follows<ImplMod::T3>(t3x); break;
    case 7: follows<ImplMod::T4>(t4x); break;
    case 8: follows<ExplMod::TInner>(inner_7x); break;
    case 9: follows<ExplMod::IInner>(inner_a8); break;
    case 10: follows<ExplMod::TAlt>(alt9); break;
    }
}
// three explicit tags around one type: only the outermost and the innermost are emitted (known finding)
extern "C" void vf_triple()
{
    ExplMod::Tagged5 a = int64_t(int8_t(vf_u8("value")));
    W                e, w;
    w.b[w.n++] = uint8_t(a.value());
    put_headers(w, i123);
    bool done = enc(a, e);
    vf_check(done, "encodes into the announced length");
    vf_cover("encoded");
    bool outer_inner_only = e.n == 5 && e.b[0] == 0xa1 && e.b[1] == 3 && e.b[2] == 2 && e.b[3] == 1 && e.b[4] == w.b[8];
    if (vf_known("three-explicit-tags", outer_inner_only)) return;
    vf_check(same(w, e), "encoded octets are the prescribed ones");
    ExplMod::Tagged5 b;
    vf_check(dec(w, b) && b == a, "the X.690 encoding decodes");
}
#endif
