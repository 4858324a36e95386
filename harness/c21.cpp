// C21: SET components in any order, by class and tag; duplicates and missing mandatory components refused
#include "gen.h"
#ifndef DEPTH
#define DEPTH 2
#endif
using namespace g;
static Plan base()
{
    Plan p;
    p.minimal = false;
    return p;
}
// any order decodes, and to the same value as the declared order
template <typename T> static void order(const Ty& t)
{
    Plan p = base();
    W    w;
    // one set of component encodings, written in declaration order and in any other order
    W    parts[8];
    int  idx[8], n = 0;
    for (int i = 0; i < t.ncomps; i++)
    {
        if (t.comps[i].pres != MAND && !vf_pick(0, 1, "present")) continue;
        component(parts[i], t.comps[i], DEPTH, p);
        idx[n++] = i;
    }
    W declared, other;
    for (int i = 0; i < n; i++) declared.put(parts[idx[i]].b, parts[idx[i]].n);
    for (int i = 0; i + 1 < n; i++)
    {
        int j = i + int(vf_pick(0, n - 1 - i, "order"));
        int o = idx[i]; idx[i] = idx[j]; idx[j] = o;
    }
    for (int i = 0; i < n; i++) other.put(parts[idx[i]].b, parts[idx[i]].n);
    put_headers(declared, t);
    put_headers(other, t);
    T a{}, b{};
    vf_check(dec(declared, a), "the declared order decodes");
    vf_check(dec(other, b), "every order decodes");
    vf_check(a == b, "every order decodes to the same value");
    W e;
    vf_check(enc(b, e) && same(declared, e), "and encodes in the declared order");
    vf_cover("order");
}
template <typename T> static void missing(const Ty& t)
{
    Plan p = base();
    p.minimal = true; p.shuffle = true;
    p.full = false;
    int k = int(vf_pick(0, t.ncomps - 1, "missing"));
    if (t.comps[k].pres != MAND) return;
    p.drop = k;
    W w;
    element(w, t, DEPTH, p);
    T a{};
    vf_check(!dec(w, a), "a SET without a mandatory component is refused");
    vf_cover("missing");
}
template <typename T> static void duplicate(const Ty& t)
{
    Plan p = base();
    p.minimal = true; p.shuffle = true;
    p.dup = int(vf_pick(0, t.ncomps - 1, "duplicate"));
    W w;
    element(w, t, DEPTH, p);
    T a{};
    vf_check(!dec(w, a), "a SET with a component twice is refused");
    vf_cover("duplicate");
}
// two different encodings of one component
template <typename T> static void duplicate2(const Ty& t)
{
    Plan p = base();
    p.minimal = true;
    int k = int(vf_pick(0, t.ncomps - 1, "duplicate"));
    W   w;
    bool last = vf_pick(0, 1, "last");
    for (int i = 0; i < t.ncomps; i++)
    {
        if (i == k && !last) component(w, t.comps[i], DEPTH, p), component(w, t.comps[i], DEPTH, p);
        else if (t.comps[i].pres == MAND || i == k) component(w, t.comps[i], DEPTH, p);
    }
    if (last) component(w, t.comps[k], DEPTH, p);
    put_headers(w, t);
    T a{};
    vf_check(!dec(w, a), "a SET with a component twice is refused");
    vf_cover("duplicate");
}
// an element that belongs to no component
template <typename T> static void unknown(const Ty& t)
{
    Plan p = base();
    p.minimal = true;
    int at = int(vf_pick(0, t.ncomps, "position"));
    W   w;
    int comp = 0;
    W        id;
    int      cls;
    uint64_t tag;
    any_id(id, cls, tag);
    bool known = false;
    for (int i = 0; i < t.ncomps; i++) known = known | named(*t.comps[i].ty, cls, tag);
    vf_assume(!known);
    for (int i = 0; i <= t.ncomps; i++)
    {
        if (i == at) { w.put(id); w.b[w.n++] = 1; w.b[w.n++] = vf_u8("content"); }
        if (i < t.ncomps && t.comps[i].pres == MAND) component(w, t.comps[i], DEPTH, p), comp++;
    }
    put_headers(w, t);
    T    a{};
    bool ok = dec(w, a);
    if (t.ext) vf_check(ok, "an unknown element in an extensible SET is skipped");
    else vf_check(!ok, "an unknown element in a SET is refused");
    vf_cover("unknown");
}
#ifndef NEL
#define NEL 3
#endif
static uint8_t one_octet_id()
{
    uint8_t i = vf_u8("identifier");
    vf_assume((i & 0x1f) != 0x1f);
    return i;
}
// up to NEL elements with arbitrary identifiers: a success means every element is a component, none twice, all mandatory ones present
template <typename T> static void arbitrary(const Ty& t)
{
    W w;
    int n = int(vf_pick(0, NEL, "elements"));
    for (int i = 0; i < n; i++) // identifier arbitrary; content one octet, or one element with an arbitrary identifier
    {
        bool nested = vf_pick(0, 1, "nested");
        w.b[w.n++] = one_octet_id();
        if (nested) w.b[w.n++] = 3, w.b[w.n++] = one_octet_id();
        w.b[w.n++] = 1;
        w.b[w.n++] = vf_u8("content");
    }
    if (vf_pick(0, 1, "remainder")) w.b[w.n++] = vf_u8("lone octet");
    W body = w;
    put_headers(w, t);
    T a{};
    if (!dec(w, a)) { vf_cover("refused"); return; }
    int  seen[8] = {};
    bool fits = true;
    size_t p = 0;
    while (p < body.n && fits)
    {
        ref::Tlv h = ref::parse(body.b + p, body.n - p);
        vf_check(h.ok, "contents ending in a malformed element are refused");
        bool known = false;
        for (int i = 0; i < t.ncomps; i++)
        {
            bool m = named(*t.comps[i].ty, h.cls, h.tag);
            known = known | m;
            seen[i] += m;
        }
        fits = fits & (known | t.ext);
        p += h.hlen + h.clen;
    }
    for (int i = 0; i < t.ncomps; i++) fits = fits & (seen[i] < 2) & (seen[i] > 0 || t.comps[i].pres != MAND);
    vf_check(fits, "an accepted SET consists of its components, none missing, none twice");
    vf_cover("accepted");
}
#define RUN(n, T, t) \
    extern "C" void vf_order_##n() { order<fast_ber::T>(t); } \
    extern "C" void vf_missing_##n() { missing<fast_ber::T>(t); } \
    extern "C" void vf_duplicate_##n() { if (vf_pick(0, 1, "kind")) duplicate<fast_ber::T>(t); else duplicate2<fast_ber::T>(t); } \
    extern "C" void vf_unknown_##n() { unknown<fast_ber::T>(t); }
#ifndef GEN2
RUN(col, AutoMod::Col, t_col)
RUN(bag, ExplMod::Bag, t_bag)
RUN(bagext, ExplMod::BagExt, t_bagext)
extern "C" void vf_arbitrary_bagext() { arbitrary<ExplMod::BagExt>(t_bagext); }
extern "C" void vf_arbitrary_col() { arbitrary<AutoMod::Col>(t_col); }
#else
RUN(high, Expl::High, t_high)
RUN(highext, Expl::HighExt, t_highext)
RUN(emptyext, Expl::EmptyExt, t_emptyext)
#endif
