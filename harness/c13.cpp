// C13 BerContainer histories, C14 fixed-identifier storage histories, C11 strings
#include "common.h"
#include <utility>
#define NOINLINE __attribute__((noinline))
// data with symbolic ends and a position-dependent middle
struct Data
{
    uint8_t p[160];
    size_t  n;
    NOINLINE explicit Data(size_t k) : n(k)
    {
        uint8_t salt = vf_u8("salt");
        for (size_t i = 0; i < n; i++) p[i] = uint8_t(salt + i * 37);
        if (n) p[0] = vf_u8("first");
        if (n) p[n - 1] = vf_u8("last");
    }
    absl::Span<const uint8_t> span() const { return absl::Span<const uint8_t>(p, n); }
};
static const size_t sizes[] = {3, 128, 98, 0, 127, 99, 101, 1, 2};
#ifndef NSIZE
#define NSIZE 5
#endif
static size_t pick_size() { return sizes[vf_pick(0, NSIZE - 1, "size")]; }
NOINLINE static void same(absl::Span<const uint8_t> a, const uint8_t* b, size_t n, const char* what)
{
    vf_check(a.size() == n, what);
    bool eq = true;
    for (size_t i = 0; i < n; i++) eq = eq & (a[i] == b[i]);
    vf_check(eq, what);
}
// ------------------------------------------------------------------ C13
struct Model
{
    bool    valid = false, moved = false;
    uint8_t b[200]; // whole element
    size_t  idlen = 0, hlen = 0, n = 0;
};
NOINLINE static void put(Model& m, int cls, bool cons, uint64_t tag, const Data& d)
{
    m.valid = true; m.moved = false;
    m.idlen = ref::put_tag(m.b, cls, cons, tag);
    m.hlen  = m.idlen + ref::put_len(m.b + m.idlen, d.n);
    m.n     = d.n;
    for (size_t i = 0; i < d.n; i++) m.b[m.hlen + i] = d.p[i];
}
NOINLINE static void agree(BerContainer& c, const Model& m)
{
    if (m.moved) return;
    CHECK(c.is_valid() == m.valid);
    if (!m.valid) return;
    ref::Tlv r = ref::parse(m.b, m.hlen + m.n);
    vf_assume(r.ok);
    CHECK(c.class_() == Class(r.cls));
    CHECK(c.tag() == Tag(r.tag));
    CHECK((c.construction() == Construction::constructed) == r.cons);
    CHECK(c.header_length() == m.hlen);
    CHECK(c.identifier_length() == m.idlen);
    CHECK(c.content_length() == m.n && c.ber_length() == m.hlen + m.n);
    same(c.content(), m.b + m.hlen, m.n, "content bytes");
    same(c.ber(), m.b, m.hlen + m.n, "full bytes");
    CHECK(c.content_data() == c.ber_data() + m.hlen);
    BerView v(c.ber());
    CHECK(v.is_valid() && v.ber_length() == m.hlen + m.n && v.header_length() == m.hlen);
    Buf o(m.hlen + m.n);
    EncodeResult e = c.encode(o.span());
    CHECK(e.success && e.length == o.n);
    same(o.cspan(), m.b, o.n, "encoded bytes");
}
NOINLINE static void take(Model& m, BerContainer& c, const Model& w)
{
    (void)c;
    bool keep = m.moved;
    m = w;
    m.moved = false;
    (void)keep;
}
static const uint64_t tags[] = {5, 30, 31, 1000, (uint64_t(1) << 49) + 7, uint64_t(1) << 62};
// wire forms: minimal, long-form tag for a small number, padded length, invalid
NOINLINE static Model wire()
{
    Model m;
    switch (vf_pick(0, 4, "wire"))
    {
    case 0: { Data d(pick_size()); put(m, 2, vf_u8("cons") & 1, tags[2], d); break; }
    case 1: {
        Data d(pick_size());
        m.valid = true; m.b[0] = uint8_t(0x9F); m.b[2] = vf_u8("small tag") & 0x7F; m.idlen = 3;
        m.b[1] = 0x81;
        m.hlen = 3 + ref::put_len(m.b + 3, d.n); m.n = d.n;
        for (size_t i = 0; i < d.n; i++) m.b[m.hlen + i] = d.p[i];
        break;
    }
    case 2: {
        Data d(3);
        m.valid = true; m.b[0] = 0x04; m.b[1] = 0x84; m.b[2] = m.b[3] = m.b[4] = 0; m.b[5] = 3; m.idlen = 1; m.hlen = 6; m.n = 3;
        for (size_t i = 0; i < d.n; i++) m.b[m.hlen + i] = d.p[i];
        break;
    }
    case 3: {
        Data d(2);
        m.valid = true; m.b[0] = 0x5F; m.b[1] = 0x07; m.b[2] = 0x02; m.idlen = 2; m.hlen = 3; m.n = 2; // tag 7 in long form
        for (size_t i = 0; i < d.n; i++) m.b[m.hlen + i] = d.p[i];
        break;
    }
    default: m.valid = false; m.b[0] = 0x04; m.b[1] = 0x05; m.hlen = 2; m.n = 0; break; // truncated
    }
    return m;
}
NOINLINE static void step(BerContainer& a, Model& ma, BerContainer& b, Model& mb)
{
    switch (vf_pick(0, 10, "op"))
    {
    case 0: { Data d(pick_size()); a.assign_content(d.span()); put(ma, 0, false, 0, d); vf_cover("assign content"); break; }
    case 1: {
        Data d(pick_size());
        int  cls = vf_u8("class") & 3; bool cons = vf_u8("cons") & 1; uint64_t tag = tags[vf_pick(0, 5, "tag")];
        a.assign_content(cons ? Construction::constructed : Construction::primitive, Class(cls), Tag(tag), d.span());
        put(ma, cls, cons, tag, d);
        vf_cover("assign with identifier");
        break;
    }
    case 2: {
        if (!ma.valid || ma.moved) vf_assume(false);
        size_t n = pick_size();
        a.resize_content(n);
        Model m = ma;
        m.hlen = m.idlen + ref::put_len(m.b + m.idlen, n);
        size_t keep = n < ma.n ? n : ma.n;
        for (size_t i = 0; i < keep; i++) m.b[m.hlen + i] = ma.b[ma.hlen + i];
        CHECK(a.content_length() == n);
        for (size_t i = keep; i < n; i++) m.b[m.hlen + i] = a.content()[i]; // unspecified
        m.n = n;
        ma = m;
        vf_cover("resize");
        break;
    }
    case 3: if (mb.moved) vf_assume(false); a = b; take(ma, a, mb); vf_cover("copy"); break;
    case 4: if (mb.moved) vf_assume(false); a = std::move(b); take(ma, a, mb); mb.moved = true; vf_cover("move"); break;
    case 5: {
        Model w = wire();
        Buf   buf(w.b, w.hlen + w.n);
        a = BerContainer(BerView(buf.cspan()));
        take(ma, a, w);
        break;
    }
    case 6: {
        Model w = wire();
        Buf   buf(w.b, w.hlen + w.n);
        CHECK(a.decode(BerView(buf.cspan())).success == w.valid);
        take(ma, a, w);
        if (!w.valid) vf_cover("failed decode");
        break;
    }
    case 7: {
        if (ma.moved) vf_assume(false);
        BerContainer& alias = a;
        a = alias;
        vf_cover("self copy");
        break;
    }
    case 8: { if (mb.moved) vf_assume(false); BerContainer t(b); a = std::move(t); take(ma, a, mb); break; }
    case 9: { if (mb.moved) vf_assume(false); BerContainer t(std::move(b)); a = t; take(ma, a, mb); mb.moved = true; break; }
    case 10: { Data d(pick_size()); a = BerContainer(d.span(), ConstructionMethod::construct_with_provided_content); put(ma, 0, false, 0, d); break; }
    }
}
static void history(size_t steps)
{
    BerContainer* a = new BerContainer();
    BerContainer* b = new BerContainer(Construction::primitive, Class::context_specific, 7, absl::Span<const uint8_t>());
    Model ma, mb;
    Data  none(0);
    put(ma, 0, false, 0, none);
    put(mb, 2, false, 7, none);
    agree(*a, ma);
    for (size_t i = 0; i < steps; i++)
    {
        bool second = i && vf_pick(0, 1, "which");
        if (second) step(*b, mb, *a, ma);
        else step(*a, ma, *b, mb);
        agree(*a, ma);
        agree(*b, mb);
    }
    // copies are independent: destroy one, the other still agrees
    delete b;
    agree(*a, ma);
    delete a;
    CHECK(vf_live_allocs() == 0);
}
#ifndef NSTEP
#define NSTEP 2
#endif
extern "C" void vf_container_history() { history(NSTEP); }

// ------------------------------------------------------------------ C14
template <typename I, typename X> NOINLINE static void fixed_agree(const X& x, const uint8_t* content, size_t n, bool exact)
{
    CHECK(x.content_length() == n);
    same(x.content(), content, n, "content bytes");
    uint8_t tlv[256];
    size_t  k = put_wrapped(tlv, I{}, false, content, n);
    CHECK(x.ber_length() == x.ber().size());
    Buf o(x.ber_length());
    EncodeResult e = x.encode(o.span());
    CHECK(e.success && e.length == o.n);
    if (o.n) { Buf s(o.n - 1); CHECK(!x.encode(s.span()).success); }
    if (exact) same(o.cspan(), tlv, k, "encoding is the header and the content");
    else
    {
        // decoded from a packet with other header octets: same identifier and content
        X y;
        CHECK(y.decode(BerView(o.cspan())).success);
        same(y.content(), content, n, "content decoded from the encoding");
    }
}
struct FM { uint8_t p[160]; size_t n = 0; bool exact = true, moved = false; };
NOINLINE static void set(FM& m, const Data& d)
{
    m.n = d.n; m.exact = true; m.moved = false;
    for (size_t i = 0; i < d.n; i++) m.p[i] = d.p[i];
}
template <Class c, Tag t> size_t put_padded(uint8_t* o, Id<c, t>, const uint8_t* content, size_t n)
{
    size_t p = ref::put_tag(o, int(c), false, uint64_t(t));
    o[p] = 0x83; o[p + 1] = 0; o[p + 2] = 0; o[p + 3] = uint8_t(n);
    for (size_t i = 0; i < n; i++) o[p + 4 + i] = content[i];
    return p + 4 + n;
}
template <typename A, typename B> size_t put_padded(uint8_t* o, DoubleId<A, B>, const uint8_t* content, size_t n)
{
    uint8_t inner[256];
    size_t  k = put_padded(inner, B{}, content, n);
    return put_wrapped(o, A{}, true, inner, k);
}
template <Class c, Tag t> size_t put_trailing(uint8_t* o, Id<c, t> i, const uint8_t* content, size_t n)
{
    size_t k = put_wrapped(o, i, false, content, n);
    o[k] = 0x05; o[k + 1] = 0; o[k + 2] = 0xFF;
    return k + 3;
}
template <typename A, typename B> size_t put_trailing(uint8_t* o, DoubleId<A, B>, const uint8_t* content, size_t n)
{
    uint8_t inner[256];
    size_t  k = put_wrapped(inner, B{}, false, content, n);
    inner[k] = 0x05; inner[k + 1] = 0; // another element inside the explicit tag
    return put_wrapped(o, A{}, true, inner, k + 2);
}
template <typename X, typename I, typename Y = FixedIdBerContainer<IdLong>, size_t MAX = 1000> struct Fixed
{
    static size_t pick_size() { size_t n = ::pick_size(); vf_assume(n <= MAX); return n; }
    NOINLINE static void step(X& a, FM& ma, X& b, FM& mb, Y& other, FM& mo)
    {
        switch (vf_pick(0, 9, "op"))
        {
        case 0: { Data d(pick_size()); a.assign_content(d.span()); set(ma, d); break; }
        case 1: {
            size_t n = pick_size();
            FM m;
            a.resize_content(n);
            CHECK(a.content_length() == n);
            size_t keep = ma.moved ? 0 : n < ma.n ? n : ma.n;
            for (size_t i = 0; i < keep; i++) m.p[i] = ma.p[i];
            for (size_t i = keep; i < n; i++) m.p[i] = a.content()[i];
            m.n = n;
            ma = m;
            vf_cover("resize");
            break;
        }
        case 2: if (mb.moved) vf_assume(false); a = b; ma = mb; vf_cover("copy"); break;
        case 3: if (mb.moved) vf_assume(false); a = std::move(b); ma = mb; mb.moved = true; vf_cover("move"); break;
        case 4: {
            Data    d(pick_size());
            uint8_t w[256];
            size_t  k = 0;
            bool    ok = true, exact = false;
            switch (vf_pick(0, 4, "wire"))
            {
            case 0: k = put_wrapped(w, I{}, false, d.p, d.n); exact = true; break;
            case 1: k = put_padded(w, I{}, d.p, d.n); break;
            case 2: k = put_trailing(w, I{}, d.p, d.n); break;
            case 3: k = put_wrapped(w, IdLong{}, false, reinterpret_cast<const uint8_t*>("foreign packet"), 14); ok = false; break; // its content is parsed for the message
            default: k = put_wrapped(w, I{}, false, d.p, d.n) - 1; ok = false; break;
            }
            Buf buf(w, k);
            CHECK(a.decode(BerView(buf.cspan())).success == ok);
            if (ok) { set(ma, d); ma.exact = exact || MAX <= 100; vf_cover("decode"); }
            else if (ma.moved) a.assign_content(d.span()), set(ma, d);
            else vf_cover("failed decode");
            break;
        }
        case 5: a = other; ma = mo; vf_cover("other identifier"); break;
        case 6: { if (ma.moved) vf_assume(false); X& alias = a; a = alias; break; }
        case 7: { if (mb.moved) vf_assume(false); X t(b); a = std::move(t); ma = mb; break; }
        case 8: { if (mb.moved) vf_assume(false); X t(std::move(b)); a = t; ma = mb; mb.moved = true; break; }
        case 9: { if (mb.moved) vf_assume(false); X t(other); b = a; if (!ma.moved) mb = ma; else mb.moved = true; a = t; ma = mo; break; }
        }
    }
    NOINLINE static void check(const X& x, const FM& m)
    {
        if (m.moved) { x.content(); Buf o(x.ber_length()); x.encode(o.span()); return; }
        fixed_agree<I>(x, m.p, m.n, m.exact);
    }
    static void run(size_t steps)
    {
        X*   a = new X();
        X*   b = new X();
        Data d(2);
        Y*   o = new Y(d.span(), ConstructionMethod::construct_with_provided_content);
        FM   ma, mb, mo;
        set(mo, d);
        check(*a, ma);
        Data e(3);
        b->assign_content(e.span());
        set(mb, e);
        check(*b, mb);
        for (size_t i = 0; i < steps; i++)
        {
            bool second = i && vf_pick(0, 1, "which");
            if (second) step(*b, mb, *a, ma, *o, mo);
            else step(*a, ma, *b, mb, *o, mo);
            check(*a, ma);
            check(*b, mb);
            if (!ma.moved && !mb.moved) CHECK((*a == *b) == (ma.n == mb.n && [&] { bool q = true; for (size_t j = 0; j < ma.n; j++) q = q & (ma.p[j] == mb.p[j]); return q; }()));
        }
        delete b;
        check(*a, ma);
        delete a;
        delete o;
        CHECK(vf_live_allocs() == 0);
    }
};
extern "C" void vf_fixed_u() { Fixed<FixedIdBerContainer<IdUniv<UniversalTag::octet_string>>, IdUniv<UniversalTag::octet_string>>::run(NSTEP); }
extern "C" void vf_fixed_d() { Fixed<FixedIdBerContainer<IdDouble<UniversalTag::octet_string>>, IdDouble<UniversalTag::octet_string>>::run(NSTEP); }
extern "C" void vf_fixed_dl() { Fixed<FixedIdBerContainer<IdDoubleLong>, IdDoubleLong>::run(NSTEP); }
using Small100 = SmallFixedIdBerContainer<IdUniv<UniversalTag::real>, 100>;
using Small100D = SmallFixedIdBerContainer<IdDoubleLong, 100>;
extern "C" void vf_small_u() { Fixed<Small100, IdUniv<UniversalTag::real>, SmallFixedIdBerContainer<IdLong, 100>, 100>::run(NSTEP); }
extern "C" void vf_small_dl() { Fixed<Small100D, IdDoubleLong, SmallFixedIdBerContainer<IdLong, 100>, 100>::run(NSTEP); }
