// C20: generated SEQUENCE types round-trip every value
#include "gen.h"
#ifdef GEN2
#include "timeenv.h"
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
using namespace g;
template <typename T> static void cycle(const T& a, const W* expect = nullptr)
{
    size_t   n = a.encoded_length();
    size_t   size = n + vf_pick(0, 1, "slack");
    uint8_t* p = new uint8_t[size];
    EncodeResult r = fast_ber::encode(absl::Span<uint8_t>(p, size), a);
    vf_check(r.success, "encodes into a buffer of the announced length");
    vf_check(r.length == n, "the announced length is exact");
    if (n)
    {
        uint8_t* q = new uint8_t[n - 1];
        vf_check(!fast_ber::encode(absl::Span<uint8_t>(q, n - 1), a).success, "refuses a buffer one octet short");
        delete[] q;
    }
    T b{};
    vf_check(fast_ber::decode(absl::Span<const uint8_t>(p, n), b).success, "its own encoding decodes");
    vf_check(a == b, "the decoded value equals the encoded one");
    vf_check(!(a != b), "the decoded value does not differ from the encoded one");
    T c(b);
    vf_check(c == a, "a copy equals the value");
    delete[] p;
    vf_cover("cycle");
}
template <typename T> static void roundtrip(const Ty& t)
{
    W w;
    element(w, t, DEPTH);
    T a{};
    if (!dec(w, a)) { vf_cover("not decodable"); return; }
    cycle(a);
}
#define RUN(name, T, t) extern "C" void vf_##name() { roundtrip<fast_ber::T>(t); }
#ifndef GEN2
RUN(auto_leaf, AutoMod::Leaf, t_leaf)
RUN(auto_rec, AutoMod::Rec, t_rec)
RUN(auto_top, AutoMod::Top, t_top)
RUN(auto_manual, AutoMod::Manual, t_manual)
RUN(expl_seq, ExplMod::Seq, t_eseq)
RUN(expl_seq2, ExplMod::Seq2, t_eseq2)
RUN(expl_ext, ExplMod::Ext, t_ext)
RUN(expl_derived, ExplMod::Derived, t_derived)
RUN(impl_seq, ImplMod::Seq, t_iseq)
RUN(impl_seq2, ImplMod::Seq2, t_iseq2)

// values built through the members, read back through the members
static int64_t num() { return int64_t(vf_u64("number")); }
static int64_t small() { return int8_t(vf_u8("number")); }
struct Str
{
    char   c[4];
    size_t n;
    Str() : n(vf_pick(0, 3, "characters")) { for (size_t i = 0; i < n; i++) c[i] = char(vf_u8("character")); }
    absl::string_view view() const { return absl::string_view(c, n); }
};
template <typename S> static bool is(const S& s, const Str& m)
{
    bool e = s.length() == m.n;
    if (!e) return false;
    for (size_t i = 0; i < m.n; i++) e = e & (char(s.data()[i]) == m.c[i]);
    return e;
}
template <typename T> static T again(const T& a)
{
    size_t   n = a.encoded_length();
    uint8_t* p = new uint8_t[n];
    EncodeResult r = fast_ber::encode(absl::Span<uint8_t>(p, n), a);
    vf_check(r.success && r.length == n, "encodes into exactly the announced length");
    T b{};
    vf_check(fast_ber::decode(absl::Span<const uint8_t>(p, n), b).success, "its own encoding decodes");
    delete[] p;
    vf_check(a == b && !(a != b), "the decoded value equals the encoded one");
    return b;
}
struct MLeaf
{
    int64_t num; int flag; bool def; Str str;
    explicit MLeaf(bool wide) : num(wide ? ::num() : small()), flag(int(vf_pick(0, 2, "flag"))), def(vf_pick(0, 1, "default")), str() {}
    void set(AutoMod::Leaf& l) const
    {
        l.num = num;
        if (flag) l.flag = flag == 2; else l.flag = empty;
        if (def) l.str.set_to_default(); else l.str = str.view();
    }
    void check(const AutoMod::Leaf& l) const
    {
        vf_check(l.num.value() == num, "INTEGER component");
        vf_check(l.flag.has_value() == (flag != 0), "presence of the optional component");
        if (flag) vf_check(l.flag->value() == (flag == 2), "BOOLEAN component");
        static const Str* none = nullptr;
        (void)none;
        if (def) vf_check(l.str.is_default() && l.str == "abc", "default component");
        else vf_check(is(l.str.get(), str), "OCTET STRING component");
    }
};
extern "C" void vf_members_leaf()
{
    MLeaf m(true);
    AutoMod::Leaf a{};
    m.set(a);
    m.check(again(a));
    vf_cover("leaf");
}
extern "C" void vf_members_rec()
{
    size_t       n = vf_pick(1, 5, "depth");
    int64_t      v[5];
    AutoMod::Rec a{};
    AutoMod::Rec* at = &a;
    for (size_t i = 0; i < n; i++)
    {
        v[i] = small();
        at->val = v[i];
        if (i + 1 < n) { at->next = AutoMod::Rec{}; at = &*at->next; }
    }
    AutoMod::Rec b = again(a);
    const AutoMod::Rec* p = &b;
    for (size_t i = 0; i < n; i++)
    {
        vf_check(p->val.value() == v[i], "recursive component");
        vf_check(p->next.has_value() == (i + 1 < n), "end of the recursion");
        if (p->next.has_value()) p = &*p->next;
    }
    AutoMod::Rec c(b), d;
    d = b;
    at = &a;
    while (at->next.has_value()) at = &*at->next;
    at->val = v[n - 1] ^ 1;
    vf_check(a != b && c == b && d == b, "deep changes are seen by comparison and not shared by copies");
    vf_cover("recursive");
}
extern "C" void vf_members_top()
{
    AutoMod::Top a{};
    int64_t ln = small(), x = small(), y = small(), i0 = small(), i1 = small();
    bool    by = vf_u8("bool") & 1;
    int     pick = int(vf_pick(0, 5, "pick")), sub = int(vf_pick(0, 1, "sub")), nl = int(vf_pick(0, 2, "list")), k = int(vf_pick(0, 2, "kind"));
    static const AutoMod::KindValues kv[] = {AutoMod::KindValues::red, AutoMod::KindValues::green, AutoMod::KindValues::blue};
    a.leaf.num = ln;
    if (nl > 0) a.list.push_back(i0);
    if (nl > 1) a.list.push_back(i1);
    if (pick)
    {
        a.pick = AutoMod::Pick{};
        switch (pick)
        {
        case 1: a.pick->emplace<0>() = x; break;
        case 2: a.pick->emplace<1>() = "str"; break;
        case 3: a.pick->emplace<2>().num = x; break;
        case 4: a.pick->emplace<3>(); break;
        case 5: a.pick->emplace<4>().emplace<1>() = by; break;
        }
    }
    a.kind = kv[k];
    if (sub) { a.sub = AutoMod::Top::Sub{}; a.sub->x = y; a.sub->y = by; }
    if (nl > 1) { a.leaves.push_back(AutoMod::Leaf{}); a.leaves[0].num = i1; a.leaves[0].flag = by; }
    AutoMod::Top b = again(a);
    vf_check(b.leaf.num.value() == ln, "nested sequence");
    vf_check(b.list.size() == size_t(nl) && (nl < 1 || b.list[0].value() == i0) && (nl < 2 || b.list[1].value() == i1), "list");
    vf_check(b.pick.has_value() == (pick != 0), "presence of the choice");
    if (pick)
    {
        vf_check(b.pick->index() == size_t(pick - 1), "selected alternative");
        switch (pick)
        {
        case 1: vf_check(fast_ber::get<0>(*b.pick).value() == x, "alternative value"); break;
        case 2: vf_check(fast_ber::get<1>(*b.pick) == "str", "alternative value"); break;
        case 3: vf_check(fast_ber::get<2>(*b.pick).num.value() == x, "alternative value"); break;
        case 5: vf_check(fast_ber::get<4>(*b.pick).index() == 1 && fast_ber::get<1>(fast_ber::get<4>(*b.pick)).value() == by, "alternative value"); break;
        }
    }
    vf_check(b.kind == kv[k], "enumerated component");
    vf_check(b.sub.has_value() == bool(sub), "presence of the nested sequence");
    if (sub) vf_check(b.sub->x.value() == y && b.sub->y.value() == by, "nested sequence components");
    vf_check(b.leaves.size() == (nl > 1 ? 1 : 0), "list of sequences");
    if (nl > 1) vf_check(b.leaves[0].num.value() == i1 && b.leaves[0].flag.has_value() && b.leaves[0].flag->value() == by && b.leaves[0].str.is_default(), "list element");
    vf_cover("top");
}
extern "C" void vf_members_impl()
{
    ImplMod::Seq a{};
    int64_t v = num(), w = small(), x = small();
    int     c = int(vf_pick(0, 4, "alternative")), f = int(vf_pick(0, 1, "f")), o = int(vf_pick(0, 1, "optional"));
    bool    h = vf_u8("bool") & 1;
    a.a = v;
    if (o) { a.b = ImplMod::Inner{}; a.b->a = w; a.d = x; a.e = decltype(a.e)::value_type{}; a.e->x = x; a.g = decltype(a.g)::value_type{}; a.g->push_back(w); }
    switch (c)
    {
    case 0: a.c.emplace<0>() = w; break;
    case 1: a.c.emplace<1>() = w; break;
    case 2: a.c.emplace<2>() = "xy"; break;
    case 3: a.c.emplace<3>().a = w; break;
    case 4: a.c.emplace<4>().a = w; break;
    }
    if (f) a.f.emplace<1>() = x; else a.f.emplace<0>() = x;
    a.h = h;
    ImplMod::Seq b = again(a);
    vf_check(b.a.value() == v, "INTEGER component");
    vf_check(b.b.has_value() == bool(o) && b.d.has_value() == bool(o) && b.e.has_value() == bool(o) && b.g.has_value() == bool(o), "presence of the optional components");
    if (o) vf_check(b.b->a.value() == w && b.d->value() == x && b.e->x.value() == x && b.g->size() == 1 && (*b.g)[0].value() == w, "optional components");
    vf_check(b.c.index() == size_t(c) && b.f.index() == size_t(f), "selected alternatives");
    if (c == 0) vf_check(fast_ber::get<0>(b.c).value() == w, "alternative value");
    if (c == 1) vf_check(fast_ber::get<1>(b.c).value() == w, "alternative value");
    if (c == 2) vf_check(fast_ber::get<2>(b.c) == "xy", "alternative value");
    if (c == 3) vf_check(fast_ber::get<3>(b.c).a.value() == w, "alternative value");
    if (c == 4) vf_check(fast_ber::get<4>(b.c).a.value() == w, "alternative value");
    vf_check((f ? fast_ber::get<1>(b.f).value() : fast_ber::get<0>(b.f).value()) == x, "alternative value");
    vf_check(b.h.value() == h && b.h.is_default() == !h, "default component");
    vf_cover("impl");
}
// contents around the one-octet length limit at every level
extern "C" void vf_long()
{
    static const size_t lens[] = {90, 98, 105, 112, 116, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 253, 254};
    AutoMod::Top a{};
    size_t       n = lens[vf_pick(0, sizeof(lens) / sizeof(*lens) - 1, "length")];
    std::string  s(n, 'x');
    s[0] = char(vf_u8("first")); s[n - 1] = char(vf_u8("last"));
    a.leaf.num = 1;
    int where = int(vf_pick(0, 3, "where"));
    if (where == 0) a.leaf.str = s;
    if (where == 1) { a.pick = AutoMod::Pick{}; a.pick->emplace<1>() = s; }
    if (where == 2) { a.pick = AutoMod::Pick{}; a.pick->emplace<2>().str = s; }
    if (where == 3) { a.leaves.push_back(AutoMod::Leaf{}); a.leaves[0].str = s; }
    AutoMod::Top b = again(a);
    absl::string_view got = where == 0 ? absl::string_view(b.leaf.str.get()) : where == 1 ? absl::string_view(fast_ber::get<1>(*b.pick)) : where == 2 ? absl::string_view(fast_ber::get<2>(*b.pick).str.get()) : absl::string_view(b.leaves[0].str.get());
    vf_check(got.size() == n && got == absl::string_view(s), "long string");
    vf_cover("long");
}
#else
RUN(mixedopt, Expl::MixedOpt, t_mixedopt)
RUN(mixedopt2, Expl::MixedOpt2, t_mixedopt2)
RUN(extdef, Expl::ExtDef, t_extdef)
RUN(extmid, Expl::ExtMid, t_extmid)
RUN(empty, Expl::Empty, t_empty)
RUN(lists, Expl::Lists, t_lists)
RUN(holder, Impl::Holder, t_holder)
RUN(cols, Expl::Cols, t_cols)
template <typename T> static void leaves(const Ty& t)
{
    int  k = int(vf_pick(0, t.ncomps - 1, "component"));
    W    w;
    Plan fixed;
    fixed.fixed = true;
    for (int i = 0; i < t.ncomps; i++) component(w, t.comps[i], DEPTH, i == k ? Plan{} : fixed);
    put_headers(w, t);
    T a{};
    vf_check(dec(w, a), "the X.690 encoding decodes");
    cycle(a);
}
extern "C" void vf_leaves_x() { leaves<Expl::AllX>(t_allx); }
extern "C" void vf_leaves_i() { leaves<Expl::AllI>(t_alli); }
extern "C" void vf_leaves_u() { leaves<Expl::AllU>(t_allu); }
// contents around the one- and two-octet length limits, with components after them
static std::string text(const char* n)
{
    static const size_t lens[] = {0, 2, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257};
    std::string s(lens[vf_pick(0, sizeof(lens) / sizeof(*lens) - 1, n)], 'x');
    if (s.size()) { s[0] = char(vf_u8("first")); s[s.size() - 1] = char(vf_u8("last")); }
    return s;
}
template <typename T> static T exact(const T& a)
{
    size_t   n = a.encoded_length();
    uint8_t* p = new uint8_t[n];
    EncodeResult r = fast_ber::encode(absl::Span<uint8_t>(p, n), a);
    vf_check(r.success && r.length == n, "encodes into exactly the announced length");
    ref::Tlv h = ref::parse(p, n);
    vf_check(h.ok && h.hlen + h.clen == n, "one element");
    T b{};
    vf_check(fast_ber::decode(absl::Span<const uint8_t>(p, n), b).success, "its own encoding decodes");
    delete[] p;
    vf_check(a == b && !(a != b), "the decoded value equals the encoded one");
    return b;
}
extern "C" void vf_long_ext()
{
    Expl::ExtDef a{};
    std::string  s = text("length");
    a.s = s;
    bool def = vf_pick(0, 1, "default");
    if (!def) a.n = int64_t(int16_t(vf_u16("number")));
    int t = int(vf_pick(0, 2, "last"));
    std::string last(t == 2 ? 130 : 1, 'y');
    if (t) a.t = absl::string_view(last);
    Expl::ExtDef b = exact(a);
    vf_check(absl::string_view(b.s) == absl::string_view(s) && b.n.get() == a.n.get() && b.t.has_value() == (t != 0), "components");
    if (def) vf_check(b.n.is_default(), "default");
    if (t) vf_check(absl::string_view(*b.t) == absl::string_view(last), "last component");
    vf_cover("long");
}
extern "C" void vf_long_lists()
{
    Expl::Lists a{};
    std::string s = text("length");
    bool        two = vf_pick(0, 1, "elements");
    if (two) a.a.push_back(absl::string_view("ab"));
    a.a.push_back(absl::string_view(s));
    Expl::Lists b = exact(a);
    vf_check(b.a.size() == size_t(1 + two) && absl::string_view(b.a[two]) == absl::string_view(s), "long element");
    vf_cover("long");
}
// many elements: the length of the list itself passes the limits
extern "C" void vf_many()
{
    static const size_t counts[] = {41, 42, 43, 63, 64, 84, 85, 86};
    Expl::Lists a{};
    size_t      n = counts[vf_pick(0, 7, "elements")];
    bool        v = vf_u8("value") & 1;
    a.d.push_back({});
    for (size_t i = 0; i < n; i++) a.d[0].push_back(i % 2 ? v : !v);
    for (size_t i = 0; i < n; i += 2) a.a.push_back(absl::string_view("q"));
    Expl::Lists b = exact(a);
    vf_check(b.d.size() == 1 && b.d[0].size() == n && b.d[0][n - 1].value() == ((n - 1) % 2 ? v : !v), "long list");
    vf_cover("long");
}
#endif
