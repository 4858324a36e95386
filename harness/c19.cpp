// C19 DynamicVariant
#include "common.h"
#include "fast_ber/util/DynamicVariant.hpp"
#include <stdexcept>
#include <string>
#include <utility>
#ifndef NSTEP
#define NSTEP 2
#endif
static long bombs;
struct Bomb // counts live objects; construction from an odd number throws
{
    long v;
    explicit Bomb(long x) : v(x) { if (x & 1) throw std::runtime_error("odd"); bombs++; }
    Bomb(const Bomb& o) : v(o.v) { bombs++; }
    Bomb& operator=(const Bomb& o) { v = o.v; return *this; }
    ~Bomb() { bombs--; v = -1; }
    bool operator==(const Bomb& o) const { return v == o.v; }
    bool operator<(const Bomb& o) const { return v < o.v; }
    bool operator>(const Bomb& o) const { return v > o.v; }
    bool operator<=(const Bomb& o) const { return v <= o.v; }
    bool operator>=(const Bomb& o) const { return v >= o.v; }
};
using V = dynamic::DynamicVariant<int64_t, std::string, Bomb>;
struct Model
{
    size_t  i = 0;      // alternative; 3: value unspecified (moved from)
    int64_t n = 0;      // alternatives 0 and 2
    char    s[24] = {}; // alternative 1
    size_t  k = 0;
    std::string str() const { return std::string(s, k); }
};
static Model make(size_t i)
{
    Model m;
    m.i = i;
    if (i == 0) m.n = int64_t(vf_u64("number"));
    else if (i == 2) { m.n = int64_t(vf_u32("bomb")) & ~int64_t(1); }
    else { m.k = vf_pick(0, 1, "long") ? 20 : 2; for (size_t j = 0; j < m.k; j++) m.s[j] = 'x'; m.s[1] = char(vf_u8("char")); }
    return m;
}
static int cmp(const Model& a, const Model& b)
{
    if (a.i != b.i) return a.i < b.i ? -1 : 1;
    if (a.i == 1) { int c = a.str().compare(b.str()); return c < 0 ? -1 : c > 0 ? 1 : 0; }
    return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
}
struct Seen
{
    size_t      i = 9;
    int64_t     n = 0;
    std::string s;
    void operator()(const int64_t& x) { i = 0; n = x; }
    void operator()(const std::string& x) { i = 1; s = x; }
    void operator()(const Bomb& x) { i = 2; n = x.v; }
};
static void holds(V& v, const Model& m)
{
    if (m.i == 3) return;
    const V& c = v;
    CHECK(v.index() == m.i && !v.valueless_by_exception());
    CHECK(dynamic::holds_alternative<int64_t>(c) == (m.i == 0) && dynamic::holds_alternative<std::string>(c) == (m.i == 1) && dynamic::holds_alternative<Bomb>(c) == (m.i == 2));
    CHECK((dynamic::get_if<0>(&v) != nullptr) == (m.i == 0) && (dynamic::get_if<std::string>(&c) != nullptr) == (m.i == 1) && (dynamic::get_if<2>(&c) != nullptr) == (m.i == 2));
    bool refused = false;
    try { if (m.i == 0) (void)dynamic::get<1>(c); else (void)dynamic::get<int64_t>(c); }
    catch (const dynamic::BadVariantAccess&) { refused = true; }
    CHECK(refused);
    Seen s;
    dynamic::visit(s, c);
    CHECK(s.i == m.i);
    if (m.i == 0) CHECK(dynamic::get<int64_t>(c) == m.n && dynamic::get<0>(v) == m.n && s.n == m.n);
    if (m.i == 1) CHECK(dynamic::get<1>(c) == m.str() && s.s == m.str());
    if (m.i == 2) CHECK(dynamic::get<Bomb>(c).v == m.n && s.n == m.n);
}
static void compare(const V& a, const Model& ma, const V& b, const Model& mb)
{
    if (ma.i == 3 || mb.i == 3) return;
    int c = cmp(ma, mb);
    CHECK((a == b) == (c == 0));
    CHECK((a != b) == (c != 0));
    CHECK((a < b) == (c < 0));
    CHECK((a > b) == (c > 0));
    CHECK((a <= b) == (c <= 0));
    CHECK((a >= b) == (c >= 0));
}
static void set(V& v, Model& m)
{
    Model k = make(vf_pick(0, 2, "alternative"));
    switch (vf_pick(0, 3, "way"))
    {
    case 0:
        if (k.i == 0) v = k.n;
        else if (k.i == 1) v = k.str();
        else { Bomb b(k.n); v = b; }
        break;
    case 1: // assignment from an lvalue leaves the lvalue alone
        if (k.i == 1) { std::string s = k.str(); v = s; CHECK(s == k.str()); vf_cover("lvalue"); }
        else if (k.i == 0) { v.emplace<int64_t>(k.n); }
        else v.emplace<Bomb>(k.n);
        break;
    case 2:
        if (k.i == 0) v.emplace<0>(k.n);
        else if (k.i == 1) v.emplace<1>(k.s, k.k);
        else v.emplace<2>(k.n);
        break;
    default:
        if (k.i == 0) v = V(k.n);
        else if (k.i == 1) { std::string s = k.str(); v = V(dynamic::in_place_type_t<std::string>{}, s); CHECK(s == k.str()); }
        else v = V(dynamic::in_place_index_t<2>{}, k.n);
    }
    m = k;
}
extern "C" void vf_variant_history()
{
    bombs = 0;
    uint64_t before = vf_live_allocs();
    {
        V*    a = new V();
        V*    b;
        Model ma, mb = make(vf_pick(0, 2, "start"));
        if (mb.i == 0) b = new V(mb.n);
        else if (mb.i == 1) b = new V(mb.str());
        else b = new V(Bomb(mb.n));
        holds(*a, ma);
        holds(*b, mb);
        for (size_t i = 0; i < NSTEP; i++)
        {
            switch (vf_pick(0, 9, "op"))
            {
            case 0: set(*a, ma); vf_cover("set"); break;
            case 1: *a = *b; ma = mb; vf_cover("copy assign"); break;
            case 2: *a = std::move(*b); ma = mb; mb.i = 3; vf_cover("move assign"); break;
            case 3: { V* c = new V(*b); delete a; a = c; ma = mb; vf_cover("copy"); break; }
            case 4: { V* c = new V(std::move(*b)); delete a; a = c; ma = mb; mb.i = 3; vf_cover("move"); break; }
            case 5: { const V& self = *a; *a = self; vf_cover("self copy"); break; }
            case 6: { V& self = *a; *a = std::move(self); ma.i = 3; vf_cover("self move"); break; }
            case 7: { if (vf_pick(0, 1, "free")) dynamic::swap(*a, *b); else a->swap(*b); std::swap(ma, mb); vf_cover("swap"); break; }
            case 8: { // construction of the new value throws: the variant stays destructible and assignable
                bool thrown = false;
                try { if (vf_pick(0, 1, "by type")) a->emplace<Bomb>(long(3)); else a->emplace<2>(long(3)); }
                catch (const std::runtime_error&) { thrown = true; }
                CHECK(thrown);
                ma.i = 3;
                vf_cover("throwing emplace");
                break;
            }
            default: // assign from the variant's own content
                if (ma.i == 0) *a = dynamic::get<0>(*a);
                else if (ma.i == 1) *a = static_cast<const std::string&>(dynamic::get<1>(*a));
                else if (ma.i == 2) *a = static_cast<const Bomb&>(dynamic::get<2>(*a));
                vf_cover("own content");
            }
            holds(*a, ma);
            holds(*b, mb);
            compare(*a, ma, *b, mb);
        }
        long owned = (ma.i == 2) + (mb.i == 2);
        if (ma.i != 3 && mb.i != 3) CHECK(bombs == owned);
        delete b;
        holds(*a, ma);
        delete a;
    }
    vf_check(bombs == 0, "every alternative destroyed exactly once");
    vf_check(vf_live_allocs() == before, "no memory is lost");
}
using W = Choice<Choices<Integer<>, OctetString<>, Boolean<>>, ChoiceId<ExplicitId<UniversalTag::integer>, ExplicitId<UniversalTag::octet_string>, ExplicitId<UniversalTag::boolean>>, StorageMode::dynamic>;
extern "C" void vf_variant_choice()
{
    int64_t n = int64_t(vf_u64("number"));
    W a{Integer<>(n)}, b{OctetString<>("abc")}, c{Boolean<>(true)};
    W d(b);
    CHECK(d == b && a != b && holds_alternative<OctetString<>>(d) && get<1>(d) == "abc");
    d = a;
    CHECK(d == a && get<0>(d) == n && b != d);
    d.swap(c);
    CHECK(holds_alternative<Boolean<>>(d) && holds_alternative<Integer<>>(c) && get<0>(c) == n);
    const W& self = c;
    c = self;
    CHECK(c == a);
    W e(std::move(c));
    CHECK(e == a);
    c = std::move(e);
    CHECK(c == a);
    OctetString<> keep("a string which is kept");
    c = keep;
    CHECK(keep == "a string which is kept" && get<1>(c) == keep);
    c.emplace<2>(true);
    CHECK(c == d);
    vf_cover("choice");
}
