// C06 INTEGER, C07 BOOLEAN / NULL / ENUMERATED
#include "common.h"
// minimal two's complement content, most significant octet first
static size_t ref_int(uint8_t* o, int64_t v)
{
    size_t n = 1;
    while (n < 8 && !(v >= -(int64_t(1) << (8 * n - 1)) && v < (int64_t(1) << (8 * n - 1)))) n++;
    for (size_t i = 0; i < n; i++) o[i] = uint8_t(uint64_t(v) >> (8 * (n - 1 - i)));
    return n;
}
template <typename I> static void int_value(I)
{
    int64_t v = int64_t(vf_u64("value"));
    uint8_t content[8], tlv[32];
    size_t  n = vf_fork(ref_int(content, v));
    size_t  k = put_wrapped(tlv, I{}, false, content, n);
    Integer<I> a(v);
    CHECK(a.value() == v);
    Integer<I> b;
    CHECK(b.value() == 0);
    b = v;
    CHECK(b.value() == v && a == b && !(a != b) && a == v);
    size_t size = vf_fork(k + vf_range(0, 3, "room") - 1); // one short, exact, more
    if (check_encode(a, tlv, k, size))
    {
        Integer<I> c{int64_t(77)};
        CHECK(fast_ber::decode(absl::Span<const uint8_t>(tlv, k), c).success);
        CHECK(c.value() == v && c == a);
        check_encode(c, tlv, k, k);
    }
    Integer<IdUniv<UniversalTag::integer>> d(a);
    CHECK(d.value() == v);
    Integer<I> e{int64_t(5)};
    e = d;
    CHECK(e.value() == v);
    check_encode(e, tlv, k, k);
    b = int64_t(vf_u64("other"));
    CHECK((a == b) == (a.value() == b.value()));
    if (n == 8) vf_cover("eight-octet value");
    if (v < 0) vf_cover("negative value");
}
extern "C" void vf_int_value_u() { int_value(IdUniv<UniversalTag::integer>{}); }
extern "C" void vf_int_value_s() { int_value(IdShort{}); }
extern "C" void vf_int_value_l() { int_value(IdLong{}); }
extern "C" void vf_int_value_d() { int_value(IdDouble<UniversalTag::integer>{}); }
extern "C" void vf_int_value_dl() { int_value(IdDoubleLong{}); }

template <typename I> static void int_content(I)
{
    size_t n = vf_pick(1, 10, "n");
    Buf    c(n);
    sym(c, "content");
    uint8_t tlv[32];
    size_t  k = put_wrapped(tlv, I{}, false, c.p, n);
    int64_t init = int64_t(vf_u64("init"));
    Integer<I> a(init);
    bool ok = a.decode(BerView(absl::Span<const uint8_t>(tlv, k))).success;
    CHECK(ok == (n <= 8));
    if (ok)
    {
        uint64_t v = c.p[0] & 0x80 ? ~uint64_t(0) : 0;
        for (size_t i = 0; i < n; i++) v = v << 8 | c.p[i];
        CHECK(a.value() == int64_t(v));
        vf_cover("content decoded");
        Integer<I> b{int64_t(v)};
        CHECK(a == b);
    }
    else vf_cover("too long content refused");
}
extern "C" void vf_int_content_u() { int_content(IdUniv<UniversalTag::integer>{}); }
extern "C" void vf_int_content_s() { int_content(IdShort{}); }
extern "C" void vf_int_content_d() { int_content(IdDouble<UniversalTag::integer>{}); }
extern "C" void vf_int_content_dl() { int_content(IdDoubleLong{}); }

// ---------------------------------------------------------------- C07
template <typename I> static void boolean(I)
{
    bool    v = vf_u8("value") & 1;
    uint8_t content[1] = {uint8_t(v ? 0xFF : 0)}, tlv[16];
    size_t  k = put_wrapped(tlv, I{}, false, content, 1);
    Boolean<I> a(v), b;
    b = !v;
    CHECK(bool(b) == !v);
    b = v;
    CHECK(a.value() == v && bool(a) == v && a == b && !(a != b));
    size_t size = vf_pick(0, k + 1, "size");
    check_encode(a, tlv, k, size);
    Boolean<I> c(!v);
    CHECK(c.decode(BerView(absl::Span<const uint8_t>(tlv, k))).success && c.value() == v && c == a);
    Boolean<IdLong> d(a);
    CHECK(d.value() == v);
    d = a;
    CHECK(d.value() == v);
    // any content octet
    uint8_t x = content[0] = vf_u8("octet");
    put_wrapped(tlv, I{}, false, content, 1);
    CHECK(c.decode(BerView(absl::Span<const uint8_t>(tlv, k))).success && c.value() == (x != 0));
    vf_cover("boolean");
}
extern "C" void vf_bool_u() { boolean(IdUniv<UniversalTag::boolean>{}); }
extern "C" void vf_bool_l() { boolean(IdLong{}); }
extern "C" void vf_bool_d() { boolean(IdDouble<UniversalTag::boolean>{}); }
template <typename I> static void null_(I)
{
    uint8_t tlv[16];
    size_t  k = put_wrapped(tlv, I{}, false, nullptr, 0);
    Null<I> a;
    check_encode(a, tlv, k, vf_pick(0, k + 1, "size"));
    Null<I> c;
    CHECK(c.decode(BerView(absl::Span<const uint8_t>(tlv, k))).success && c == a);
    vf_cover("null");
}
extern "C" void vf_null_u() { null_(IdUniv<UniversalTag::null>{}); }
extern "C" void vf_null_l() { null_(IdLong{}); }
extern "C" void vf_null_d() { null_(IdDouble<UniversalTag::null>{}); }
enum class En : int64_t { zero = 0, one = 1 };
enum class Ei { zero = 0, one = 1 };
template <typename E, typename I> static void enumerated(I)
{
    int64_t v = int64_t(vf_u64("value"));
    if (sizeof(E) == 4) vf_assume(v == int32_t(v));
    uint8_t content[8], tlv[32];
    size_t  n = vf_fork(ref_int(content, v));
    size_t  k = put_wrapped(tlv, I{}, false, content, n);
    Enumerated<E, I> a(static_cast<E>(v)), b;
    b = static_cast<E>(v);
    CHECK(a.value() == static_cast<E>(v) && a == b && !(a != b) && a == static_cast<E>(v));
    check_encode(a, tlv, k, vf_fork(k + vf_range(0, 2, "room") - 1));
    Enumerated<E, I> c;
    CHECK(c.decode(BerView(absl::Span<const uint8_t>(tlv, k))).success);
    CHECK(c.value() == static_cast<E>(v) && c == a);
    Enumerated<E, IdLong> d(a);
    CHECK(d.value() == static_cast<E>(v));
    vf_cover("enumerated");
}
extern "C" void vf_enum_u() { enumerated<En>(IdUniv<UniversalTag::enumerated>{}); }
extern "C" void vf_enum_int() { enumerated<Ei>(IdUniv<UniversalTag::enumerated>{}); }
extern "C" void vf_enum_d() { enumerated<En>(IdDouble<UniversalTag::enumerated>{}); }

// arbitrary bytes: accepted exactly when they are an element of the right identifier, form and content length
template <typename I> struct Expect;
template <Class c, Tag t> struct Expect<Id<c, t>>
{
    static bool match(const uint8_t* b, size_t n, const uint8_t** content, size_t* len)
    {
        ref::Tlv r = ref::parse(b, n);
        if (!(r.ok && r.cls == int(c) && r.tag == uint64_t(t) && !r.cons)) return false;
        *content = b + r.hlen;
        *len     = r.clen;
        return true;
    }
};
template <typename A, typename B> struct Expect<DoubleId<A, B>>
{
    static bool match(const uint8_t* b, size_t n, const uint8_t** content, size_t* len)
    {
        ref::Tlv r = ref::parse(b, n);
        if (!(r.ok && r.cls == int(A::class_()) && r.tag == uint64_t(A::tag()) && r.cons)) return false;
        return Expect<B>::match(b + r.hlen, r.clen, content, len);
    }
};
template <typename I, typename T, typename F> static void foreign(I, T init, F valid_content, size_t max)
{
    size_t n = vf_pick(0, max, "n");
    Buf    b(n);
    sym(b, "in");
    const uint8_t* c = nullptr;
    size_t         len = 0;
    bool expect = Expect<I>::match(b.p, n, &c, &len) && valid_content(len);
    T    x      = init;
    bool ok     = fast_ber::decode(b.cspan(), x).success;
    CHECK(ok == expect);
    if (ok) vf_cover("accepted");
    else vf_cover("refused");
    if (ok) vf_check(x == T(BerView(b.cspan())), "view constructor agrees");
}
static bool one(size_t n) { return n == 1; }
static bool zero(size_t n) { return n == 0; }
extern "C" void vf_foreign_bool() { foreign(IdUniv<UniversalTag::boolean>{}, Boolean<>(true), one, 7); }
extern "C" void vf_foreign_bool_d() { foreign(IdDouble<UniversalTag::boolean>{}, Boolean<IdDouble<UniversalTag::boolean>>(true), one, 7); }
extern "C" void vf_foreign_null() { foreign(IdUniv<UniversalTag::null>{}, Null<>(), zero, 7); }
extern "C" void vf_foreign_null_d() { foreign(IdDouble<UniversalTag::null>{}, Null<IdDouble<UniversalTag::null>>(), zero, 7); }
extern "C" void vf_foreign_enum()
{
    size_t n = vf_pick(0, 7, "n");
    Buf    b(n);
    sym(b, "in");
    ref::Tlv r = ref::parse(b.p, n);
    Enumerated<En> x;
    bool ok = x.decode(BerView(b.cspan())).success;
    if (ok) { CHECK(r.ok && r.cls == 0 && r.tag == 10 && !r.cons && r.clen <= 8); vf_cover("accepted"); }
    else { CHECK(!(r.ok && r.cls == 0 && r.tag == 10 && !r.cons && r.clen >= 1)); vf_cover("refused"); }
}
extern "C" void vf_foreign_int()
{
    size_t n = vf_pick(0, 12, "n");
    Buf    b(n);
    sym(b, "in");
    ref::Tlv r = ref::parse(b.p, n);
    Integer<> x;
    bool ok = x.decode(BerView(b.cspan())).success;
    if (ok) { CHECK(r.ok && r.cls == 0 && r.tag == 2 && !r.cons && r.clen <= 8); vf_cover("accepted"); }
    else { CHECK(!(r.ok && r.cls == 0 && r.tag == 2 && !r.cons && r.clen >= 1 && r.clen <= 8)); vf_cover("refused"); }
}
