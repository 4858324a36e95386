// Shared pieces: identifiers used, reference encodings, the encode contract.
#pragma once
#include "vf.h"
#include "ref.h"
#include "fast_ber/ber_types/All.hpp"
#include <cstring>
using namespace fast_ber;

// identifier shapes: universal, short, long-form, and the two explicit nestings
template <UniversalTag U> using IdUniv    = ExplicitId<U>;
using IdShort                             = Id<Class::context_specific, 3>;
using IdLong                              = Id<Class::private_, 1000>;
template <UniversalTag U> using IdDouble  = DoubleId<Id<Class::context_specific, 3>, ExplicitId<U>>;
using IdDoubleLong                        = DoubleId<Id<Class::application, 200>, Id<Class::context_specific, 5000>>;

template <Class c, Tag t> size_t put_wrapped(uint8_t* o, Id<c, t>, bool cons, const uint8_t* content, size_t n)
{
    size_t p = ref::put_header(o, int(c), cons, uint64_t(t), n);
    for (size_t i = 0; i < n; i++) o[p + i] = content[i];
    return p + n;
}
template <typename A, typename B> size_t put_wrapped(uint8_t* o, DoubleId<A, B>, bool cons, const uint8_t* content, size_t n)
{
    uint8_t inner[256];
    size_t  k = put_wrapped(inner, B{}, cons, content, n);
    return put_wrapped(o, A{}, true, inner, k);
}

struct Buf // exactly sized allocation
{
    uint8_t* p;
    size_t   n;
    explicit Buf(size_t k) : p(new uint8_t[k]), n(k) {}
    Buf(const uint8_t* s, size_t k) : Buf(k) { if (k) memcpy(p, s, k); }
    Buf(const Buf&) = delete;
    ~Buf() { delete[] p; }
    absl::Span<uint8_t>       span() { return absl::Span<uint8_t>(p, n); }
    absl::Span<const uint8_t> cspan() const { return absl::Span<const uint8_t>(p, n); }
};
inline void sym(Buf& b, const char* name) { vf_bytes(b.p, b.n, name); }

// the encode contract: succeeds exactly when the buffer holds encoded_length octets, then writes exactly those.
// Returns the number of octets; out (if given) receives them.
template <typename T>
size_t check_encode(const T& v, const uint8_t* expect, size_t expect_n, size_t size)
{
    size_t announced = v.encoded_length();
    vf_check(announced == expect_n, "announced length is the X.690 length");
    Buf b(size);
    for (size_t i = 0; i < size; i++) b.p[i] = 0xC6;
    EncodeResult r = fast_ber::encode(b.span(), v);
    vf_check(r.success == (size >= expect_n), "encode succeeds exactly when the buffer is large enough");
    if (!r.success) return 0;
    vf_check(r.length == expect_n, "reported length");
    for (size_t i = 0; i < expect_n; i++) vf_check(b.p[i] == expect[i], "encoded octet is the X.690 octet");
    for (size_t i = expect_n; i < size; i++) vf_check(b.p[i] == 0xC6, "octet after the encoding untouched");
    return expect_n;
}
