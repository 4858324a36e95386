// C01: identifier and length octets written by the library read back unchanged.
#include "vf.h"
#include "fast_ber/util/BerView.hpp"
#include "fast_ber/util/EncodeHelpers.hpp"
#include "fast_ber/util/EncodeIdentifiers.hpp"
#include "fast_ber/util/Extract.hpp"
#include "ref.h"
using namespace fast_ber;

// header writing, prediction and reading for any tag, length and buffer size
extern "C" void vf_header()
{
    int      cls  = (int)vf_pick(0, 3, "class");
    bool     cons = vf_pick(0, 1, "constructed");
    uint64_t tag  = vf_range(0, INT64_MAX, "tag");
    uint64_t len  = vf_u64("length");
    size_t   size = vf_pick(0, 22, "size");
    Construction con = cons ? Construction::constructed : Construction::primitive;
    uint8_t  ref[24];
    size_t   n = vf_fork(ref::put_header(ref, cls, cons, tag, len));
    size_t   predicted = encoded_header_length(con, Class(cls), Tag(tag), len);
    CHECK(predicted == n);
    uint8_t* buf = new uint8_t[size]; // exact allocation: any overrun is a memory error
    uint8_t  before[24] = {};
    for (size_t i = 0; i < size; i++) before[i] = buf[i] = 0xA5;
    size_t w = encode_header(absl::Span<uint8_t>(buf, size), con, Class(cls), Tag(tag), len);
    if (size < n)
    {
        CHECK(w == 0);
        vf_cover("header refused: buffer too small");
    }
    else
    {
        CHECK(w == n);
        for (size_t i = 0; i < n; i++) CHECK(buf[i] == ref[i]);
        for (size_t i = n; i < size; i++) CHECK(buf[i] == before[i]);
        vf_cover("header written");
        // read back
        absl::Span<const uint8_t> in(buf, n);
        Tag    t  = -1;
        size_t tl = extract_tag(in, t);
        CHECK(tl == ref::tag_len(tag));
        CHECK(t == Tag(tag));
        Class        c2 = Class::universal;
        Construction k2 = Construction::primitive;
        CHECK(extract_class(in, c2) && c2 == Class(cls));
        CHECK(extract_construction(in, k2) && k2 == con);
        CHECK(extract_tag_length(in) == tl);
        size_t l  = 0;
        size_t ll = extract_length(in, l, tl);
        CHECK(ll == ref::len_len(len));
        CHECK(l == len);
        if (len > INT64_MAX) vf_cover("length beyond 63 bits");
        if (tag > UINT32_MAX) vf_cover("tag beyond 32 bits");
    }
    delete[] buf;
}
