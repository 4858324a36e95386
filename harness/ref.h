// Independent reference model of X.690 identifier/length octets, written from the standard.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace ref
{
inline size_t tag_len(uint64_t t)
{
    if (t < 31) return 1;
    size_t n = 1;
    for (; t; t >>= 7) n++;
    return n;
}
inline size_t len_len(uint64_t l)
{
    if (l < 128) return 1;
    size_t n = 1;
    for (; l; l >>= 8) n++;
    return n;
}
inline size_t put_tag(uint8_t* o, int cls, bool cons, uint64_t tag)
{
    size_t p = 0, tl = tag_len(tag);
    uint8_t lead = uint8_t(cls << 6 | (cons ? 0x20 : 0));
    if (tl == 1) o[p++] = lead | uint8_t(tag);
    else
    {
        o[p++] = lead | 0x1f;
        for (size_t i = tl - 1; i-- > 0;) o[p++] = uint8_t((tag >> (7 * i)) & 0x7f) | (i ? 0x80 : 0);
    }
    return p;
}
inline size_t put_len(uint8_t* o, uint64_t len)
{
    size_t p = 0, ll = len_len(len);
    if (ll == 1) o[p++] = uint8_t(len);
    else
    {
        o[p++] = uint8_t(0x80 | (ll - 1));
        for (size_t i = ll - 1; i-- > 0;) o[p++] = uint8_t(len >> (8 * i));
    }
    return p;
}
inline size_t put_header(uint8_t* o, int cls, bool cons, uint64_t tag, uint64_t len)
{
    size_t p = put_tag(o, cls, cons, tag);
    return p + put_len(o + p, len);
}
struct Tlv
{
    bool     ok   = false;
    int      cls  = 0;
    bool     cons = false;
    uint64_t tag  = 0;
    size_t   tlen = 0; // identifier octets
    size_t   hlen = 0; // identifier + length octets
    size_t   clen = 0;
};
// definite-length element at the start of b[0..n); tag numbers of up to 63 bits
inline Tlv parse(const uint8_t* b, size_t n)
{
    Tlv r;
    if (n == 0) return r;
    r.cls  = b[0] >> 6;
    r.cons = (b[0] >> 5) & 1;
    size_t p = 1;
    if ((b[0] & 0x1f) < 0x1f) r.tag = b[0] & 0x1f;
    else
    {
        unsigned bits = 0;
        for (;;)
        {
            if (p >= n) return r;
            uint8_t o = b[p++];
            if (r.tag >> 56) return r; // would need more than 63 bits
            r.tag = r.tag << 7 | (o & 0x7f);
            bits += 7;
            if (!(o & 0x80)) break;
        }
    }
    r.tlen = p;
    if (p >= n) return r;
    uint8_t l = b[p++];
    uint64_t len = l;
    if (l & 0x80)
    {
        size_t k = l & 0x7f;
        if (k == 0 || k > 8) return r; // indefinite form, or longer than any buffer can be
        if (k > n - p) return r;
        len = 0;
        for (size_t i = 0; i < k; i++) len = len << 8 | b[p++];
    }
    if (len > n - p) return r;
    r.hlen = p;
    r.clen = len;
    r.ok   = true;
    return r;
}
} // namespace ref
