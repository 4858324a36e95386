// C02/C03/C04: views over arbitrary bytes.
#include "vf.h"
#include "fast_ber/util/BerContainer.hpp"
#include "fast_ber/util/BerView.hpp"
#include "ref.h"
using namespace fast_ber;
#ifndef N3
#define N3 22
#endif
#ifndef NIT
#define NIT 8
#endif
#ifndef NLONG
#define NLONG 13
#endif
#ifndef NSAFE
#define NSAFE 9
#endif
// exactly n symbolic bytes in an allocation of their own: any read outside is a memory error
static uint8_t* bytes(size_t n, const char* name)
{
    uint8_t* p = new uint8_t[n];
    vf_bytes(p, n, name);
    return p;
}
static void touch(absl::Span<const uint8_t> s)
{
    // every octet of a reported extent must be readable
    if (!s.empty()) { vf_check(s.data() != nullptr, "extent has no data"); volatile uint8_t x = s[0]; x = s[s.size() - 1]; (void)x; }
}
// a valid view lies wholly inside [b, b+n)
static void inside(const BerView& v, const uint8_t* b, size_t n)
{
    CHECK(v.ber_data() >= b && v.ber_data() <= b + n);
    size_t off = size_t(v.ber_data() - b);
    CHECK(v.header_length() >= 2);
    CHECK(v.header_length() <= n - off);
    CHECK(v.content_length() <= n - off - v.header_length());
    CHECK(v.ber_length() == v.header_length() + v.content_length());
    CHECK(v.content().size() == v.content_length());
    CHECK(v.ber().size() == v.ber_length());
    touch(v.content());
    touch(v.ber());
}
static size_t walk(const BerView& v, const uint8_t* b, size_t n, int depth)
{
    size_t count = 0;
    if (!v.is_valid()) return 0;
    inside(v, b, n);
    (void)v.class_(); (void)v.construction(); (void)v.identifier(); (void)v.identifier_length();
    if (depth == 0) return 1;
    for (const BerView& c : v)
    {
        count++;
        vf_check(count <= n, "more children than bytes");
        size_t off = size_t(v.content_data() - b);
        vf_check(c.ber_data() >= v.content_data(), "child starts before the content");
        inside(c, b, off + v.content_length());
        walk(c, b, n, depth - 1);
    }
    return count;
}
extern "C" void vf_safe()
{
    size_t   n = vf_pick(0, NSAFE, "n");
    uint8_t* b = bytes(n, "in");
    BerView  v(absl::Span<const uint8_t>(b, n));
    if (v.is_valid())
    {
        if (walk(v, b, n, 2) > 1) vf_cover("several children");
        vf_cover("valid view");
    }
    else
    {
        CHECK(v.content_length() == 0 && v.header_length() == 0 && v.ber_length() == 0);
        vf_cover("invalid view");
    }
    delete[] b;
}
// length octets of every form, including ones whose value wraps when added to an offset
extern "C" void vf_safe_long()
{
    size_t   n = vf_pick(10, NLONG, "n");
    uint8_t* b = bytes(n, "in");
    vf_assume((b[0] & 0x1f) != 0x1f); // low tag form; high tag forms are covered by vf_safe and vf_parse
    BerView v(absl::Span<const uint8_t>(b, n));
    if (v.is_valid())
    {
        walk(v, b, n, 0);
        vf_cover("valid view with long length");
    }
    delete[] b;
}
// iteration over content whose first child declares a length of 4..8 octets
extern "C" void vf_safe_iter()
{
    size_t   n = vf_pick(10, 11, "n");
    uint8_t* b = bytes(n, "in");
    vf_assume((b[0] & 0x1f) != 0x1f && b[1] >= 0x84);
    BerViewIterator it{absl::Span<const uint8_t>(b, n)};
    size_t          count = 0;
    for (; it->is_valid(); ++it)
    {
        count++;
        vf_check(count <= n, "more children than bytes");
        inside(*it, b, n);
    }
    vf_cover(count ? "first child valid" : "first child invalid");
    delete[] b;
}
// mutable views, explicit-extent construction, re-encoding a view
extern "C" void vf_safe_mutable()
{
    size_t         n = vf_pick(0, NIT, "n");
    uint8_t*       b = bytes(n, "in");
    MutableBerView v(absl::Span<uint8_t>(b, n));
    if (v.is_valid())
    {
        inside(v, b, n);
        size_t count = 0;
        for (auto it = v.begin(); it != v.end(); ++it)
        {
            count++;
            vf_check(count <= n, "more children than bytes");
            inside(*it, b, n);
            if (it->content_length() > 0) it->content_data()[0] ^= 0; // writable extent
        }
        size_t   room = vf_pick(0, NIT + 2, "room");
        uint8_t* o    = new uint8_t[room];
        EncodeResult r = v.encode(absl::Span<uint8_t>(o, room));
        CHECK(r.success == (v.ber_length() <= room));
        if (r.success)
        {
            CHECK(r.length == v.ber_length());
            size_t k = vf_fork(r.length);
            for (size_t i = 0; i < k; i++) CHECK(o[i] == b[i]);
            vf_cover("view re-encoded");
        }
        BerView w(v.ber(), v.header_length(), v.content_length());
        inside(w, b, n);
        CHECK(w.tag() == v.tag());
        delete[] o;
    }
    delete[] b;
}
// C03: agreement with X.690
extern "C" void vf_parse()
{
    size_t   n = vf_pick(0, N3, "n");
    uint8_t* b = bytes(n, "in");
    ref::Tlv r = ref::parse(b, n);
    BerView  v(absl::Span<const uint8_t>(b, n));
    CHECK(v.is_valid() == r.ok);
    if (r.ok)
    {
        CHECK(int(v.class_()) == r.cls);
        CHECK((v.construction() == Construction::constructed) == r.cons);
        CHECK(uint64_t(v.tag()) == r.tag);
        CHECK(v.header_length() == r.hlen);
        CHECK(v.content_length() == r.clen);
        CHECK(v.content_data() == b + r.hlen);
        CHECK(v.ber_length() == r.hlen + r.clen);
        CHECK(v.ber_data() == b);
        CHECK(v.identifier() == (RuntimeId{Class(r.cls), Tag(r.tag)}));
        if (r.tlen == ref::tag_len(r.tag)) CHECK(v.identifier_length() == r.tlen);
        vf_cover("valid element");
        if (r.hlen > 10) vf_cover("long header");
    }
    else vf_cover("not an element");
    // a second assignment over the same view forgets the first
    uint8_t two[2] = {0x05, 0x00};
    v.assign(absl::Span<const uint8_t>(two, 2));
    CHECK(v.is_valid() && v.tag() == 5 && v.content_length() == 0 && v.header_length() == 2);
    v.assign(absl::Span<const uint8_t>(b, n));
    CHECK(v.is_valid() == r.ok);
    if (!r.ok) CHECK(v.content_length() == 0 && v.ber_length() == 0);
    delete[] b;
}
// C04: iteration visits exactly the children, in order, and stops at the first malformed byte
extern "C" void vf_children()
{
    size_t   n = vf_pick(0, NIT, "n");
    uint8_t  hdr[2 + NIT];
    uint8_t* b = bytes(n, "content");
    hdr[0] = 0x30;
    hdr[1] = uint8_t(n);
    if (n) memcpy(hdr + 2, b, n);
    delete[] b;
    BerView v(absl::Span<const uint8_t>(hdr, n + 2));
    CHECK(v.is_valid());
    auto   it = v.begin();
    auto   e  = v.end();
    size_t p = 0, count = 0;
    for (;;)
    {
        ref::Tlv r = ref::parse(hdr + 2 + p, n - p);
        if (!r.ok) break;
        CHECK(it != e);
        CHECK(!(it == e));
        CHECK(it->is_valid());
        CHECK(it->ber_data() == hdr + 2 + p);
        CHECK(it->content_length() == r.clen && it->header_length() == r.hlen && uint64_t(it->tag()) == r.tag && int(it->class_()) == r.cls);
        p += r.hlen + r.clen;
        count++;
        ++it;
    }
    CHECK(it == e);
    CHECK(!it->is_valid());
    size_t seen = 0;
    for (const BerView& c : v) { CHECK(c.is_valid()); seen++; }
    CHECK(seen == count);
    if (count == 0) vf_cover("no children");
    if (count > 2) vf_cover("more than two children");
    if (p < n) vf_cover("malformed tail");
}
#ifndef NK
#define NK 6
#endif
// the same children through a view that may be written through and through a container
extern "C" void vf_children_kinds()
{
    size_t   n = vf_pick(0, NK, "n");
    uint8_t  hdr[2 + NK];
    uint8_t* b = bytes(n, "content");
    hdr[0] = 0x30;
    hdr[1] = uint8_t(n);
    if (n) memcpy(hdr + 2, b, n);
    delete[] b;
    BerView v(absl::Span<const uint8_t>(hdr, n + 2));
    MutableBerView m(absl::Span<uint8_t>(hdr, n + 2));
    BerContainer k{absl::Span<const uint8_t>(hdr, n + 2)};
    CHECK(v.is_valid() && m.is_valid() && k.is_valid());
    BerView kv(k.ber());
    auto    a = v.begin(), x = m.cbegin(), y = kv.begin();
    auto    c = m.begin();
    size_t  count = 0;
    for (; a->is_valid(); ++a, ++c, ++x, ++y, count++)
    {
        CHECK(c->is_valid() && c->ber_data() == a->ber_data() && c->ber_length() == a->ber_length() && c->header_length() == a->header_length());
        CHECK(c->content_data() == a->content_data() && c->content_length() == a->content_length() && c->tag() == a->tag() && c->class_() == a->class_());
        CHECK(x->ber_data() == a->ber_data() && x->ber_length() == a->ber_length());
        CHECK(y->is_valid() && y->ber_data() == k.ber_data() + (a->ber_data() - hdr) && y->ber_length() == a->ber_length() && y->tag() == a->tag());
    }
    CHECK(a == v.end() && c == m.end() && x == m.cend() && y == kv.end());
    CHECK(!c->is_valid() && !x->is_valid() && !y->is_valid());
    if (count == 0) vf_cover("no children");
    if (count > 2) vf_cover("more than two children");
}
