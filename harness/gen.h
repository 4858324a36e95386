// Schema-driven X.690 reference encoder for the types of specs/gen.asn (written from X.680/X.690, independent of the
// repository). Structure choices (presence, alternative, list length, string length) are forked; leaf contents symbolic.
#pragma once
#include "vf.h"
#include "ref.h"
#ifdef GEN2
#include "gen2.hpp"
#else
#include "gen.hpp"
#endif
#include <cstring>
#include <utility>
using namespace fast_ber;
namespace g
{
#ifdef GEN2
enum { MAXC = 22 }; // components of one type
#ifndef WMAX
#define WMAX 300
#endif
#else
enum { MAXC = 8 };
#ifndef WMAX
#define WMAX 120
#endif
#endif
struct W
{
    uint8_t b[WMAX];
    bool    len[WMAX] = {}; // the octets which are lengths
    size_t  n = 0;
    void put(const uint8_t* p, size_t k) { for (size_t i = 0; i < k; i++) b[n++] = p[i]; }
    void put(const W& w) { memcpy(len + n, w.len, w.n); memcpy(b + n, w.b, w.n); n += w.n; }
    void wrap(int cls, bool cons, uint64_t tag) // puts a header in front of the contents
    {
        uint8_t h[16];
        size_t  k = ref::put_header(h, cls, cons, tag, n);
        for (size_t i = n; i-- > 0;) b[i + k] = b[i], len[i + k] = len[i];
        for (size_t i = 0; i < k; i++) b[i] = h[i], len[i] = i + 1 == k;
        n += k;
    }
};
enum Kind { INT, BOOL, OCT, NUL, ENUM, BITS, OID, REAL, TIME, SEQ, SET, CHO, OF };
struct Comp;
struct Tag { int cls; uint64_t num; };
struct Ty
{
    Kind        kind;
    int         ntags; // headers on the wire, outermost first
    Tag         tags[4];
    const Comp* comps;
    int         ncomps;
    bool        ext;
};
enum Pres { MAND, OPT, DEF };
struct Comp
{
    const Ty*      ty;
    Pres           pres;
    const uint8_t* def; // contents of the default value
    size_t         ndef;
};
// one deliberate fault somewhere in the encoding: the at-th place where it can be made
enum Fault { NOFAULT, MISTAG, DROP };
struct Damage { Fault kind = NOFAULT; int at = 0, n = 0; bool done = false; bool here(Fault k) { if (kind != k || n++ != at) return false; return done = true; } };
static Damage dmg;
inline bool named(const Ty& t, int cls, uint64_t tag);
inline bool structured(Kind k) { return k == SEQ || k == SET || k == OF; }
// choice: the CHOICE this is an alternative of; optional: the outermost identifier may be missing altogether
inline void put_headers(W& w, const Ty& t, const Ty* choice = nullptr, bool optional = false)
{
    for (int i = t.ntags; i-- > 0;)
    {
        int      cls = t.tags[i].cls;
        uint64_t num = t.tags[i].num;
        if ((i || !optional) && dmg.here(MISTAG))
        {
            uint64_t c = vf_range(0, 3, "other class"), k = vf_range(0, 30, "other tag");
            vf_assume(!((c == uint64_t(cls)) & (k == num)));
            if (!i && choice)
                for (int a = 0; a < choice->ncomps; a++) vf_assume(!named(*choice->comps[a].ty, int(c), k));
            W h;
            h.wrap(0, t.kind == CHO || structured(t.kind) || i + 1 < t.ntags, 0);
            w.wrap(0, false, 0); // one identifier octet, overwritten
            w.b[0] = uint8_t((h.b[0] & 0x20) | (c << 6) | k);
            continue;
        }
        w.wrap(cls, t.kind == CHO || structured(t.kind) || i + 1 < t.ntags, num);
    }
}
inline bool named(const Ty& t, int cls, uint64_t tag);
#ifndef OCT_LENS
#define OCT_LENS {0, 2}
#endif
#ifdef UNIFORM
enum { OFMAX = 1 };
#else
enum { OFMAX = 2 };
#endif
static bool concrete_leaves = false;
inline uint8_t leaf(const char* n)
{
    if (concrete_leaves) return 5;
    return vf_u8(n);
}
// one string of the value made long: the at-th, of n octets
struct Long { int at = -1, seen = 0; size_t n = 0; bool done = false; };
static Long lng;
// what to do with the components of the outermost collection
struct Plan
{
    int  drop    = -1;    // leave this mandatory component out
    int  dup     = -1;    // SET: component encoded twice
    bool shuffle = false; // SET: any order
    int  extra   = -1;    // position of an unknown element
    bool full    = false; // all optional components present
    bool minimal = false; // none of the optional components present (below the outermost level)
    bool fixed   = false; // no choices: lists of one element, strings of two characters, concrete leaf contents
    bool alts    = false; // ... except the alternative of a CHOICE
    bool no_def_value = true; // explicitly encoded default values excluded
};
void content(W& w, const Ty& t, int depth, const Plan& p, bool optional = false, const Ty* choice = nullptr);
inline void element(W& w, const Ty& t, int depth, const Plan& p = Plan{}, const Ty* choice = nullptr, bool optional = false)
{
    W c;
    content(c, t, depth, p, optional && !t.ntags, t.ntags ? nullptr : choice);
    put_headers(c, t, choice, optional);
    w.put(c);
}
inline void component(W& w, const Comp& c, int depth, const Plan& p)
{
    W x;
    content(x, *c.ty, depth - 1, p, c.pres != MAND && !c.ty->ntags);
    if (c.pres == DEF && p.no_def_value)
    {
        bool same = x.n == c.ndef;
        if (same)
        {
            for (size_t i = 0; i < x.n; i++) same = same & (x.b[i] == c.def[i]);
            if (p.fixed && same) return;
            vf_assume(!same);
        }
    }
    put_headers(x, *c.ty, nullptr, c.pres != MAND);
    w.put(x);
}
inline void content(W& w, const Ty& t, int depth, const Plan& p, bool optional, const Ty* choice)
{
    Plan below;
    below.minimal = p.minimal; below.full = p.full && p.fixed; below.fixed = p.fixed; below.alts = p.alts;
    struct Conc { bool old; Conc(bool f) : old(concrete_leaves) { concrete_leaves = f; } ~Conc() { concrete_leaves = old; } } conc(p.fixed);
    const bool one = p.minimal || p.fixed;
    switch (t.kind)
    {
    case INT: w.b[w.n++] = leaf("int"); return;
    case BOOL: w.b[w.n++] = (leaf("bool") & 1) ? 0xff : 0; return;
    case NUL: return;
    case ENUM: {
        uint8_t v = leaf("enum");
        vf_assume((v == 0) | (v == 5) | (v == 6));
        w.b[w.n++] = v;
        return;
    }
    case OCT: {
        static const size_t lens[] = OCT_LENS;
        if (lng.at == lng.seen++)
        {
            lng.done = true;
            for (size_t i = 0; i < lng.n; i++) w.b[w.n++] = i == 0 || i + 1 == lng.n ? leaf("octet") : uint8_t(i);
            return;
        }
        size_t n = lens[one ? 1 : vf_pick(0, sizeof(lens) / sizeof(lens[0]) - 1, "octets")];
        for (size_t i = 0; i < n; i++) w.b[w.n++] = i < 2 ? leaf("octet") : uint8_t(i);
        return;
    }
    case BITS: {
        size_t n = one ? 2 : vf_pick(0, 1, "bits") * 2;
        w.b[w.n++] = 0;
        for (size_t i = 0; i < n; i++) w.b[w.n++] = leaf("bits");
        if (n) { uint8_t u = leaf("unused bits"); vf_assume(u < 8); w.b[w.n - n - 1] = u; }
        return;
    }
    case OID:
        w.b[w.n++] = 0x2a;
        if (one || vf_pick(0, 1, "arc")) { uint8_t c = leaf("arc"); vf_assume(c < 0x80); w.b[w.n++] = c; }
        return;
    case REAL: // zero and the infinities
        if (one || vf_pick(0, 1, "special real")) w.b[w.n++] = uint8_t(0x40 | (leaf("special real") & 1));
        return;
    case TIME: {
        static const char text[] = "20240102030405Z";
        for (int i = 0; i < 15; i++) w.b[w.n++] = uint8_t(text[i]);
        if (!concrete_leaves) w.b[w.n - 2] = uint8_t('0' + vf_range(0, 9, "digit"));
        return;
    }
    case OF: {
        size_t n = one ? depth > 0 : vf_pick(0, depth > 0 ? OFMAX : 0, "elements");
        for (size_t i = 0; i < n; i++) element(w, *t.comps[0].ty, depth - 1, below);
        return;
    }
    case CHO: element(w, *t.comps[p.minimal || (p.fixed && !p.alts) ? (p.full ? t.ncomps - 1 : 0) : int(vf_pick(0, t.ncomps - 1, "alternative"))].ty, depth - 1, below, choice ? choice : &t, optional); return;
    case SEQ:
    case SET: {
        W       parts[MAXC];
        bool    present[MAXC];
#ifdef UNIFORM // all optional components or none
        int all = depth > 0 && !p.minimal ? p.full ? 1 : int(vf_pick(0, 1, "optional components")) : 0;
#endif
        for (int i = 0; i < t.ncomps; i++)
        {
            const Comp& c = t.comps[i];
            present[i] = c.pres == MAND ? i != p.drop && !dmg.here(DROP) : 
#ifdef UNIFORM
                all;
#else
                depth > 0 && !p.minimal && (p.full || vf_pick(0, 1, "present"));
#endif

            if (i == p.dup) present[i] = true;
            if (present[i]) component(parts[i], c, depth, below);
        }
        W extra;
        static const uint8_t unknown[] = {0x9f, 0x87, 0x00, 0x02, 0x11, 0x22};
        extra.put(unknown, 6);
        int order[MAXC + 2], n = 0;
        for (int i = 0; i < t.ncomps; i++)
            if (present[i]) order[n++] = i;
        if (p.dup >= 0) order[n++] = p.dup;
        if (p.extra >= 0)
        {
            int at = p.extra < n ? p.extra : n;
            for (int i = n; i > at; i--) order[i] = order[i - 1];
            order[at] = -1;
            n++;
        }
        if (p.shuffle)
            for (int i = 0; i + 1 < n; i++)
            {
                int j = i + int(vf_pick(0, n - 1 - i, "order"));
                int o = order[i]; order[i] = order[j]; order[j] = o;
            }
        for (int i = 0; i < n; i++)
            w.put(order[i] < 0 ? extra : parts[order[i]]);
        return;
    }
    }
}
inline bool named(const Ty& t, int cls, uint64_t tag)
{
    if (t.ntags) return (t.tags[0].cls == cls) & (t.tags[0].num == tag);
    bool any = false;
    for (int i = 0; i < t.ncomps; i++) any = any | named(*t.comps[i].ty, cls, tag);
    return any;
}
// ---- tables
#define C(x) (int)(sizeof(x) / sizeof(x[0]))
enum { U = 0, A = 1, X = 2, P = 3 };
#define LEAF(n, k, ...) const Ty n = {k, __VA_ARGS__, nullptr, 0, false}
#define ONE(c, t) 1, {{c, t}}
#define TWO(c, t, d, u) 2, {{c, t}, {d, u}}
#define NONE 0, {}
#define COLL(n, k, c, e, ...) static const Ty n = {k, __VA_ARGS__, c, C(c), e}
#ifdef GEN2
#include "gen2tab.h"
#else
#include "gentab.h"
#endif

// an arbitrary identifier: any class, construction and tag number below 2^21
inline void any_id(W& w, int& cls, uint64_t& tag)
{
    uint8_t lead = vf_u8("identifier");
    int     n    = int(vf_pick(0, 3, "long form"));
    cls          = lead >> 6;
    tag          = lead & 0x1f;
    if (!n) { vf_assume(tag != 0x1f); w.b[w.n++] = lead; return; }
    w.b[w.n++] = lead | 0x1f;
    tag        = 0;
    for (int i = 0; i < n; i++)
    {
        uint8_t o = vf_u8("tag number") & 0x7f;
        tag       = tag << 7 | o;
        w.b[w.n++] = i + 1 < n ? o | 0x80 : o;
    }
    vf_assume((tag >= 31) & (n == 1 || tag >> (7 * (n - 1))));
}
// encodes v into a buffer of exactly the announced size plus slack
template <typename T> bool enc(const T& v, W& w)
{
    size_t n = v.encoded_length();
    if (n > WMAX) return false;
    EncodeResult r = fast_ber::encode(absl::Span<uint8_t>(w.b, n), v);
    w.n = r.length;
    return r.success && r.length == n;
}
inline bool same(const W& a, const W& b)
{
    bool e = a.n == b.n;
    if (!e) return false;
    for (size_t i = 0; i < a.n; i++) e = e & (a.b[i] == b.b[i]);
    return e;
}
template <typename T> bool dec(const W& w, T& v)
{
    // exactly sized copy: reads past the end are reported
    uint8_t* p = new uint8_t[w.n];
    for (size_t i = 0; i < w.n; i++) p[i] = w.b[i];
    DecodeResult r = fast_ber::decode(absl::Span<const uint8_t>(p, w.n), v);
    delete[] p;
    return r.success;
}
} // namespace g
