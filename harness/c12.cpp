// C12 GeneralizedTime.  absl's FormatTime/ParseTime are replaced (here and in the native replay) by an environment
// which renders a time point as arbitrary but fixed digits in the shape the format string asks for, and parses
// exactly texts of the shape the format string asks for.
#include "common.h"
#include "absl/time/time.h"
static uint8_t digits[14];
static bool    known_time;
static absl::Time rendered;
static bool shape(absl::string_view f, bool& z)
{
    z = f == "%E4Y%m%d%H%M%SZ";
    return z || f == "%E4Y%m%d%H%M%S";
}
namespace absl { ABSL_NAMESPACE_BEGIN
std::string FormatTime(absl::string_view f, absl::Time t, absl::TimeZone)
{
    bool z;
    vf_check(shape(f, z), "time format string is the GeneralizedTime one");
    if (!known_time)
    {
        vf_bytes(digits, 14, "digits");
        for (int i = 0; i < 14; i++) vf_assume(digits[i] >= '0' && digits[i] <= '9');
    }
    known_time = true;
    rendered   = t;
    return std::string(reinterpret_cast<char*>(digits), 14) + (z ? "Z" : "");
}
bool ParseTime(absl::string_view f, absl::string_view in, absl::TimeZone, absl::Time* t, std::string* err)
{
    bool z;
    vf_check(shape(f, z), "time format string is the GeneralizedTime one");
    bool ok = in.size() == (z ? 15 : 14);
    for (size_t i = 0; i < 14 && i < in.size(); i++) ok = ok & (in[i] >= '0') & (in[i] <= '9');
    if (ok && z) ok = in[14] == 'Z';
    if (!ok) { *err = "bad"; return false; }
    bool same = known_time;
    for (size_t i = 0; i < 14; i++) same = same & (uint8_t(in[i]) == digits[i]);
    *t = same ? rendered : absl::UnixEpoch();
    return true;
}
ABSL_NAMESPACE_END
}
using F = GeneralizedTime<>::TimeFormat;
template <typename T> static void text_is(const T& g, const char* tail, const uint8_t* d = digits)
{
    std::string s = g.string();
    size_t      k = strlen(tail);
    CHECK(s.size() == 14 + k);
    bool e = true;
    for (size_t i = 0; i < 14; i++) e = e & (uint8_t(s[i]) == d[i]);
    for (size_t i = 0; i < k; i++) e = e & (s[14 + i] == tail[i]);
    vf_check(e, "text is the rendered time");
}
static absl::Time some_time()
{
    int64_t sec = int64_t(vf_u64("time"));
    vf_assume(sec > -62135596800 && sec < 253402300800);
    return absl::FromUnixSeconds(sec);
}
template <typename I> static void set_one(I)
{
    known_time = false;
    GeneralizedTime<I> g;
    uint8_t tlv[64], content[32];
    switch (vf_pick(0, 2, "how"))
    {
    case 0: {
        known_time   = false;
        absl::Time t = some_time();
        g.set_time(t);
        text_is(g, "Z");
        CHECK(g.format() == GeneralizedTime<I>::TimeFormat::universal);
        CHECK(g.time() == t);
        vf_cover("universal");
        break;
    }
    case 1: {
        known_time   = false;
        absl::Time t = some_time();
        int off      = int(uint32_t(vf_range(0, 2878, "offset"))) - 1439;
        g.set_time(t, off);
        int  m       = off < 0 ? -off : off;
        char tail[6] = {off < 0 ? '-' : '+', char('0' + m / 600), char('0' + m / 60 % 10), char('0' + m % 60 / 10), char('0' + m % 10), 0};
        std::string s = g.string();
        CHECK(s.size() == 19);
        bool e = true;
        for (size_t i = 0; i < 14; i++) e = e & (uint8_t(s[i]) == digits[i]);
        for (size_t i = 0; i < 5; i++) e = e & (s[14 + i] == tail[i]);
        vf_check(e, "text is the rendered time and the offset digits");
        CHECK(g.format() == GeneralizedTime<I>::TimeFormat::universal_with_timezone);
        CHECK(g.time() == t);
        vf_cover("with offset");
        break;
    }
    default: {
        known_time = false;
        g.set_time(absl::CivilSecond(2020, 2, 29, 1, 2, 3));
        text_is(g, "");
        CHECK(g.format() == GeneralizedTime<I>::TimeFormat::local);
        vf_cover("local");
    }
    }
    std::string s = g.string();
    size_t n = put_wrapped(tlv, I{}, false, reinterpret_cast<const uint8_t*>(s.data()), s.size());
    check_encode(g, tlv, n, n - vf_pick(0, 1, "short"));
    GeneralizedTime<I> h;
    CHECK(fast_ber::decode(absl::Span<const uint8_t>(tlv, n), h).success);
    CHECK(h.string() == s && int(h.format()) == int(g.format()));
    CHECK(h.time() == g.time() && h == g);
    (void)content;
}
extern "C" void vf_time_set_u() { set_one(IdUniv<UniversalTag::generalized_time>{}); }
extern "C" void vf_time_set_d() { set_one(IdDouble<UniversalTag::generalized_time>{}); }
// any content under the right identifier
#ifndef NT
#define NT 24
#endif
template <typename T> static void inspect(const T& g)
{
    std::string s = g.string();
    int         f = int(g.format());
    CHECK(f >= 0 && f <= 2);
    try { (void)g.time(); vf_cover("time read"); }
    catch (const std::exception&) { vf_cover("time refused"); }
}
template <typename I> static void content(I)
{
    size_t  n = vf_pick(0, NT, "n");
    uint8_t c[NT], tlv[64];
    vf_bytes(c, n, "content");
    size_t k = put_wrapped(tlv, I{}, false, c, n);
    GeneralizedTime<I> g;
    if (vf_pick(0, 1, "target")) g.set_time(absl::UnixEpoch(), 60);
    bool ok = g.decode(BerView(absl::Span<const uint8_t>(tlv, k))).success;
    inspect(g);
    GeneralizedTime<I> copy(g), made{BerView(absl::Span<const uint8_t>(tlv, k))};
    inspect(made);
    CHECK(copy.string() == g.string());
    if (!ok) { vf_cover("refused"); return; }
    vf_cover("accepted");
    std::string s = g.string();
    CHECK(s.size() == n);
    bool e = true;
    for (size_t i = 0; i < n; i++) e = e & (uint8_t(s[i]) == c[i]);
    vf_check(e, "text is the decoded content");
    F want = n && c[n - 1] == 'Z' ? F::universal : n >= 5 && (c[n - 5] == '+' || c[n - 5] == '-') ? F::universal_with_timezone : F::local;
    CHECK(int(g.format()) == int(want));
    check_encode(g, tlv, k, k);
}
extern "C" void vf_time_content_u() { content(IdUniv<UniversalTag::generalized_time>{}); }
extern "C" void vf_time_content_d() { content(IdDouble<UniversalTag::generalized_time>{}); }
extern "C" void vf_time_foreign()
{
    size_t n = vf_pick(0, 6, "n");
    if (n > 4) n += 7;
    Buf    b(n);
    sym(b, "in");
    ref::Tlv r = ref::parse(b.p, n);
    GeneralizedTime<> g;
    bool ok = fast_ber::decode(b.cspan(), g).success;
    if (ok) { CHECK(r.ok && r.cls == 0 && r.tag == 24 && !r.cons); vf_cover("accepted"); }
    else vf_cover("refused");
    inspect(g);
    GeneralizedTime<> h(BerView(b.cspan()));
    inspect(h);
}
