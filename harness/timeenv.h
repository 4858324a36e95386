// absl's FormatTime/ParseTime replaced (here and in the native replay): the epoch is rendered exactly, any other time as
// arbitrary digits; parsing accepts exactly the requested shape and is a function of the digits.
#pragma once
#include "vf.h"
#include "absl/time/time.h"
namespace absl { ABSL_NAMESPACE_BEGIN
std::string FormatTime(absl::string_view f, absl::Time t, absl::TimeZone)
{
    bool    z = f.size() && f.back() == 'Z';
    uint8_t d[14];
    if (t == absl::UnixEpoch()) memcpy(d, "19700101000000", 14);
    else
    {
        vf_bytes(d, 14, "digits");
        for (int i = 0; i < 14; i++) vf_assume((d[i] >= '0') & (d[i] <= '9'));
    }
    return std::string(reinterpret_cast<char*>(d), 14) + (z ? "Z" : "");
}
bool ParseTime(absl::string_view f, absl::string_view in, absl::TimeZone, absl::Time* t, std::string* err)
{
    bool z  = f.size() && f.back() == 'Z';
    bool ok = in.size() == (z ? 15 : 14);
    for (size_t i = 0; i < 14 && i < in.size(); i++) ok = ok & (in[i] >= '0') & (in[i] <= '9');
    if (ok && z) ok = in[14] == 'Z';
    if (!ok) { *err = "bad"; return false; }
    int64_t v = 0;
    for (size_t i = 0; i < 14; i++) v = (v << 4) | (in[i] & 15);
    *t = absl::FromUnixSeconds(v);
    return true;
}
ABSL_NAMESPACE_END
}
