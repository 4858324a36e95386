// absl time zone pieces for the symbolic executor: every zone is UTC-like, civil times map to an arbitrary instant
#include "absl/time/time.h"
namespace absl { ABSL_NAMESPACE_BEGIN
namespace time_internal { namespace cctz { time_zone local_time_zone() { return time_zone(); } time_zone utc_time_zone() { return time_zone(); } } }
TimeZone::TimeInfo TimeZone::At(CivilSecond cs) const
{
    TimeInfo i;
    i.kind = TimeInfo::UNIQUE;
    i.pre = i.trans = i.post = FromUnixSeconds(cs.second() + 60 * cs.minute());
    return i;
}
ABSL_NAMESPACE_END }
