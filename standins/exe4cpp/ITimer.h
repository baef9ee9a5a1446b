#ifndef EXE4CPP_ITIMER_H
#define EXE4CPP_ITIMER_H
// Stand-in for exe4cpp (see ../README.md)
#include "exe4cpp/Typedefs.h"

namespace exe4cpp
{
class ITimer
{
public:
    virtual ~ITimer() = default;
    // A callback that is already on its way when cancel() is called still runs
    virtual void cancel() = 0;
    virtual steady_time_t expires_at() = 0;
};
} // namespace exe4cpp

#endif
