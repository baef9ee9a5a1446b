#ifndef EXE4CPP_ISTEADYTIMESOURCE_H
#define EXE4CPP_ISTEADYTIMESOURCE_H
// Stand-in for exe4cpp (see ../README.md)
#include "exe4cpp/Typedefs.h"

namespace exe4cpp
{
class ISteadyTimeSource
{
public:
    virtual ~ISteadyTimeSource() = default;
    virtual steady_time_t get_time() = 0;
};
} // namespace exe4cpp

#endif
