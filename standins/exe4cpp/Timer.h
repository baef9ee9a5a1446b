#ifndef EXE4CPP_TIMER_H
#define EXE4CPP_TIMER_H
// Stand-in for exe4cpp (see ../README.md)
#include <memory>
#include "exe4cpp/ITimer.h"

namespace exe4cpp
{
class Timer
{
public:
    Timer() = default;
    Timer(std::nullptr_t) {}
    explicit Timer(const std::shared_ptr<ITimer>& timer) : m_timer{timer} {}

    bool is_active() const { return m_timer != nullptr; }
    operator bool() const { return is_active(); }
    bool cancel()
    {
        if (m_timer)
        {
            m_timer->cancel();
            m_timer.reset();
            return true;
        }
        return false;
    }
    steady_time_t expires_at() const { return m_timer ? m_timer->expires_at() : steady_time_t::min(); }

private:
    std::shared_ptr<ITimer> m_timer;
};
} // namespace exe4cpp

#endif
