#ifndef EXE4CPP_MOCKEXECUTOR_H
#define EXE4CPP_MOCKEXECUTOR_H
// Stand-in for exe4cpp (see ../README.md)
#include <deque>
#include <list>
#include <memory>
#include "exe4cpp/IExecutor.h"

namespace exe4cpp
{
// Single-threaded executor with virtual time: a FIFO of posted actions, and timers whose
// actions join the FIFO once time has reached them.
class MockExecutor : public IExecutor
{
    class MockTimer : public ITimer
    {
    public:
        MockTimer(MockExecutor* source, steady_time_t time, action_t action, uint64_t seq)
            : m_time{time}, m_action{std::move(action)}, m_seq{seq}, m_source{source} {}
        void cancel() override { m_source->cancel(this); }
        steady_time_t expires_at() override { return m_time; }
        steady_time_t m_time;
        action_t m_action;
        uint64_t m_seq;
    private:
        MockExecutor* m_source;
    };

public:
    MockExecutor() = default;
    MockExecutor(const MockExecutor&) = delete;

    bool run_one()
    {
        check_for_expired_timers();
        if (m_post_queue.empty()) return false;
        auto action = std::move(m_post_queue.front());
        m_post_queue.pop_front();
        action();
        return true;
    }

    size_t run_many(size_t maximum = 200)
    {
        size_t num = 0;
        while (num < maximum && run_one()) ++num;
        return num;
    }

    size_t advance_time(duration_t duration)
    {
        m_now += duration;
        return check_for_expired_timers();
    }

    void add_time(duration_t duration) { m_now += duration; }
    size_t num_pending_timers() const { return m_timers.size(); }
    size_t num_active() const { return m_post_queue.size(); }

    // Next expiry among the pending timers (max() when there is none)
    steady_time_t next_timer_expiration_abs() const
    {
        auto t = steady_time_t::max();
        for (auto& m : m_timers) t = std::min(t, m->m_time);
        return t;
    }

    steady_time_t get_time() override { return m_now; }
    Timer start(const duration_t& duration, const action_t& action) override { return start(m_now + duration, action); }
    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        auto t = std::make_shared<MockTimer>(this, expiration, action, m_seq++);
        m_timers.push_back(t);
        return Timer(t);
    }
    void post(const action_t& action) override { m_post_queue.push_back(action); }

    // Moves the actions of the expired timers to the FIFO, oldest expiry first
    size_t check_for_expired_timers()
    {
        size_t n = 0;
        for (;;)
        {
            auto best = m_timers.end();
            for (auto it = m_timers.begin(); it != m_timers.end(); ++it)
            {
                if ((*it)->m_time <= m_now && (best == m_timers.end() || (*it)->m_time < (*best)->m_time)) best = it;
            }
            if (best == m_timers.end()) return n;
            auto t = *best;
            m_timers.erase(best);
            m_post_queue.push_back(t->m_action);
            ++n;
        }
    }

private:
    void cancel(ITimer* timer)
    {
        for (auto it = m_timers.begin(); it != m_timers.end(); ++it)
        {
            if (it->get() == timer)
            {
                m_timers.erase(it);
                return;
            }
        }
    }

    steady_time_t m_now{};
    uint64_t m_seq = 0;
    std::deque<action_t> m_post_queue;
    std::list<std::shared_ptr<MockTimer>> m_timers;
};
} // namespace exe4cpp

#endif
