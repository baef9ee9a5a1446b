#ifndef EXE4CPP_STRANDEXECUTOR_H
#define EXE4CPP_STRANDEXECUTOR_H
// Stand-in for exe4cpp (see ../../README.md)
#include <memory>
#include <tuple>
#include <utility>
#include <vector>

#include <asio.hpp>

#include "exe4cpp/IExecutor.h"
#include "exe4cpp/MockExecutor.h"

namespace exe4cpp
{

namespace sim
{
// Manual mode, for the harnesses: set before the first executor or thread pool is created.
struct Registry
{
    bool manual = false;
    std::vector<std::weak_ptr<MockExecutor>> executors;
    std::vector<std::weak_ptr<asio::io_service>> contexts;
};
inline Registry& registry()
{
    static Registry r;
    return r;
}
} // namespace sim

class StrandExecutor final : public IExecutor, public std::enable_shared_from_this<StrandExecutor>
{
    class AsioTimer final : public ITimer
    {
    public:
        explicit AsioTimer(asio::io_service& ctx) : impl{ctx} {}
        void cancel() override { impl.cancel(); }
        steady_time_t expires_at() override { return impl.expiry(); }
        asio::steady_timer impl;
    };

public:
    // Runs the handler on the executor
    template <typename H> struct Wrapped
    {
        using executor_type = asio::any_io_executor;
        std::shared_ptr<StrandExecutor> owner;
        H handler;

        executor_type get_executor() const
        {
            if (owner->m_manual) return owner->m_context->get_executor();
            return owner->m_strand;
        }
        template <typename... Args> void operator()(Args&&... args)
        {
            if (owner->m_manual)
            {
                auto h = std::make_shared<H>(std::move(handler));
                auto t = std::make_shared<std::tuple<typename std::decay<Args>::type...>>(std::forward<Args>(args)...);
                owner->m_manual->post([h, t]() { std::apply(*h, *t); });
            }
            else
            {
                handler(std::forward<Args>(args)...);
            }
        }
    };

    explicit StrandExecutor(const std::shared_ptr<asio::io_service>& context)
        : m_context{context}, m_strand{context->get_executor()}
    {
        if (sim::registry().manual)
        {
            m_manual = std::make_shared<MockExecutor>();
            sim::registry().executors.push_back(m_manual);
        }
    }

    static std::shared_ptr<StrandExecutor> create(const std::shared_ptr<asio::io_service>& context)
    {
        return std::make_shared<StrandExecutor>(context);
    }

    std::shared_ptr<StrandExecutor> fork() { return create(m_context); }

    Timer start(const duration_t& duration, const action_t& action) override
    {
        return start(get_time() + duration, action);
    }

    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        if (m_manual) return m_manual->start(expiration, action);
        auto timer = std::make_shared<AsioTimer>(*m_context);
        timer->impl.expires_at(expiration);
        auto callback = [timer, action, self = shared_from_this()](const std::error_code& ec) {
            if (!ec) action();
        };
        timer->impl.async_wait(asio::bind_executor(m_strand, callback));
        return Timer(timer);
    }

    void post(const action_t& action) override
    {
        if (m_manual) { m_manual->post(action); return; }
        asio::post(m_strand, [action, self = shared_from_this()]() { action(); });
    }

    steady_time_t get_time() override
    {
        return m_manual ? m_manual->get_time() : std::chrono::steady_clock::now();
    }

    template <typename H> Wrapped<typename std::decay<H>::type> wrap(H&& handler)
    {
        return Wrapped<typename std::decay<H>::type>{shared_from_this(), std::forward<H>(handler)};
    }

    std::shared_ptr<asio::io_service> get_context() { return m_context; }
    const std::shared_ptr<asio::io_service>& get_service() const { return m_context; }

private:
    std::shared_ptr<asio::io_service> m_context;
    asio::strand<asio::io_service::executor_type> m_strand;
    std::shared_ptr<MockExecutor> m_manual;
};

} // namespace exe4cpp

#endif
