#ifndef EXE4CPP_THREADPOOL_H
#define EXE4CPP_THREADPOOL_H
// Stand-in for exe4cpp (see ../../README.md)
#include <functional>
#include <memory>
#include <thread>
#include <vector>

#include <asio.hpp>

#include "exe4cpp/Typedefs.h"
#include "exe4cpp/asio/StrandExecutor.h"

namespace exe4cpp
{

class ThreadPool final
{
public:
    using thread_init_t = std::function<void(uint32_t)>;

    ThreadPool(const std::shared_ptr<asio::io_service>& context, uint32_t concurrency,
               thread_init_t on_thread_start = [](uint32_t) {}, thread_init_t on_thread_exit = [](uint32_t) {})
        : m_context{context}, m_guard{std::make_unique<guard_t>(context->get_executor())}
    {
        if (sim::registry().manual)
        {
            sim::registry().contexts.push_back(context);
            return;
        }
        if (concurrency == 0) concurrency = 1;
        for (uint32_t i = 0; i < concurrency; ++i)
        {
            m_threads.emplace_back([context, i, on_thread_start, on_thread_exit]() {
                on_thread_start(i);
                context->run();
                on_thread_exit(i);
            });
        }
    }

    ThreadPool(const ThreadPool&) = delete;
    ~ThreadPool() { shutdown(); }

    // Lets the work that remains finish, and joins the threads
    void shutdown()
    {
        if (m_is_shutdown) return;
        m_is_shutdown = true;
        m_guard.reset();
        for (auto& t : m_threads) t.join();
    }

    std::shared_ptr<asio::io_service> get_context() { return m_context; }

private:
    using guard_t = asio::executor_work_guard<asio::io_service::executor_type>;
    std::shared_ptr<asio::io_service> m_context;
    std::unique_ptr<guard_t> m_guard;
    std::vector<std::thread> m_threads;
    bool m_is_shutdown = false;
};

} // namespace exe4cpp

#endif
