// Controlled scheduler: worker threads of the code under test run one at a time; at every
// mutex / rwlock operation and at explicit yields the harness decides who continues.
// The pthread locking functions are interposed (std::mutex, std::shared_mutex,
// std::recursive_mutex all end up there).
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <functional>
#include <pthread.h>
#include <semaphore.h>
#include <stdexcept>
#include <time.h>
#include <thread>
#include <vector>

namespace sched
{
struct Deadlock : std::runtime_error { Deadlock() : std::runtime_error("deadlock") {} };

enum class St { Idle, Ready, Blocked, Done };

struct Worker
{
    sem_t go;
    St st = St::Idle;
    void* waiting = nullptr;
    std::function<void()> job;
    std::thread th;
};

class Scheduler
{
public:
    explicit Scheduler(int n) : m_workers(n)
    {
        sem_init(&m_back, 0, 0);
        for (int i = 0; i < n; ++i)
        {
            sem_init(&m_workers[i].go, 0, 0);
            m_workers[i].th = std::thread([this, i]() { loop(i); });
            m_workers[i].th.detach();
        }
    }

    // Runs the jobs under the given schedule prefix (choice indices); returns the number of
    // alternatives at each choice point and the choices made.
    struct Run { std::vector<int> alts, choice; bool deadlock = false; };
    Run run(std::vector<std::function<void()>> jobs, const std::vector<int>& prefix, const std::function<int(int)>& pick)
    {
        Run r;
        m_n = (int)jobs.size();
        for (int i = 0; i < m_n; ++i)
        {
            m_workers[i].job = std::move(jobs[i]);
            m_workers[i].st = St::Ready;
        }
        for (;;)
        {
            std::vector<int> ready;
            bool done = true;
            for (int i = 0; i < m_n; ++i)
            {
                if (m_workers[i].st == St::Ready) ready.push_back(i);
                if (m_workers[i].st != St::Done) done = false;
            }
            if (done) break;
            if (ready.empty()) { r.deadlock = true; return r; }
            int c = 0;
            if (ready.size() > 1)
            {
                std::size_t k = r.choice.size();
                c = k < prefix.size() ? prefix[k] : pick((int)ready.size());
                r.choice.push_back(c);
                r.alts.push_back((int)ready.size());
            }
            sem_post(&m_workers[ready[c]].go);
            wait(&m_back);
        }
        return r;
    }

    // called from workers
    static void yield();
    void yield_as(int i, St st)
    {
        m_workers[i].st = st;
        sem_post(&m_back);
        wait(&m_workers[i].go);
        m_workers[i].st = St::Ready;
    }
    void released(void* m)
    {
        for (int i = 0; i < m_n; ++i)
            if (m_workers[i].st == St::Blocked && m_workers[i].waiting == m) m_workers[i].st = St::Ready;
    }
    void block(int i, void* m)
    {
        m_workers[i].waiting = m;
        yield_as(i, St::Blocked);
    }

private:
    static void wait(sem_t* s) { while (sem_wait(s) != 0) {} }
    void loop(int i);

    std::vector<Worker> m_workers;
    sem_t m_back;
    int m_n = 0;
};

inline thread_local int t_id = -1;
inline thread_local Scheduler* t_sched = nullptr;

inline void Scheduler::loop(int i)
{
    for (;;)
    {
        wait(&m_workers[i].go);
        t_id = i;
        t_sched = this;
        m_workers[i].job();
        t_id = -1;
        t_sched = nullptr;
        m_workers[i].job = nullptr;
        m_workers[i].st = St::Done;
        sem_post(&m_back);
    }
}
inline void Scheduler::yield()
{
    if (t_sched) t_sched->yield_as(t_id, St::Ready);
}

template <typename F> F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
template <typename Try> int controlled_lock(void* m, Try try_lock)
{
    auto s = t_sched;
    auto i = t_id;
    s->yield_as(i, St::Ready);
    for (;;)
    {
        int r = try_lock();
        if (r != EBUSY) return r;
        s->block(i, m);
    }
}
inline int controlled_unlock(void* m, int r)
{
    t_sched->released(m);
    t_sched->yield_as(t_id, St::Ready);
    return r;
}
} // namespace sched
