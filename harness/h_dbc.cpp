// Concurrent database histories under a controlled schedule.
// {"id":..,"init":[ops],"threads":[[ops],..],"probes":[[t,a],..],"limit":n,"seed":s}
// Every distinct history (order of invocations and returns, with outcomes) found within the
// limit is recorded; histories are separated by {"e":"reset"}.
#include <random>
#include <set>
#include "db_ops.h"
#include "ctl_sched.h"

using hx::json;

// The library is compiled with -finstrument-functions: in the fine-grained phase, threads are also
// interrupted where functions are entered and left, with probability 1 / fine
namespace
{
long fine = 0;
uint64_t fine_state = 1;
}
extern "C" __attribute__((no_instrument_function)) void preempt()
{
    if (!fine || !dbops::in_lib || !sched::t_sched) return;
    fine_state = fine_state * 6364136223846793005ULL + 1442695040888963407ULL;
    if ((fine_state >> 33) % fine == 0) sched::Scheduler::yield();
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*) { preempt(); }
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) { preempt(); }

int main()
{
    sched::Scheduler scheduler(4);
    return hx::main_loop([&](const json& sc) {
        std::mt19937 rnd(sc.value("seed", 1));
        const long limit = sc["limit"];
        const long fine_runs = sc.value("fine", 0);
        bool exhausted = false;
        std::vector<int> prefix;
        std::set<std::string> seen;
        for (long n = 0; n < limit + fine_runs; ++n)
        {
            auto db = std::make_shared<modbus::InMemoryDatabase>();
            std::vector<json> log;
            for (auto& op : sc["init"]) log.push_back(json{{"e", "seq"}, {"op", dbops::apply_db(*db, op)}});
            std::vector<std::function<void()>> jobs;
            int t = 0;
            for (auto& ops : sc["threads"])
            {
                ++t;
                jobs.push_back([&, t, ops]() {
                    for (auto& op : ops)
                    {
                        sched::Scheduler::yield();
                        auto k = log.size();
                        log.push_back(json{{"e", "inv"}, {"th", t}, {"op", nullptr}});
                        auto res = dbops::apply_db(*db, op, []() { sched::Scheduler::yield(); });
                        log[k]["op"] = res;
                        log.push_back(json{{"e", "ret"}, {"th", t}});
                    }
                });
            }
            // the first part of the budget enumerates schedules in depth-first order, the rest is random
            if (exhausted && n < limit) n = limit;
            if (n >= limit + fine_runs) break;
            bool random_phase = n > limit / 2;
            static const long odds[] = {7, 30, 120, 500};
            fine = n >= limit ? odds[(n - limit) % 4] : 0;
            fine_state = (sc.value("seed", 1) + 1) * 1000003ULL + n;
            auto r = scheduler.run(jobs, random_phase ? std::vector<int>{} : prefix,
                                   [&](int k) { return random_phase ? (int)(rnd() % k) : 0; });
            fine = 0;
            if (r.deadlock)
            {
                for (auto& e : log)
                    if (!(e["e"] == "inv" && e["op"].is_null())) hx::emit(e);
                hx::emit(json{{"e", "deadlock"}});
                fflush(stdout);
                _exit(4);
            }
            log.push_back(json{{"e", "seq"}, {"op", dbops::apply_db(*db, json{{"e", "snap"}, {"p", sc["probes"]}})}});
            std::string key;
            for (auto& e : log) key += e.dump();
            if (seen.insert(key).second)
            {
                if (seen.size() > 1) hx::emit(json{{"e", "reset"}});
                for (auto& e : log) hx::emit(e);
            }
            if (!random_phase)
            {
                // next schedule: bump the last choice that has an alternative left
                prefix = r.choice;
                while (!prefix.empty() && prefix.back() + 1 >= r.alts[prefix.size() - 1]) prefix.pop_back();
                if (prefix.empty()) { exhausted = true; continue; }
                ++prefix.back();
            }
        }
    }, 60);
}
