// A manager with its own threads: client channels, a server channel and a database over loopback, used by several
// application threads. {"id":..,"threads":n,"db":[cells],"max":n,"clients":[{"ops":[[ops],..]},..],"ops":[..]}
// The order of the events is the order in which they happened; a request is recorded before it is submitted, its
// completion when its handler runs.
#include <condition_variable>
#include <mutex>
#include <thread>
#include <unistd.h>
#include "hx.h"
#include "wire.h"
#include "e2e.h"
#include <asio.hpp>
#include "modbus/IModbusManager.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/server/db/InMemoryDatabase.h"

using namespace modbus;
using hx::json;
using std::chrono::milliseconds;

namespace
{
std::mutex mutex;
std::condition_variable changed;
int open_requests = 0;

void record(const json& e)
{
    hx::emit(e);
}

int free_port(const char* ip)
{
    asio::io_context io;
    asio::ip::tcp::acceptor a(io, asio::ip::tcp::endpoint(asio::ip::make_address(ip), 0));
    return a.local_endpoint().port();
}

struct App
{
    std::shared_ptr<IClientChannel> channel;
    std::map<int, std::shared_ptr<IClientSession>> sessions;
};

void submit(App& app, int c, const json& o)
{
    std::unique_lock<std::mutex> l(mutex);
    int k = o["k"], u = o["u"];
    record({{"e", "sub"}, {"c", c}, {"k", k}, {"u", u}, {"rq", o["rq"]}, {"tmo", o.value("tmo", 60000)}});
    ++open_requests;
    wire::with_request(o["rq"], [&](auto& r) {
        using R = typename wire::ResponseOf<typename std::decay<decltype(r)>::type>::type;
        app.sessions.at(u)->send_request(r, milliseconds(o.value("tmo", 60000)), [&app, c, k, o](const Expected<R>& r) {
            {
                std::unique_lock<std::mutex> l(mutex);
                record({{"e", "done"}, {"k", k}, {"r", wire::result(r)}});
            }
            if (o.contains("on"))
                for (auto& x : o["on"]) submit(app, c, x);
            {
                std::unique_lock<std::mutex> l(mutex);
                --open_requests;
            }
            changed.notify_all();
        });
    });
}
void quiet()
{
    std::unique_lock<std::mutex> l(mutex);
    changed.wait(l, [] { return open_requests == 0; });
}
} // namespace

int main()
{
    char ip[32];
    snprintf(ip, sizeof ip, "127.%d.%d.3", 1 + (getpid() >> 8 & 127), getpid() & 255);
    return hx::main_loop([&](const json& sc) {
        open_requests = 0;
        auto manager = IModbusManager::create(LoggerFactory::create_null_logger("t"), sc["threads"].get<int>());
        auto db = std::make_shared<InMemoryDatabase>();
        for (auto& a : sc["db"])
        {
            e2e::add(*db, a);
            record({{"e", "add"}, {"t", a["t"]}, {"a", a["a"]}, {"v", a["v"]}});
        }
        int port = free_port(ip);
        auto server = manager->create_server_tcp_channel("s", Ipv4Endpoint{ip, (uint16_t)port}, sc.value("max", 16));
        for (int u = 1; u <= 2; ++u) server->add_session(UnitIdentifier{(uint8_t)u}, db);
        server->start();
        std::vector<App> apps(sc["clients"].size());
        std::vector<std::thread> threads;
        std::vector<std::shared_ptr<IScheduledRequest>> polls;
        for (std::size_t i = 0; i < apps.size(); ++i)
        {
            apps[i].channel = manager->create_client_tcp_channel("c", Ipv4Endpoint{ip, (uint16_t)port}, "");
            for (int u = 1; u <= 2; ++u) apps[i].sessions[u] = apps[i].channel->create_session(UnitIdentifier{(uint8_t)u}, milliseconds(60000));
        }
        for (auto& p : sc.value("polls", json::array()))
        {
            auto r = apps[p["c"].get<int>() - 1].sessions[1]->schedule_request(ReadHoldingRegistersRequest{(uint16_t)p["a"].get<int>(), 1}, milliseconds(p["ms"].get<int>()),
                [](const Expected<ReadHoldingRegistersResponse>&) { std::unique_lock<std::mutex> l(mutex); record({{"e", "poll"}}); });
            r->start();
            polls.push_back(r);
        }
        for (std::size_t i = 0; i < apps.size(); ++i)
            for (auto& ops : sc["clients"][i]["ops"])
                threads.emplace_back([&, i, ops]() {
                    for (auto& o : ops)
                    {
                        const std::string op = o["o"];
                        if (op == "sub") submit(apps[i], (int)i + 1, o);
                        else if (op == "snap")
                        {
                            std::unique_lock<std::mutex> l(mutex);
                            record({{"e", "snap"}, {"p", e2e::snap(*db, o["p"])}});
                        }
                        else if (op == "add")
                        {
                            std::unique_lock<std::mutex> l(mutex);
                            record({{"e", "add"}, {"t", o["t"]}, {"a", o["a"]}, {"v", o["v"]}});
                            e2e::add(*db, o);
                        }
                        else if (op == "wait") usleep(o["us"].get<int>());
                    }
                });
        if (sc.value("cut", 0))
        {
            usleep(sc["cut"].get<int>());
            {
                std::unique_lock<std::mutex> l(mutex);
                record({{"e", "mshut"}});
            }
            manager->shutdown();
            {
                // nothing is reported any more, and nothing happens
                std::unique_lock<std::mutex> l(mutex);
                record({{"e", "down"}});
            }
            for (auto& t : threads) t.join();
            if (sc.value("snap", 1)) { std::unique_lock<std::mutex> l(mutex); record({{"e", "snap"}, {"p", e2e::snap(*db, sc["probes"])}}); }
            usleep(2000);
            manager.reset();
            std::unique_lock<std::mutex> l(mutex);
            record({{"e", "snap"}, {"p", e2e::snap(*db, sc["probes"])}});
        }
        else
        {
            for (auto& t : threads) t.join();
            quiet();
            for (auto& p : polls) p->stop();
            std::unique_lock<std::mutex> l(mutex);
            record({{"e", "snap"}, {"p", e2e::snap(*db, sc["probes"])}});
            record({{"e", "end"}});
            l.unlock();
            manager.reset();
        }
    });
}
