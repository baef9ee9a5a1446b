// Client and server channels of a real manager over real loopback connections, stepped by one thread: executors and
// the I/O context run only when the scenario says so, and the peers are plain sockets.
#include <map>
#include <set>
#include "hx.h"
#include "wire.h"
#include "netctl.h"
#include "e2e.h"
#include <asio.hpp>
#include "exe4cpp/asio/StrandExecutor.h"
#include "exe4cpp/asio/ThreadPool.h"
#include "modbus/IModbusManager.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/server/db/InMemoryDatabase.h"

using namespace modbus;
using hx::emit;
using hx::json;
using std::chrono::milliseconds;

namespace
{
struct Fd
{
    int fd = -1;
    Fd() = default;
    explicit Fd(int f) : fd(f) {}
    Fd(const Fd&) = delete;
    Fd(Fd&& o) noexcept : fd(o.fd) { o.fd = -1; }
    Fd& operator=(Fd&& o) noexcept { reset(); fd = o.fd; o.fd = -1; return *this; }
    ~Fd() { reset(); }
    void reset() { if (fd >= 0) net::real().close(fd); fd = -1; }
};

struct Peer
{
    Fd s;
    int port = 0;              // our own port
    bool stalled = false, ended = false, closed = false;
    int c = 0;                 // the client channel it belongs to, 0: a peer of the server
    std::vector<uint8_t> in;   // from a client: received bytes not yet answered
};

struct Client
{
    std::shared_ptr<IClientChannel> channel;
    std::map<int, std::shared_ptr<IClientSession>> sessions;
    Fd listener;
    std::vector<Fd> fillers;
    int port = 0;
    int last = 0;              // latest connection
};

sockaddr_in addr(const std::string& ip, int port)
{
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    inet_pton(AF_INET, ip.c_str(), &a.sin_addr);
    return a;
}

struct World;
struct Session final : IServerSession
{
    World* w;
    int u;
    Session(World* w, int u) : w(w), u(u) {}
    void shutdown() override { emit({{"e", "sshut"}, {"u", u}}); }
    template <typename R> Expected<typename wire::ResponseOf<R>::type> answer(const R& r)
    {
        // what a session answers is a function of its unit and the request, see AnswerOf in TcpServer.tla
        json rq = wire::request(r), a;
        int fn = rq["fn"], x = rq["a"];
        emit({{"e", "call"}, {"u", u}});
        if (x >= 60000) a["exc"] = x % 2 ? 2 : 4;
        else if (x >= 59000) a["oth"] = 0;
        else if (fn <= 4)
        {
            a["vs"] = json::array();
            for (int i = 0; i < rq["n"].get<int>(); ++i) a["vs"].push_back(fn <= 2 ? (u + x + i) % 2 : (u * 257 + x + i) % 65536);
        }
        else
        {
            a["a"] = x;
            if (fn <= 6) a["x"] = rq["x"];
            else a["n"] = (int)rq["vs"].size();
        }
        return wire::programmed(a, r);
    }
#define MODBUS_X(N) Expected<N##Response> on_request(const N##Request& r) override { return answer(r); }
    MODBUS_X(ReadCoils)
    MODBUS_X(ReadDiscreteInputs)
    MODBUS_X(ReadHoldingRegisters)
    MODBUS_X(ReadInputRegisters)
    MODBUS_X(WriteSingleCoil)
    MODBUS_X(WriteSingleRegister)
    MODBUS_X(WriteMultipleCoils)
    MODBUS_X(WriteMultipleRegisters)
#undef MODBUS_X
};

struct World
{
    std::unique_ptr<IModbusManager> manager = IModbusManager::create(LoggerFactory::create_null_logger("t"), 1);
    std::shared_ptr<IServerChannel> server;
    std::shared_ptr<InMemoryDatabase> db;
    int sport = 0;
    std::string ip;
    std::map<int, Peer> peers;
    std::map<int, Client> clients;
    std::map<int, std::shared_ptr<IScheduledRequest>> polls;
    std::map<int, json> on;
    std::map<int, int> dones;
    int nextp = 101;
    std::vector<int> more;   // ports of further servers

    World() { ip = net::ctl().ip; }

    int free_port()
    {
        Fd s(net::real().socket(AF_INET, SOCK_STREAM, 0));
        auto a = addr(ip, 0);
        if (net::real().bind(s.fd, (sockaddr*)&a, sizeof a) != 0) { perror("bind"); exit(3); }
        return net::local_port(s.fd);
    }

    bool listen_on(Client& c, int backlog = 1024)
    {
        c.listener = Fd(net::real().socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0));
        int one = 1;
        setsockopt(c.listener.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        auto a = addr(ip, c.port);
        // unless the library holds the address itself
        if (net::real().bind(c.listener.fd, (sockaddr*)&a, sizeof a) != 0)
        {
            c.listener.reset();
            return false;
        }
        if (::listen(c.listener.fd, backlog) != 0) { perror("listen"); exit(3); }
        return true;
    }

    // ------------------------------------------------------------- stepping

    int io(int n)
    {
        int k = 0;
        for (auto& w : exe4cpp::sim::registry().contexts)
            if (auto c = w.lock())
            {
                if (c->stopped()) c->restart();
                if (n < 0) k += c->poll();
                else
                    for (int i = 0; i < n; ++i) k += c->poll_one();
            }
        return k;
    }
    int execute(int x, int n)
    {
        int k = 0, i = 0;
        for (auto& w : exe4cpp::sim::registry().executors)
        {
            auto e = w.lock();
            if (++i != x && x != 0) continue;
            if (!e) continue;
            while ((n < 0 || k < n) && e->run_one()) ++k;
        }
        return k;
    }
    bool accept_all()
    {
        bool any = false;
        for (auto& kv : clients)
        {
            auto& c = kv.second;
            if (c.listener.fd < 0 || !c.fillers.empty()) continue;
            for (;;)
            {
                sockaddr_in a{};
                socklen_t n = sizeof a;
                int s = net::real().accept4(c.listener.fd, (sockaddr*)&a, &n, SOCK_NONBLOCK);
                if (s < 0) break;
                any = true;
                int p = nextp++;
                auto& q = peers[p];
                q.s = Fd(s);
                q.port = ntohs(a.sin_port);
                q.c = kv.first;
                c.last = p;
                char from[64];
                inet_ntop(AF_INET, &a.sin_addr, from, sizeof from);
                emit({{"e", "pacc"}, {"p", p}, {"c", kv.first}, {"from", from}});
            }
        }
        return any;
    }
    bool read_all()
    {
        bool any = accept_all();
        for (auto& kv : peers)
        {
            auto& p = kv.second;
            if (p.ended || p.s.fd < 0) continue;
            std::vector<uint8_t> got;
            std::string end;
            uint8_t buf[4096];
            while (!p.stalled)
            {
                ssize_t n = net::real().recv(p.s.fd, buf, sizeof buf, 0);
                if (n > 0) { got.insert(got.end(), buf, buf + n); continue; }
                if (n == 0) end = "fin";
                else if (errno != EAGAIN && errno != EINTR) end = "rst";
                break;
            }
            if (!got.empty())
            {
                any = true;
                emit({{"e", "prx"}, {"p", kv.first}, {"b", hx::to_bytes(got.data(), got.size())}});
                if (p.c) p.in.insert(p.in.end(), got.begin(), got.end());
            }
            if (!end.empty())
            {
                any = true;
                p.ended = true;
                emit({{"e", "pend"}, {"p", kv.first}, {"how", end}});
                p.s.reset();
            }
        }
        return any;
    }
    void settle()
    {
        int quiet = 0;
        for (int i = 0; i < 200000 && quiet < 2; ++i)
        {
            bool busy = io(-1) > 0;
            busy = execute(0, -1) > 0 || busy;
            if (!net::others_asleep()) { busy = true; usleep(20); }
            if (!busy) busy = read_all();
            quiet = busy ? 0 : quiet + 1;
            if (i == 199999) { emit({{"e", "spin"}}); return; }
        }
        json st = json::array();
        for (auto& kv : peers) if (kv.second.stalled && !kv.second.ended) st.push_back(kv.first);
        emit({{"e", "settle"}, {"stalled", st}});
    }

    void end_peer(int p, const std::string& how)
    {
        auto it = peers.find(p);
        if (it == peers.end() || it->second.ended || it->second.s.fd < 0 || it->second.closed) return;
        auto& q = it->second;
        if (how == "rst")
        {
            linger l{1, 0};
            setsockopt(q.s.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        }
        if (how == "half")
        {
            ::shutdown(q.s.fd, SHUT_WR);
            q.closed = true;
            emit({{"e", "px"}, {"p", p}, {"how", how}});
            return;
        }
        q.ended = true;
        q.s.reset();
        emit({{"e", "px"}, {"p", p}, {"how", how}});
    }
    void peer_send(int p, const std::vector<uint8_t>& b)
    {
        auto it = peers.find(p);
        if (it == peers.end() || it->second.ended || it->second.s.fd < 0 || it->second.closed || b.empty()) return;
        ssize_t n = net::real().send(it->second.s.fd, b.data(), b.size(), MSG_NOSIGNAL);
        if (n > 0) emit({{"e", "psend"}, {"p", p}, {"b", hx::to_bytes(b.data(), n)}});
    }

    // the answers to the requests that peer p has received; 'wrong' frames are changed
    void answer(int p, const json& o)
    {
        auto& q = peers[p];
        std::vector<uint8_t> out;
        int skip = o.value("skip", 0);
        std::size_t pos = 0;
        while (q.in.size() - pos >= 7)
        {
            std::size_t n = 6 + q.in[pos + 4] * 256 + q.in[pos + 5];
            if (q.in.size() - pos < n || n < 12) break;
            const uint8_t* f = q.in.data() + pos;
            pos += n;
            if (skip-- > 0) continue;
            std::vector<uint8_t> b{f[7]};
            if (f[7] <= 2)
            {
                int k = (f[10] * 256 + f[11] + 7) / 8;
                b.push_back(k);
                for (int i = 0; i < k; ++i) b.push_back((f[9] + i * 11) & 255);
            }
            else if (f[7] <= 4)
            {
                int k = 2 * (f[10] * 256 + f[11]);
                b.push_back(k);
                for (int i = 0; i < k; ++i) b.push_back((f[9] + i * 11) & 255);
            }
            else b.insert(b.end(), f + 8, f + 12);
            if (o.value("exc", 0)) b = {(uint8_t)(f[7] | 128), (uint8_t)o["exc"].get<int>()};
            std::vector<uint8_t> fr{(uint8_t)(f[0] ^ o.value("tid", 0)), f[1], 0, 0, (uint8_t)((b.size() + 1) >> 8), (uint8_t)((b.size() + 1) & 255), f[6]};
            fr.insert(fr.end(), b.begin(), b.end());
            out.insert(out.end(), fr.begin(), fr.end());
        }
        q.in.erase(q.in.begin(), q.in.begin() + pos);
        if (o.contains("part")) out.resize(std::min<std::size_t>(out.size(), o["part"].get<int>()));
        peer_send(p, out);
    }

    int which(const json& o)
    {
        if (o.contains("p")) return o["p"];
        accept_all();
        return clients[o["c"].get<int>()].last;
    }

    template <typename T> ResponseHandler<T> handler(int k)
    {
        return [this, k](const Expected<T>& r) {
            emit({{"e", "done"}, {"k", k}, {"n", ++dones[k]}, {"r", wire::result(r)}});
            auto it = on.find(k);
            if (it == on.end()) return;
            auto ops = it->second;
            on.erase(it);
            for (auto& o : ops) exec(o);
        };
    }

    void submit(const json& o)
    {
        auto& c = clients[o["c"].get<int>()];
        if (!c.channel) return;
        int k = o["k"], u = o["u"], tmo = o.value("tmo", 1000);
        auto& s = c.sessions[u];
        if (!s) s = c.channel->create_session(UnitIdentifier{(uint8_t)u}, milliseconds(1000));
        if (!s) return;
        if (o.contains("on")) on[k] = o["on"];
        emit({{"e", "sub"}, {"c", o["c"]}, {"k", k}, {"u", u}, {"rq", o["rq"]}, {"tmo", tmo}});
        wire::with_request(o["rq"], [&](auto& r) {
            using R = typename wire::ResponseOf<typename std::decay<decltype(r)>::type>::type;
            s->send_request(r, milliseconds(tmo), handler<R>(k));
        });
    }

    void exec(const json& o)
    {
        const std::string op = o["o"];
        auto& ct = net::ctl();
        if (op == "srv")
        {
            if (server || !manager) return;
            sport = free_port();
            int max = o.value("max", 16);
            emit({{"e", "srv"}, {"max", max}, {"units", o["units"]}});
            // the failures are meant for the connections of the clients
            int se = 0, be = 0;
            std::swap(se, ct.socket_errors);
            std::swap(be, ct.bind_errors);
            server = manager->create_server_tcp_channel("s", Ipv4Endpoint{ip, (uint16_t)sport}, max);
            std::swap(se, ct.socket_errors);
            std::swap(be, ct.bind_errors);
            if (o.contains("db"))
            {
                db = std::make_shared<InMemoryDatabase>();
                for (auto& a : o["db"])
                {
                    e2e::add(*db, a);
                    emit({{"e", "add"}, {"t", a["t"]}, {"a", a["a"]}, {"v", a["v"]}});
                }
                for (auto& u : o["units"]) server->add_session(UnitIdentifier{(uint8_t)u.get<int>()}, db);
            }
            else
                for (auto& u : o["units"]) server->add_session(UnitIdentifier{(uint8_t)u.get<int>()}, std::make_shared<Session>(this, u.get<int>()));
            if (o.value("start", 1)) server->start();
        }
        else if (op == "cli")
        {
            if (!manager) return;
            auto& c = clients[o["c"].get<int>()];
            std::string host = o.value("host", "");
            std::string adapter = o.value("adapter", "");
            if (adapter == "same") adapter = ip;
            if (adapter == "other") adapter = ct.other;
            int up = o.value("up", 1);
            if (o.value("to", 0)) c.port = sport;
            else
            {
                c.port = free_port();
                if (up) up = listen_on(c);
            }
            emit({{"e", "cli"}, {"c", o["c"]}, {"adapter", adapter}, {"up", up}, {"named", host.empty() ? 0 : 1}, {"badad", o.value("badad", 0)}, {"to", o.value("to", 0)}});
            c.channel = manager->create_client_tcp_channel("c", Ipv4Endpoint{host.empty() ? ip : host, (uint16_t)c.port}, adapter);
        }
        else if (op == "pc")
        {
            int p = o["p"];
            Peer q;
            q.s = Fd(net::real().socket(AF_INET, SOCK_STREAM, 0));
            auto a = addr(ip, sport);
            timeval tv{1, 0};
            setsockopt(q.s.fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
            int one = 1;
            setsockopt(q.s.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            bool ok = net::real().connect(q.s.fd, (sockaddr*)&a, sizeof a) == 0;
            emit({{"e", "conn"}, {"p", p}, {"r", ok ? 1 : 0}});
            if (!ok) return;
            q.port = net::local_port(q.s.fd);
            fcntl(q.s.fd, F_SETFL, O_NONBLOCK);
            ct.limits.erase(q.port);
            peers[p] = std::move(q);
        }
        else if (op == "ps") peer_send(o["p"], o["b"].get<std::vector<uint8_t>>());
        else if (op == "psend") peer_send(which(o), o["b"].get<std::vector<uint8_t>>());
        else if (op == "ans") { int p = which(o); accept_all(); read_all(); answer(p, o); }
        else if (op == "px") end_peer(which(o), o["how"]);
        else if (op == "stall")
        {
            int p = which(o);
            if (peers.count(p)) peers[p].stalled = o["on"].get<int>() != 0;
        }
        else if (op == "accfail") { for (int i = 0; i < o["n"].get<int>(); ++i) ct.accept_errors.push_back(o.value("err", EMFILE)); emit({{"e", "accfail"}, {"n", o["n"]}}); }
        else if (op == "lim" || op == "bud")
        {
            int port = o.contains("srv") ? -sport : o.contains("p") ? (peers.count(o["p"].get<int>()) ? peers[o["p"].get<int>()].port : -1) : clients[o["c"].get<int>()].port;
            if (port == -1) return;
            auto& l = ct.limits[port];
            if (op == "bud") { if (o["n"].get<int>() < 0) l.budget = -1; else l.budget = std::max(0L, l.budget) + o["n"].get<int>(); }
            else
            {
                if (o.contains("budget")) l.budget = o["budget"];
                if (o.contains("chunk")) l.chunk = o["chunk"];
                if (o.contains("rchunk")) l.rchunk = o["rchunk"];
                if (o.contains("err")) l.err = o["err"];
            }
            json ev{{"e", "lim"}, {"free", l.budget < 0 ? 1 : 0}};
            if (o.contains("srv")) ev["srv"] = 1; else if (o.contains("p")) ev["p"] = o["p"]; else ev["c"] = o["c"];
            emit(ev);
            net::rearm();
        }
        else if (op == "lis")
        {
            auto& c = clients[o["c"].get<int>()];
            if (c.port == sport || !c.port) return;
            accept_all();
            int up = o["up"];
            c.listener.reset();
            c.fillers.clear();
            if (up == 1) up = listen_on(c);
            if (up == 2 && !listen_on(c, 0)) up = 0;
            if (up == 2)
            {
                for (int i = 0; i < 2; ++i)
                {
                    Fd s(net::real().socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0));
                    auto a = addr(ip, c.port);
                    net::real().connect(s.fd, (sockaddr*)&a, sizeof a);
                    c.fillers.push_back(std::move(s));
                }
            }
            emit({{"e", "lis"}, {"c", o["c"]}, {"up", up}});
        }
        else if (op == "res") { ct.resolve = o["mode"]; emit({{"e", "res"}, {"mode", o["mode"]}}); }
        else if (op == "sysfail") { ct.socket_errors = o.value("socket", 0); ct.bind_errors = o.value("bind", 0); emit({{"e", "sysfail"}}); }
        else if (op == "sub") submit(o);
        else if (op == "adv")
        {
            emit({{"e", "adv"}, {"d", o["d"]}});
            for (auto& w : exe4cpp::sim::registry().executors)
                if (auto e = w.lock()) e->advance_time(milliseconds(o["d"].get<int>()));
        }
        else if (op == "add")
        {
            if (!db) return;
            emit({{"e", "add"}, {"t", o["t"]}, {"a", o["a"]}, {"v", o["v"]}});
            e2e::add(*db, o);
        }
        else if (op == "snap")
        {
            if (db) emit({{"e", "snap"}, {"p", e2e::snap(*db, o["p"])}});
        }
        else if (op == "faults" || op == "end") emit({{"e", op}});
        else if (op == "io") io(o.value("n", -1));
        else if (op == "run") execute(o.value("x", 0), o.value("n", -1));
        else if (op == "settle") settle();
        else if (op == "shut")
        {
            emit({{"e", "shut"}, {"c", o.value("c", 0)}});
            if (o.value("c", 0) == 0) { if (server) server->shutdown(); }
            else if (clients[o["c"].get<int>()].channel) clients[o["c"].get<int>()].channel->shutdown();
        }
        else if (op == "extra")
        {
            // further channels, before and after the ones above
            if (!manager) return;
            for (int i = 0; i < o["n"].get<int>(); ++i)
            {
                more.push_back(free_port());
                int se = 0, be = 0;
                std::swap(se, ct.socket_errors);
                std::swap(be, ct.bind_errors);
                manager->create_server_tcp_channel("x", Ipv4Endpoint{ip, (uint16_t)more.back()}, 2)->start();
                std::swap(se, ct.socket_errors);
                std::swap(be, ct.bind_errors);
            }
        }
        else if (op == "probe")
        {
            int n = 0;
            for (int port : more)
            {
                Fd s(net::real().socket(AF_INET, SOCK_STREAM, 0));
                auto a = addr(ip, port);
                n += net::real().connect(s.fd, (sockaddr*)&a, sizeof a) == 0;
            }
            emit({{"e", "probe"}, {"n", more.size()}, {"r", n}});
        }
        else if (op == "start") { if (server) server->start(); }
        else if (op == "mshut") { emit({{"e", "mshut"}}); if (manager) manager->shutdown(); }
        else if (op == "mdel") { emit({{"e", "mshut"}}); manager.reset(); }
        else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    }
};
} // namespace

int main()
{
    auto& ct = net::ctl();
    int pid = getpid();
    char ip[32];
    snprintf(ip, sizeof ip, "127.%d.%d.1", 1 + (pid >> 8 & 127), pid & 255);
    ct.ip = ip;
    snprintf(ip, sizeof ip, "127.%d.%d.2", 1 + (pid >> 8 & 127), pid & 255);
    ct.other = ip;
    exe4cpp::sim::registry().manual = true;
    return hx::main_loop([&](const json& sc) {
        ct.on = true;
        ct.limits.clear();
        ct.bound.clear();
        ct.accept_errors.clear();
        ct.socket_errors = ct.bind_errors = ct.resolve = 0;
        ct.sent = 0;
        exe4cpp::sim::registry().executors.clear();
        exe4cpp::sim::registry().contexts.clear();
        {
            World w;
            ct.failed = [&](int port) {
                for (auto& p : w.peers) if (p.second.port == port) emit({{"e", "werr"}, {"p", p.first}});
                for (auto& c : w.clients) if (c.second.port == port) emit({{"e", "werr"}, {"c", c.first}});
            };
            for (auto& o : sc["ops"]) w.exec(o);
            hx::trace().muted = true;
            w.manager.reset();
            ct.limits.clear();
            ct.failed = nullptr;
            w.settle();
        }
        hx::trace().muted = false;
    });
}
