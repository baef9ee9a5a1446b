// Server channel: real ServerChannelTcp and connection listeners over scripted connections, with recording
// sessions and a deterministic executor. Scenario operations are the steps of specs/Server.tla.
#include <map>
#include "hx.h"
#include "wire.h"
#include "exe4cpp/MockExecutor.h"
#include "modbus/logging/LoggerFactory.h"
#include "IConnectionListener.h"
#include "ITcpConnection.h"
#include "server/channel/IServer.h"
#include "server/channel/IServerConnectionListenerBuilder.h"
#include "server/channel/ServerChannelTcp.h"

using namespace modbus;
using hx::emit;
using hx::json;

namespace
{
struct World;

struct Conn final : ITcpConnection
{
    World* w = nullptr;
    int c = 0;
    std::unique_ptr<IConnectionListener> listener;
    std::vector<std::vector<uint8_t>> sent;
    void set_listener(std::shared_ptr<IConnectionListener>) override {}
    void send(const ser4cpp::rseq_t& d) override;
    void close() override { emit({{"e", "cclose"}, {"c", c}}); }
    void shutdown() override { emit({{"e", "cclose"}, {"c", c}}); }
};

struct Server final : IServer
{
    std::shared_ptr<IServerConnectionListenerBuilder> builder;
    void start(std::shared_ptr<IServerConnectionListenerBuilder> b) override
    {
        builder = b;
        emit({{"e", "lstart"}});
    }
    void shutdown() override { emit({{"e", "lstop"}}); }
};

struct Session final : IServerSession
{
    World* w;
    int s;
    std::map<int, json> answers;  // function -> programmed answer
    json on = json::array();      // operations from inside a callback
    Session(World* w, int s) : w(w), s(s) {}
    void shutdown() override { emit({{"e", "sshut"}, {"s", s}}); }
    template <typename R> Expected<typename wire::ResponseOf<R>::type> answer(const R& r);
#define MODBUS_X(N) Expected<N##Response> on_request(const N##Request& r) override { return answer(r); }
    MODBUS_X(ReadCoils)
    MODBUS_X(ReadDiscreteInputs)
    MODBUS_X(ReadHoldingRegisters)
    MODBUS_X(ReadInputRegisters)
    MODBUS_X(WriteSingleCoil)
    MODBUS_X(WriteSingleRegister)
    MODBUS_X(WriteMultipleCoils)
    MODBUS_X(WriteMultipleRegisters)
#undef MODBUS_X
};

struct World
{
    std::shared_ptr<exe4cpp::MockExecutor> ex = std::make_shared<exe4cpp::MockExecutor>();
    std::shared_ptr<Server> server = std::make_shared<Server>();
    std::shared_ptr<ServerChannelTcp> channel;
    std::map<int, std::shared_ptr<Session>> sessions;
    std::map<int, std::shared_ptr<Conn>> conns;
    std::map<int, std::vector<uint8_t>> rest;
    int depth = 0;
    int salt = 0;
    std::vector<json>* quiet = nullptr;   // sweep in progress: results go here

    World() { channel = std::make_shared<ServerChannelTcp>(LoggerFactory::create_null_logger("t"), ex, server); }

    int q() { return depth ? -1 : (int)ex->num_active(); }

    void deliver(int c, const std::vector<uint8_t>& b)
    {
        if (b.empty()) return;
        auto conn = conns[c];
        emit({{"e", "rx"}, {"c", c}, {"b", hx::to_bytes(b.data(), b.size())}});
        std::vector<uint8_t> copy(b);
        conn->listener->on_receive(ser4cpp::rseq_t(copy.data(), copy.size()));
        emit({{"e", "rxend"}, {"q", q()}});
    }

    json default_answer(const json& rq)
    {
        int fn = rq["fn"];
        ++salt;
        json a;
        if (fn <= 4)
        {
            json vs = json::array();
            int n = rq["n"];
            for (int i = 0; i < n; ++i) vs.push_back(fn <= 2 ? ((i * 7 + salt) / 3) % 2 : (i * 257 + salt * 31) & 0xFFFF);
            a["vs"] = vs;
        }
        else
        {
            a["a"] = rq["a"];
            if (fn <= 6) a["x"] = rq["x"];
            else a["n"] = (int)rq["vs"].size();
        }
        return a;
    }

    void exec(const json& o)
    {
        const std::string op = o["o"];
        if (op == "start" || op == "shut")
        {
            emit({{"e", op}});
            if (op == "start") channel->start();
            else channel->shutdown();
            emit({{"e", "ret"}, {"of", op}, {"q", q()}});
        }
        else if (op == "add")
        {
            int s = o["s"];
            if (!sessions.count(s)) sessions[s] = std::make_shared<Session>(this, s);
            emit({{"e", "add"}, {"u", o["u"]}, {"s", s}});
            channel->add_session(UnitIdentifier{(uint8_t)o["u"].get<int>()}, sessions[s]);
            emit({{"e", "ret"}, {"of", op}, {"q", q()}});
        }
        else if (depth > 0)
        {
            return;
        }
        else if (op == "prog")
        {
            int s = o["s"];
            if (!sessions.count(s)) sessions[s] = std::make_shared<Session>(this, s);
            if (o.contains("fn"))
            {
                if (o["ans"].is_null()) sessions[s]->answers.erase(o["fn"].get<int>());
                else sessions[s]->answers[o["fn"].get<int>()] = o["ans"];
            }
            if (o.contains("on")) sessions[s]->on = o["on"];
        }
        else if (op == "run")
        {
            int n = o.value("n", 3000);
            while (n-- > 0)
            {
                if (!ex->num_active()) break;
                emit({{"e", "run"}});
                ex->run_one();
                emit({{"e", "ran"}, {"q", q()}});
            }
        }
        else if (op == "conn")
        {
            int c = o["c"];
            if (!server->builder || conns.count(c)) return;
            auto conn = std::make_shared<Conn>();
            conn->w = this;
            conn->c = c;
            emit({{"e", "conn"}, {"c", c}});
            conn->listener = server->builder->build(conn);
            conns[c] = conn;
        }
        else if (op == "gone")
        {
            int c = o["c"];
            if (!conns.count(c)) return;
            emit({{"e", "gone"}, {"c", c}});
            if (o.value("err", 1)) conns[c]->listener->on_error("scripted failure");
            conns.erase(c);
            rest.erase(c);
        }
        else if (op == "rx")
        {
            int c = o["c"];
            if (!conns.count(c)) return;
            std::vector<uint8_t> b = rest[c];
            rest[c].clear();
            for (auto& x : o["b"]) b.push_back((uint8_t)x.get<int>());
            if (o.contains("hold") && b.size() > o["hold"].get<std::size_t>())
            {
                rest[c].assign(b.end() - o["hold"].get<int>(), b.end());
                b.resize(b.size() - o["hold"].get<int>());
            }
            std::size_t pos = 0;
            if (o.contains("cut"))
                for (auto& k : o["cut"])
                {
                    std::size_t n = std::min<std::size_t>(k.get<int>(), b.size() - pos);
                    deliver(c, std::vector<uint8_t>(b.begin() + pos, b.begin() + pos + n));
                    pos += n;
                }
            deliver(c, std::vector<uint8_t>(b.begin() + pos, b.end()));
        }
        else if (op == "sweep")
        {
            // one request per quantity in lo..hi: what each of them led to, equal neighbours merged
            // ("ax": of one request per address instead, each for the quantity "n")
            int c = o["c"], fn = o["fn"], lo = o["lo"], hi = o["hi"], dbc = o.value("dbc", 0), dlen = o.value("dlen", 0), fixed = o.value("a", 7), ax = o.value("ax", 0);
            if (!conns.count(c)) return;
            auto conn = conns[c];
            json res = json::array();
            json last;
            int from = lo;
            std::vector<json> got;
            quiet = &got;
            hx::trace().muted = true;
            for (int i = lo; i <= hi; ++i)
            {
                const int n = ax ? fixed : i, a = ax ? i : fixed;
                std::vector<uint8_t> p{(uint8_t)fn, (uint8_t)(a >> 8), (uint8_t)a, (uint8_t)(n >> 8), (uint8_t)n};
                if (fn >= 15)
                {
                    int bc = (fn == 15 ? (n + 7) / 8 : 2 * n);
                    p.push_back((uint8_t)(bc + dbc));
                    int len = std::max(0, std::min(247, bc + dlen));
                    for (int i = 0; i < len; ++i) p.push_back((uint8_t)(i * 13 + n));
                }
                else
                    for (int i = 0; i < dlen; ++i) p.push_back(0);
                if (dlen < 0 && fn < 15) p.resize(5 + dlen);
                int tid = i & 0xFFFF, L = (int)p.size() + 1;
                std::vector<uint8_t> b{(uint8_t)(tid >> 8), (uint8_t)tid, 0, 0, (uint8_t)(L >> 8), (uint8_t)L, (uint8_t)o["u"].get<int>()};
                b.insert(b.end(), p.begin(), p.end());
                got.clear();
                conn->sent.clear();
                conn->listener->on_receive(ser4cpp::rseq_t(b.data(), b.size()));
                while (ex->num_active()) ex->run_one();
                json r{{"calls", (int)got.size()}, {"tx", (int)conn->sent.size()}};
                if (got.size() == 1)
                {
                    int m = got[0].contains("n") ? got[0]["n"].get<int>()
                          : got[0].contains("x") ? (fn == 5 ? 0xFF00 : 1) * got[0]["x"].get<int>() : (int)got[0]["vs"].size();
                    r["dn"] = m - n;      // 0: the session got the quantity (or value) that was received
                    r["da"] = got[0]["a"].get<int>() - a;
                }
                if (conn->sent.size() == 1)
                {
                    auto& t = conn->sent[0];
                    r["echo"] = (t.size() >= 9 && std::equal(t.begin(), t.begin() + 4, b.begin()) && t[6] == b[6]) ? 1 : 0;
                    if (t.size() == 9 && t[7] == (fn | 0x80)) r["exc"] = (int)t[8];
                }
                if (last.is_null()) { last = r; from = i; }
                else if (last != r)
                {
                    last["lo"] = from; last["hi"] = i - 1;
                    res.push_back(last);
                    last = r; from = i;
                }
            }
            last["lo"] = from; last["hi"] = hi;
            res.push_back(last);
            hx::trace().muted = false;
            quiet = nullptr;
            conn->sent.clear();
            emit({{"e", "sweep"}, {"u", o["u"]}, {"fn", fn}, {"lo", lo}, {"hi", hi}, {"dbc", dbc}, {"dlen", dlen}, {"a", fixed}, {"ax", ax}, {"res", res}, {"q", q()}});
        }
        else
        {
            fprintf(stderr, "unknown operation %s\n", op.c_str());
            exit(3);
        }
    }

    ~World()
    {
        hx::trace().muted = true;
        channel->shutdown();
        for (int i = 0; i < 100000 && ex->run_one(); ++i) {}
        hx::trace().muted = false;
    }
};

void Conn::send(const ser4cpp::rseq_t& d)
{
    const uint8_t* p = d;
    emit({{"e", "tx"}, {"c", c}, {"b", hx::to_bytes(p, d.length())}});
    if (w->quiet) sent.emplace_back(p, p + d.length());
}

template <typename R> Expected<typename wire::ResponseOf<R>::type> Session::answer(const R& r)
{
    json rq = wire::request(r);
    auto it = answers.find(rq["fn"].get<int>());
    json a = it != answers.end() ? it->second : w->default_answer(rq);
    if (w->quiet) w->quiet->push_back(rq);
    emit({{"e", "call"}, {"s", s}, {"rq", rq}, {"ans", a}});
    auto ops = on;
    on = json::array();
    for (auto& o : ops)
    {
        ++w->depth;
        w->exec(o);
        --w->depth;
    }
    if (a.contains("def")) return IServerSession::on_request(r);
    return wire::programmed(a, r);
}
} // namespace

int main()
{
    return hx::main_loop([](const json& sc) {
        hx::trace().muted = false;
        World w;
        try
        {
            for (auto& o : sc["ops"]) w.exec(o);
        }
        catch (const json::exception&)
        {
            throw;
        }
        catch (const std::exception& e)
        {
            emit({{"e", "crash"}, {"what", e.what()}});
        }
    });
}
