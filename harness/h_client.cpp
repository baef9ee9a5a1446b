// Client channel: real ClientChannelTcp, sessions and scheduled requests over a scripted connection and a
// deterministic executor with virtual time. Scenario operations are the steps of specs/Client.tla.
#include <map>
#include "hx.h"
#include "wire.h"
#include "exe4cpp/MockExecutor.h"
#include "modbus/logging/LoggerFactory.h"
#include "IConnectionListener.h"
#include "ITcpConnection.h"
#include "client/channel/ClientChannelTcp.h"
#include "modbus/client/IScheduledRequest.h"

using namespace modbus;
using hx::emit;
using hx::json;
using std::chrono::milliseconds;

namespace
{
struct Sent
{
    int tid, unit;
};

struct Conn final : ITcpConnection
{
    void set_listener(std::shared_ptr<IConnectionListener> l) override { listener = l; }
    void send(const ser4cpp::rseq_t& d) override
    {
        const uint8_t* p = d;
        emit({{"e", "tx"}, {"b", hx::to_bytes(p, d.length())}});
        if (d.length() >= 10) sent[{p[7], p[8] * 256 + p[9]}] = Sent{p[0] * 256 + p[1], p[6]};
    }
    void close() override { emit({{"e", "cclose"}}); }
    void shutdown() override { emit({{"e", "cshut"}}); }
    std::shared_ptr<IConnectionListener> listener;
    std::map<std::pair<int, int>, Sent> sent;
};

json right_answer(const json& rq, int salt)
{
    int fn = rq["fn"], a = rq["a"];
    json b = json::array({fn});
    if (fn <= 2)
    {
        int n = (rq["n"].get<int>() + 7) / 8;
        b.push_back(n);
        for (int i = 0; i < n; ++i) b.push_back((salt * 37 + i * 11 + a) & 255);
    }
    else if (fn <= 4)
    {
        int n = rq["n"].get<int>();
        b.push_back(2 * n);
        for (int i = 0; i < 2 * n; ++i) b.push_back((salt * 37 + i * 11 + a) & 255);
    }
    else
    {
        b.push_back(a >> 8);
        b.push_back(a & 255);
        int v = fn == 5 ? (rq["x"].get<int>() ? 0xFF00 : 0) : fn == 6 ? rq["x"].get<int>() : (int)rq["vs"].size();
        b.push_back(v >> 8);
        b.push_back(v & 255);
    }
    return b;
}

struct World
{
    std::shared_ptr<exe4cpp::MockExecutor> ex = std::make_shared<exe4cpp::MockExecutor>();
    std::shared_ptr<Conn> conn = std::make_shared<Conn>();
    std::shared_ptr<ClientChannelTcp> channel;
    std::map<int, std::shared_ptr<IClientSession>> sessions;
    std::map<int, json> unit_of;
    std::map<int, json> reqs;                      // request or poll -> rq
    std::map<int, json> on;                        // re-entrant operations
    std::map<int, int> unit;
    std::map<int, int> dones;
    std::map<int, std::shared_ptr<IScheduledRequest>> polls;
    std::vector<uint8_t> rest;
    int depth = 0;
    int now = 0;
    int salt = 0;

    World()
    {
        channel = std::make_shared<ClientChannelTcp>(ex, LoggerFactory::create_null_logger("t"), conn);
    }

    int q()
    {
        ex->check_for_expired_timers();
        return depth ? -1 : (int)ex->num_active();
    }

    template <typename T> ResponseHandler<T> handler(int k)
    {
        return [this, k](const Expected<T>& r) {
            int n = ++dones[k];
            emit({{"e", "done"}, {"k", k}, {"n", n}, {"r", wire::result(r)}});
            auto it = on.find(k);
            if (it == on.end()) return;
            for (auto& o : it->second)
            {
                if (o.value("nth", 1) != n) continue;
                ++depth;
                exec(o);
                --depth;
            }
        };
    }

    void deliver(const std::vector<uint8_t>& b)
    {
        if (!conn->listener || b.empty()) return;
        auto l = conn->listener;
        emit({{"e", "rx"}, {"b", hx::to_bytes(b.data(), b.size())}});
        // an exact heap copy, so that reading past its end is caught
        std::vector<uint8_t> copy(b);
        l->on_receive(ser4cpp::rseq_t(copy.data(), copy.size()));
        emit({{"e", "rxend"}, {"q", q()}});
    }

    void deliver_cut(std::vector<uint8_t> b, const json& o)
    {
        if (o.contains("hold") && b.size() > o["hold"].get<std::size_t>())
        {
            rest.assign(b.begin() + o["hold"].get<int>(), b.end());
            b.resize(o["hold"].get<int>());
        }
        std::size_t pos = 0;
        if (o.contains("cut"))
            for (auto& c : o["cut"])
            {
                std::size_t n = std::min<std::size_t>(c.get<int>(), b.size() - pos);
                deliver(std::vector<uint8_t>(b.begin() + pos, b.begin() + pos + n));
                pos += n;
            }
        deliver(std::vector<uint8_t>(b.begin() + pos, b.end()));
    }

    void exec(const json& o)
    {
        const std::string op = o["o"];
        if (op == "open")
        {
            int s = o["s"];
            emit({{"e", "open"}, {"s", s}});
            auto p = channel->create_session(UnitIdentifier{(uint8_t)o["u"].get<int>()}, milliseconds(o["to"].get<int>()));
            if (p) { sessions[s] = p; unit_of[s] = json{{"u", o["u"]}, {"to", o["to"]}}; }
            emit({{"e", "ret"}, {"of", op}, {"q", q()}, {"ok", p ? 1 : 0}});
        }
        else if (op == "sub")
        {
            int k = o["k"], s = o["s"];
            if (!sessions.count(s)) return;
            reqs[k] = o["rq"];
            unit[k] = unit_of[s]["u"];
            if (o.contains("on")) on[k] = o["on"];
            int to = o.contains("to") ? o["to"].get<int>() : unit_of[s]["to"].get<int>();
            emit({{"e", "sub"}, {"k", k}, {"u", unit[k]}, {"rq", o["rq"]}, {"to", to}});
            wire::with_request(o["rq"], [&](auto r) {
                using R = typename wire::ResponseOf<decltype(r)>::type;
                if (o.contains("to")) sessions[s]->send_request(r, milliseconds(to), handler<R>(k));
                else sessions[s]->send_request(r, handler<R>(k));
            });
            emit({{"e", "ret"}, {"of", op}, {"q", q()}, {"ok", 1}});
        }
        else if (op == "sch")
        {
            int k = o["k"], s = o["s"];
            if (!sessions.count(s)) return;
            reqs[k] = o["rq"];
            unit[k] = unit_of[s]["u"];
            if (o.contains("on")) on[k] = o["on"];
            int to = o.contains("to") ? o["to"].get<int>() : unit_of[s]["to"].get<int>();
            emit({{"e", "sch"}, {"k", k}, {"u", unit[k]}, {"rq", o["rq"]}, {"to", to}, {"per", o["per"]}});
            auto per = milliseconds(o["per"].get<int>());
            auto& S = *sessions[s];
            int a = o["rq"]["a"];
            uint16_t n = o["rq"]["n"].get<int>();
            auto go = [&](auto r) {
                using R = typename wire::ResponseOf<decltype(r)>::type;
                if (o.contains("to")) polls[k] = S.schedule_request(r, milliseconds(to), per, handler<R>(k));
                else polls[k] = S.schedule_request(r, per, handler<R>(k));
            };
            switch (o["rq"]["fn"].get<int>())
            {
            case 1: go(ReadCoilsRequest{(uint16_t)a, n}); break;
            case 2: go(ReadDiscreteInputsRequest{(uint16_t)a, n}); break;
            case 3: go(ReadHoldingRegistersRequest{(uint16_t)a, n}); break;
            default: go(ReadInputRegistersRequest{(uint16_t)a, n}); break;
            }
            emit({{"e", "ret"}, {"of", op}, {"q", q()}, {"ok", 1}});
        }
        else if (op == "start" || op == "stop" || op == "freq")
        {
            int k = o["k"];
            if (!polls.count(k)) return;
            json ev{{"e", op}, {"k", k}};
            if (op == "freq") ev["per"] = o["per"];
            emit(ev);
            if (op == "start") polls[k]->start();
            else if (op == "stop") polls[k]->stop();
            else polls[k]->set_frequency(milliseconds(o["per"].get<int>()));
            emit({{"e", "ret"}, {"of", op}, {"q", q()}, {"ok", 1}});
        }
        else if (op == "shut")
        {
            emit({{"e", "shut"}});
            channel->shutdown();
            emit({{"e", "ret"}, {"of", op}, {"q", q()}, {"ok", 1}});
        }
        else if (op == "sshut")
        {
            int s = o["s"];
            if (!sessions.count(s)) return;
            json ks = json::array();
            emit({{"e", "sshut"}, {"s", s}});
            sessions[s]->shutdown();
            emit({{"e", "ret"}, {"of", op}, {"q", q()}, {"ok", 1}});
        }
        else if (depth > 0)
        {
            return; // only API calls are made from inside handlers
        }
        else if (op == "run")
        {
            int n = o.value("n", 3000);
            while (n-- > 0)
            {
                ex->check_for_expired_timers();
                if (!ex->num_active()) break;
                emit({{"e", "run"}});
                ex->run_one();
                emit({{"e", "ran"}, {"q", q()}});
            }
        }
        else if (op == "adv")
        {
            // TLC's integers have 32 bits
            if (now + o["ms"].get<long long>() > 1500000000) return;
            now += o["ms"].get<int>();
            ex->advance_time(milliseconds(o["ms"].get<int>()));
            emit({{"e", "adv"}, {"now", now}, {"q", q()}});
        }
        else if (op == "advto")
        {
            // to the expiry of the earliest timer, less 'less' milliseconds
            auto t = ex->next_timer_expiration_abs();
            if (t == exe4cpp::steady_time_t::max()) return;
            long long ms = std::chrono::duration_cast<milliseconds>(t - ex->get_time()).count() - o.value("less", 0);
            if (ms <= 0 || now + ms > 1500000000) return;
            now += ms;
            ex->advance_time(milliseconds(ms));
            emit({{"e", "adv"}, {"now", now}, {"q", q()}});
        }
        else if (op == "ans")
        {
            int k = o["k"];
            if (!reqs.count(k)) return;
            auto it = conn->sent.find({reqs[k]["fn"].get<int>(), reqs[k]["a"].get<int>()});
            if (it == conn->sent.end()) return;
            json pdu = o.contains("pdu") ? o["pdu"] : right_answer(reqs[k], ++salt);
            if (o.contains("exc")) pdu = json::array({reqs[k]["fn"].get<int>() + 128, o["exc"]});
            int tid = (it->second.tid + o.value("dt", 0)) & 0xFFFF, u = (it->second.unit + o.value("du", 0)) & 255;
            int len = (int)pdu.size() + 1, proto = o.value("proto", 0);
            std::vector<uint8_t> b{(uint8_t)(tid >> 8), (uint8_t)tid, (uint8_t)(proto >> 8), (uint8_t)proto, (uint8_t)(len >> 8), (uint8_t)len, (uint8_t)u};
            for (auto& x : pdu) b.push_back((uint8_t)x.get<int>());
            for (int i = 1; i < o.value("rep", 1); ++i) b.insert(b.end(), b.begin(), b.begin() + len + 6);
            if (o.contains("pre"))
            {
                std::vector<uint8_t> p;
                for (auto& x : o["pre"]) p.push_back((uint8_t)x.get<int>());
                b.insert(b.begin(), p.begin(), p.end());
            }
            deliver_cut(b, o);
        }
        else if (op == "rx")
        {
            std::vector<uint8_t> b;
            for (auto& x : o["b"]) b.push_back((uint8_t)x.get<int>());
            deliver_cut(b, o);
        }
        else if (op == "rest")
        {
            auto b = rest;
            rest.clear();
            deliver_cut(b, o);
        }
        else if (op == "burn")
        {
            // n requests in a row, each answered at once; reported as one event
            int n = o["n"], s = o["s"];
            json tids = json::array();
            int ok = 0, extra = 0;
            hx::trace().muted = true;
            for (int i = 0; i < n; ++i)
            {
                int before = ok;
                conn->sent.clear();
                sessions[s]->send_request(ReadHoldingRegistersRequest{(uint16_t)(i & 255), 1}, milliseconds(1000),
                                          [&, i](const Expected<ReadHoldingRegistersResponse>& r) {
                                              if (r.is_valid() && r.get().values.size() == 1 && r.get().values[0].value == (i & 0xFFFF)) ++ok;
                                              else ++extra;
                                          });
                while (ex->num_active()) ex->run_one();
                if (conn->sent.size() != 1) { ++extra; continue; }
                auto t = conn->sent.begin()->second;
                tids.push_back(t.tid);
                std::vector<uint8_t> b{(uint8_t)(t.tid >> 8), (uint8_t)t.tid, 0, 0, 0, 5, (uint8_t)t.unit, 3, 2, (uint8_t)(i >> 8), (uint8_t)i};
                conn->listener->on_receive(ser4cpp::rseq_t(b.data(), b.size()));
                if (ok != before + 1) ++extra;
            }
            hx::trace().muted = false;
            emit({{"e", "burn"}, {"n", n}, {"tids", tids}, {"ok", ok}, {"extra", extra}, {"q", q()}});
        }
        else if (op == "norest")
        {
            rest.clear();
        }
        else if (op == "err")
        {
            if (!conn->listener) return;
            auto l = conn->listener;
            if (o.value("norest", 1)) rest.clear();
            emit({{"e", "err"}});
            l->on_error("scripted failure");
            emit({{"e", "errend"}, {"q", q()}});
        }
        else
        {
            fprintf(stderr, "unknown operation %s\n", op.c_str());
            exit(3);
        }
    }

    ~World()
    {
        hx::trace().muted = true;
        conn->listener.reset();
        channel->shutdown();
        for (int i = 0; i < 100000 && ex->run_one(); ++i) {}
        hx::trace().muted = false;
    }
};
} // namespace

int main()
{
    return hx::main_loop([](const json& sc) {
        hx::trace().muted = false;
        World w;
        try
        {
            for (auto& o : sc["ops"]) w.exec(o);
        }
        catch (const json::exception&)
        {
            throw;
        }
        catch (const std::exception& e)
        {
            emit({{"e", "crash"}, {"what", e.what()}});
        }
    });
}
