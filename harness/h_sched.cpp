// Scheduled requests and session timers: the real ClientSessionImpl over a channel whose completions are scripted
// and a deterministic executor with virtual time. Scenario operations are the steps of specs/Sched.tla.
#include <map>
#include "hx.h"
#include "wire.h"
#include "exe4cpp/MockExecutor.h"
#include "modbus/ITimer.h"
#include "modbus/logging/LoggerFactory.h"
#include "client/channel/IClientChannelImpl.h"
#include "client/session/ClientSessionImpl.h"
#include "messages/IMessage.h"
#include "modbus/client/IScheduledRequest.h"

using namespace modbus;
using hx::emit;
using hx::json;
using std::chrono::milliseconds;

namespace
{
struct World;

struct Channel final : IClientChannelImpl
{
    explicit Channel(World& w) : w{w} {}
    std::shared_ptr<IClientSession> create_session(const UnitIdentifier&, const duration_t&) override { return nullptr; }
    void shutdown() override {}
    void send_request(const UnitIdentifier& unit, const IMessage& request, const exe4cpp::duration_t& timeout, ResponseHandler<ser4cpp::rseq_t> h) override;
    World& w;
};

struct World
{
    std::shared_ptr<exe4cpp::MockExecutor> ex = std::make_shared<exe4cpp::MockExecutor>();
    std::shared_ptr<Channel> channel = std::make_shared<Channel>(*this);
    std::map<int, std::shared_ptr<IClientSession>> sessions;
    std::map<int, int> unit_of, to_of;
    std::map<std::pair<int, int>, int> poll_at;           // (function, address) -> poll
    std::map<int, std::shared_ptr<IScheduledRequest>> polls;
    std::map<int, json> on;
    std::map<int, int> dones;
    std::map<int, ResponseHandler<ser4cpp::rseq_t>> open;  // sends not completed yet
    std::map<int, json> rq_of_send;
    std::map<int, json> reqs;
    std::map<int, std::unique_ptr<ITimer>> timers;
    int sent = 0, depth = 0, now = 0, salt = 0;

    int q()
    {
        ex->check_for_expired_timers();
        return depth ? -1 : (int)ex->num_active();
    }

    int abs_ms(const steady_time_t& t) { return (int)std::chrono::duration_cast<milliseconds>(t.time_since_epoch()).count(); }

    template <typename T> ResponseHandler<T> handler(int k)
    {
        return [this, k](const Expected<T>& r) {
            int n = ++dones[k];
            emit({{"e", "done"}, {"k", k}, {"r", wire::result(r)}});
            auto it = on.find(k);
            if (it == on.end()) return;
            for (auto& o : it->second)
                if (o.value("nth", n) == n) nested(o);
        };
    }

    void nested(const json& o)
    {
        ++depth;
        exec(o);
        --depth;
    }

    void exec(const json& o)
    {
        const std::string op = o["o"];
        auto ret = [&] { emit({{"e", "ret"}, {"q", q()}}); };
        if (op == "open")
        {
            int s = o["s"];
            unit_of[s] = o["u"];
            to_of[s] = o["to"];
            sessions[s] = std::make_shared<ClientSessionImpl>(ex, LoggerFactory::create_null_logger("t"), channel, UnitIdentifier{(uint8_t)unit_of[s]}, milliseconds(to_of[s]));
        }
        else if (op == "sch")
        {
            int k = o["k"], s = o["s"], fn = o["rq"]["fn"], a = o["rq"]["a"];
            uint16_t n = o["rq"]["n"].get<int>();
            reqs[k] = o["rq"];
            poll_at[{fn, a}] = k;
            if (o.contains("on")) on[k] = o["on"];
            int to = o.contains("to") ? o["to"].get<int>() : to_of[s];
            emit({{"e", "sch"}, {"k", k}, {"s", s}, {"u", unit_of[s]}, {"rq", o["rq"]}, {"to", to}, {"per", o["per"]}});
            auto per = milliseconds(o["per"].get<int>());
            auto& S = *sessions[s];
            auto go = [&](auto r) {
                using R = typename wire::ResponseOf<decltype(r)>::type;
                if (o.contains("to")) polls[k] = S.schedule_request(r, milliseconds(to), per, handler<R>(k));
                else polls[k] = S.schedule_request(r, per, handler<R>(k));
            };
            switch (fn)
            {
            case 1: go(ReadCoilsRequest{(uint16_t)a, n}); break;
            case 2: go(ReadDiscreteInputsRequest{(uint16_t)a, n}); break;
            case 3: go(ReadHoldingRegistersRequest{(uint16_t)a, n}); break;
            default: go(ReadInputRegistersRequest{(uint16_t)a, n}); break;
            }
            ret();
        }
        else if (op == "start" || op == "stop" || op == "freq")
        {
            int k = o["k"];
            json ev{{"e", op}, {"k", k}};
            if (op == "freq") ev["per"] = o["per"];
            emit(ev);
            if (op == "start") polls[k]->start();
            else if (op == "stop") polls[k]->stop();
            else polls[k]->set_frequency(milliseconds(o["per"].get<int>()));
            ret();
        }
        else if (op == "sshut")
        {
            emit({{"e", "sshut"}, {"s", o["s"]}});
            sessions[o["s"].get<int>()]->shutdown();
            ret();
        }
        else if (op == "get")
        {
            int k = o["k"];
            auto f = polls[k]->get_frequency();
            emit({{"e", "get"}, {"k", k}, {"run", polls[k]->is_running() ? 1 : 0}, {"per", (int)std::chrono::duration_cast<milliseconds>(f).count()}});
        }
        else if (op == "tset")
        {
            int t = (int)timers.size() + 1, d = o["d"], s = o["s"];
            emit({{"e", "tset"}, {"t", t}, {"at", now + d}});
            action_t act = [this, t, o] {
                emit({{"e", "tfire"}, {"t", t}});
                if (o.contains("on"))
                    for (auto& x : o["on"]) nested(x);
            };
            timers[t] = nullptr;
            if (o.value("abs", 0)) timers[t] = sessions[s]->start(ex->get_time() + milliseconds(d), act);
            else timers[t] = sessions[s]->start(milliseconds(d), act);
            ret();
        }
        else if (op == "tcancel")
        {
            int t = o["t"];
            if (!timers.count(t) || !timers[t]) return;
            emit({{"e", "tcancel"}, {"t", t}});
            timers[t]->cancel();
            ret();
        }
        else if (op == "texp")
        {
            int t = o["t"];
            if (!timers.count(t) || !timers[t]) return;
            auto x = timers[t]->expires_at();
            emit({{"e", "texp"}, {"t", t}, {"v", x == steady_time_t::min() ? -1 : abs_ms(x)}});
        }
        else if (depth > 0)
        {
            return;
        }
        else if (op == "run")
        {
            int n = o.value("n", 3000);
            while (n-- > 0)
            {
                ex->check_for_expired_timers();
                if (!ex->num_active()) break;
                emit({{"e", "run"}});
                ex->run_one();
                emit({{"e", "ran"}, {"q", q()}});
            }
        }
        else if (op == "adv")
        {
            // TLC's integers have 32 bits
            if (now + o["ms"].get<long long>() > 1500000000) return;
            now += o["ms"].get<int>();
            ex->advance_time(milliseconds(o["ms"].get<int>()));
            emit({{"e", "adv"}, {"now", now}, {"q", q()}});
        }
        else if (op == "advto")
        {
            auto t = ex->next_timer_expiration_abs();
            if (t == exe4cpp::steady_time_t::max()) return;
            long long ms = std::chrono::duration_cast<milliseconds>(t - ex->get_time()).count() - o.value("less", 0);
            if (ms <= 0 || now + ms > 1500000000) return;
            now += ms;
            ex->advance_time(milliseconds(ms));
            emit({{"e", "adv"}, {"now", now}, {"q", q()}});
        }
        else if (op == "comp")
        {
            // i: the i-th send; or k: the oldest (or "last") open send of poll k
            int i = o.value("i", 0);
            if (o.contains("k"))
                for (auto& x : open)
                    if (reqs[o["k"].get<int>()] == rq_of_send[x.first] && (i == 0 || o.value("last", 0))) i = x.first;
            if (!open.count(i)) return;
            auto h = open[i];
            open.erase(i);
            std::string kind = o.value("r", "tmo");
            json rq = rq_of_send[i];
            if (kind == "val")
            {
                int fn = rq["fn"], n = rq["n"], len = fn <= 2 ? (n + 7) / 8 : 2 * n;
                json b = json::array({fn, len});
                ++salt;
                for (int j = 0; j < len; ++j) b.push_back((salt * 37 + j * 11) & 255);
                if (o.contains("pdu")) b = o["pdu"];
                emit({{"e", "comp"}, {"i", i}, {"r", {{"k", "val"}, {"b", b}}}});
                std::vector<uint8_t> v;
                for (auto& x : b) v.push_back((uint8_t)x.get<int>());
                h(Expected<ser4cpp::rseq_t>(ser4cpp::rseq_t(v.data(), v.size())));
            }
            else if (kind == "conn")
            {
                emit({{"e", "comp"}, {"i", i}, {"r", {{"k", "conn"}}}});
                h(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{"x"}));
            }
            else if (kind == "malreq")
            {
                emit({{"e", "comp"}, {"i", i}, {"r", {{"k", "malreq"}}}});
                h(Expected<ser4cpp::rseq_t>::from_exception(MalformedModbusRequestException{"x"}));
            }
            else
            {
                emit({{"e", "comp"}, {"i", i}, {"r", {{"k", "tmo"}}}});
                h(Expected<ser4cpp::rseq_t>::from_exception(TimeoutException{}));
            }
            emit({{"e", "compend"}, {"q", q()}});
        }
        else
        {
            fprintf(stderr, "unknown operation %s\n", op.c_str());
            exit(3);
        }
    }

    ~World()
    {
        hx::trace().muted = true;
        for (auto& p : polls) p.second->stop();
        for (auto& s : sessions) s.second->shutdown();
        for (auto& t : timers)
            if (t.second) t.second->cancel();
        on.clear();
        for (int i = 0; i < 100000 && ex->run_one(); ++i) {}
        open.clear();
        hx::trace().muted = false;
    }
};

void Channel::send_request(const UnitIdentifier& unit, const IMessage& request, const exe4cpp::duration_t& timeout, ResponseHandler<ser4cpp::rseq_t> h)
{
    std::vector<uint8_t> buf(300);
    ser4cpp::wseq_t view(buf.data(), buf.size());
    auto start = view;
    request.build_message(view);
    std::size_t len = start.length() - view.length();
    int k = 0;
    if (len >= 3 && w.poll_at.count({buf[0], buf[1] * 256 + buf[2]})) k = w.poll_at[{buf[0], buf[1] * 256 + buf[2]}];
    int i = ++w.sent;
    w.open[i] = h;
    w.rq_of_send[i] = k ? w.reqs[k] : json();
    emit({{"e", "snd"}, {"k", k}, {"i", i}, {"u", (int)unit.get_value()}, {"to", (int)std::chrono::duration_cast<milliseconds>(timeout).count()}, {"b", hx::to_bytes(buf.data(), len)}});
}
} // namespace

int main()
{
    return hx::main_loop([](const json& sc) {
        hx::trace().muted = false;
        World w;
        try
        {
            for (auto& o : sc["ops"]) w.exec(o);
        }
        catch (const json::exception&)
        {
            throw;
        }
        catch (const std::exception& e)
        {
            emit({{"e", "crash"}, {"what", e.what()}});
        }
    });
}
