// Applies one JSON operation to an InMemoryDatabase (through its public interfaces) or to a
// SingleTypeDatabase, and returns the operation completed with its outcome.
#pragma once
#include <memory>
#include <stdexcept>
#include "hx.h"
#include "modbus/server/db/InMemoryDatabase.h"

namespace dbops
{
using hx::json;
using namespace modbus;

struct TxnAbort : std::runtime_error
{
    TxnAbort() : std::runtime_error("txn") {}
};

// whether the calling thread is inside a call of the database
inline thread_local int in_lib = 0;
struct Lib
{
    int old;
    explicit Lib(int v = 1) : old(in_lib) { in_lib = v; }
    ~Lib() { in_lib = old; }
};
template <typename F> auto lib(F f) -> decltype(f())
{
    Lib l;
    return f();
}
#define IN_LIB(call) lib([&] { return call; })

template <typename T> int exc_code(const Expected<T>& r)
{
    if (r.is_valid()) return 0;
    if (r.template has_exception<ModbusException>())
        return static_cast<int>(r.template get_exception<ModbusException>().get_exception_type());
    return -2;
}

template <typename R> json read_out(const Expected<R>& r)
{
    json o;
    o["x"] = exc_code(r);
    o["vals"] = json::array();
    if (r.is_valid())
        for (auto& v : r.get().values) o["vals"].push_back({(int)v.address, (int)v.value});
    return o;
}

inline bool in_range16(int a) { return a >= 0 && a <= 65535; }

// what the outputs hold before they are asked for
inline bool marker(int a) { return (a ^ (a >> 1)) & 1; }

inline json txn_step(IDatabase& db, const json& o)
{
    const std::string t = o["t"];
    const Address a = o["a"].get<int>();
    const std::string k = o["o"];
    bool b = marker(a);
    uint16_t w = 0xA5A5;
    if (k == "get")
    {
        bool r = false;
        int v = 0;
        if (t == "co") { r = IN_LIB(db.get_coil(a, b)); v = b; }
        else if (t == "di") { r = IN_LIB(db.get_discrete_input(a, b)); v = b; }
        else if (t == "hr") { r = IN_LIB(db.get_holding_register(a, w)); v = w; }
        else { r = IN_LIB(db.get_input_register(a, w)); v = w; }
        // a failing get leaves its output alone
        return json::array({r ? 1 : 0, r ? v : b == marker(a) && w == 0xA5A5 ? 0 : -1});
    }
    int v = o["v"].get<int>();
    bool r = false;
    if (t == "co") r = IN_LIB(db.set_coil(a, v != 0));
    else if (t == "di") r = IN_LIB(db.set_discrete_input(a, v != 0));
    else if (t == "hr") r = IN_LIB(db.set_holding_register(a, v));
    else r = IN_LIB(db.set_input_register(a, v));
    return json::array({r ? 1 : 0, v});
}

inline bool db_add(InMemoryDatabase& db, const std::string& t, Address a, int v)
{
    if (t == "co") return IN_LIB(db.add_coil(a, v != 0));
    if (t == "di") return IN_LIB(db.add_discrete_input(a, v != 0));
    if (t == "hr") return IN_LIB(db.add_holding_register(a, v));
    return IN_LIB(db.add_input_register(a, v));
}

inline int fill_value(const std::string& t, int x, int k, int c)
{
    bool bit = t == "co" || t == "di" || t == "sb";
    return (int)(((long long)x * k + c) % (bit ? 2 : 65536));
}

// between: called inside a transaction between its steps
inline json apply_db(InMemoryDatabase& db, const json& op, const std::function<void()>& between = {})
{
    json ev = op;
    const std::string e = op["e"];
    IServerSession& s = db;
    try
    {
        if (e == "add")
        {
            ev["r"] = db_add(db, op["t"], op["a"].get<int>(), op["v"].get<int>()) ? 1 : 0;
        }
        else if (e == "fill")
        {
            // adds a .. a+n-1; r = 1 when each add answered as it must (see "dup" in the scenario)
            const std::string t = op["t"];
            int a = op["a"], n = op["n"], k = op["k"], c = op["c"];
            bool ok = true;
            for (int x = a; x < a + n; ++x) ok = db_add(db, t, x, fill_value(t, x, k, c)) && ok;
            ev["r"] = ok ? 1 : 0;
        }
        else if (e == "rd")
        {
            const std::string t = op["t"];
            Address a = op["a"].get<int>();
            uint16_t n = op["n"].get<int>();
            json o;
            if (t == "co") o = read_out(IN_LIB((s.on_request(ReadCoilsRequest{a, n}))));
            else if (t == "di") o = read_out(IN_LIB((s.on_request(ReadDiscreteInputsRequest{a, n}))));
            else if (t == "hr") o = read_out(IN_LIB((s.on_request(ReadHoldingRegistersRequest{a, n}))));
            else o = read_out(IN_LIB((s.on_request(ReadInputRegistersRequest{a, n}))));
            ev.update(o);
        }
        else if (e == "ws")
        {
            Address a = op["a"].get<int>();
            int v = op["v"];
            ev["ra"] = 0;
            ev["rv"] = 0;
            if (op["t"] == "co")
            {
                auto r = IN_LIB((s.on_request(WriteSingleCoilRequest{SingleBitValue{a, v != 0}})));
                ev["x"] = exc_code(r);
                if (r.is_valid()) { ev["ra"] = (int)r.get().value.address; ev["rv"] = (int)r.get().value.value; }
            }
            else
            {
                auto r = IN_LIB((s.on_request(WriteSingleRegisterRequest{RegisterValue{a, (uint16_t)v}})));
                ev["x"] = exc_code(r);
                if (r.is_valid()) { ev["ra"] = (int)r.get().value.address; ev["rv"] = (int)r.get().value.value; }
            }
        }
        else if (e == "wm")
        {
            Address a = op["a"].get<int>();
            ev["ra"] = 0;
            ev["rv"] = 0;
            if (op["t"] == "co")
            {
                WriteMultipleCoilsRequest q{a};
                for (auto& v : op["vs"]) q.values.push_back(v.get<int>() != 0);
                auto r = IN_LIB((s.on_request(q)));
                ev["x"] = exc_code(r);
                if (r.is_valid()) { ev["ra"] = (int)r.get().starting_address; ev["rv"] = (int)r.get().qty_of_coils; }
            }
            else
            {
                WriteMultipleRegistersRequest q{a};
                for (auto& v : op["vs"]) q.values.push_back((uint16_t)v.get<int>());
                auto r = IN_LIB((s.on_request(q)));
                ev["x"] = exc_code(r);
                if (r.is_valid()) { ev["ra"] = (int)r.get().starting_address; ev["rv"] = (int)r.get().qty_of_registers; }
            }
        }
        else if (e == "txn")
        {
            json res = json::array();
            ev["th"] = 0;
            // 1 when the exception that arrives is the one that was thrown
            auto want = [&](int kind) {
                for (auto& o : op["ops"])
                    if (o["o"] == "throw") return o.value("v", 0) == kind ? 1 : 2;
                return 2;
            };
            try
            {
                Lib l;
                db.execute_transaction([&](IDatabase& d) {
                    Lib outside{0};
                    bool first = true;
                    for (auto& o : op["ops"])
                    {
                        if (between && !first) between();
                        first = false;
                        if (o["o"] == "throw")
                        {
                            // what is thrown must not matter
                            switch (o.value("v", 0))
                            {
                            case 1: throw 42;
                            case 2: throw std::bad_alloc();
                            case 3: throw ModbusException(ExceptionType::ServerDeviceBusy);
                            default: throw TxnAbort();
                            }
                        }
                        res.push_back(txn_step(d, o));
                    }
                });
            }
            catch (const json::exception&)
            {
                throw;
            }
            catch (const TxnAbort&)
            {
                ev["th"] = want(0);
            }
            catch (int x)
            {
                ev["th"] = x == 42 ? want(1) : 2;
            }
            catch (const std::bad_alloc&)
            {
                ev["th"] = want(2);
            }
            catch (const ModbusException& x)
            {
                ev["th"] = x.get_exception_type() == ExceptionType::ServerDeviceBusy ? want(3) : 2;
            }
            catch (...)
            {
                ev["th"] = 2;
            }
            ev["res"] = res;
        }
        else if (e == "snap")
        {
            json p = json::array();
            auto& probes = op["p"];
            Lib l;
            db.execute_transaction([&](IDatabase& d) {
                Lib outside{0};
                for (auto& q : probes)
                {
                    json r = txn_step(d, json{{"o", "get"}, {"t", q[0]}, {"a", q[1]}});
                    p.push_back({q[0], q[1], r[0] == 1 ? r[1].get<int>() : -1});
                }
            });
            ev["p"] = p;
        }
    }
    catch (const json::exception&)
    {
        throw;
    }
    catch (...)
    {
        // no operation of the database may throw
        for (auto f : {"r", "x", "th", "ra", "rv"}) ev[f] = -9;
        ev["res"] = json::array({json::array({-9, -9})});
        ev["vals"] = json::array({json::array({-9, -9})});
        if (e == "snap") ev["p"] = json::array();
    }
    return ev;
}

template <typename T> json apply_single(SingleTypeDatabase<T>& db, const json& op)
{
    json ev = op;
    const std::string e = op["e"];
    const Address a = op["a"].get<int>();
    try
    {
        if (e == "sadd") ev["r"] = db.add_value(a, (T)op["v"].get<int>()) ? 1 : 0;
        else if (e == "sfill")
        {
            int n = op["n"], k = op["k"], c = op["c"];
            bool ok = true;
            for (int x = a; x < a + n; ++x) ok = db.add_value(x, (T)fill_value(op["t"], x, k, c)) && ok;
            ev["r"] = ok ? 1 : 0;
        }
        else if (e == "sset") ev["r"] = db.set_value(a, (T)op["v"].get<int>()) ? 1 : 0;
        else if (e == "ssets")
        {
            std::vector<T> v;
            for (auto& x : op["vs"]) v.push_back((T)x.get<int>());
            ev["r"] = db.set_values(a, v) ? 1 : 0;
        }
        else if (e == "sget")
        {
            const T before = sizeof(T) == 1 ? marker(a) : (T)0xA5A5;
            T v = before;
            bool r = db.get_value(a, v);
            ev["r"] = r ? 1 : 0;
            ev["v"] = r ? (int)v : v == before ? 0 : -1;
        }
        else if (e == "sgets")
        {
            std::vector<T> v;
            for (int i = 0; i < op["n"].get<int>(); ++i) v.push_back(sizeof(T) == 1 ? marker(i) : (T)(i * 257 + 1));
            const auto before = v;
            bool r = db.get_values(a, v);
            ev["r"] = r ? 1 : 0;
            ev["vals"] = json::array();
            // a failing read leaves its output alone
            if (!r && v != before) ev["vals"].push_back(-1);
            if (r)
                for (auto x : v) ev["vals"].push_back((int)x);
        }
        else if (e == "sval") ev["r"] = db.is_valid(a) ? 1 : 0;
        else if (e == "svalr") ev["r"] = db.is_valid_range(a, op["n"].get<int>()) ? 1 : 0;
    }
    catch (const json::exception&)
    {
        throw;
    }
    catch (...)
    {
        ev["r"] = -9;
        ev["v"] = -9;
        ev["vals"] = json::array({-9});
    }
    return ev;
}
} // namespace dbops
