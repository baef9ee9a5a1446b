// The database behind a server, from the application's side.
#pragma once
#include "hx.h"
#include "modbus/server/db/InMemoryDatabase.h"

namespace e2e
{
using hx::json;
using namespace modbus;

inline void add(InMemoryDatabase& db, const json& o)
{
    Address x = o["a"].get<int>();
    int v = o["v"];
    const std::string t = o["t"];
    if (t == "co") db.add_coil(x, v != 0);
    else if (t == "di") db.add_discrete_input(x, v != 0);
    else if (t == "hr") db.add_holding_register(x, v);
    else db.add_input_register(x, v);
}

// [table, address] -> [table, address, value or -1]
inline json snap(InMemoryDatabase& db, const json& probes)
{
    json p = json::array();
    db.execute_transaction([&](IDatabase& tx) {
        for (auto& x : probes)
        {
            const std::string t = x[0];
            Address a = x[1].get<int>();
            bool b = false;
            uint16_t w = 0;
            bool bit = t == "co" || t == "di";
            bool has = t == "co" ? tx.get_coil(a, b) : t == "di" ? tx.get_discrete_input(a, b) : t == "hr" ? tx.get_holding_register(a, w) : tx.get_input_register(a, w);
            p.push_back({t, x[1], has ? (bit ? (int)b : (int)w) : -1});
        }
    });
    return p;
}
} // namespace e2e
