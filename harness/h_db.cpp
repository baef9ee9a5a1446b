// Sequential database histories: {"id":..,"ops":[..],"probes":[[table,address],..]}
#include <algorithm>
#include "db_ops.h"

using hx::json;

int main()
{
    return hx::main_loop([](const json& sc) {
        // the tables whose names end in 2 are those of the second database and the second objects
        std::shared_ptr<modbus::InMemoryDatabase> dbs[2] = {std::make_shared<modbus::InMemoryDatabase>(), std::make_shared<modbus::InMemoryDatabase>()};
        using B = modbus::SingleTypeDatabase<bool>;
        using R = modbus::SingleTypeDatabase<uint16_t>;
        std::unique_ptr<B> sb[2] = {std::make_unique<B>(), std::make_unique<B>()};
        std::unique_ptr<R> sr[2] = {std::make_unique<R>(), std::make_unique<R>()};
        int steps = 0;
        auto two = [](const json& t) { return t.get<std::string>().back() == '2' ? 1 : 0; };
        auto base = [](const json& t) { return t.get<std::string>().substr(0, 2); };
        auto on_single = [&](const json& op) {
            json o = op;
            const int k = two(op["t"]);
            o["t"] = base(op["t"]);
            json ev = o["t"] == "sb" ? dbops::apply_single(*sb[k], o) : dbops::apply_single(*sr[k], o);
            ev["t"] = op["t"];
            hx::emit(ev);
        };
        auto on_db = [&](const json& op) {
            json o = op;
            int k = 0;
            if (op.contains("t"))
            {
                k = two(op["t"]);
                o["t"] = base(op["t"]);
            }
            if (op.contains("ops"))
                for (auto& x : o["ops"])
                {
                    k = two(x["t"]);
                    x["t"] = base(x["t"]);
                }
            if (op.contains("p"))
            {
                json ev = op, one = op;
                ev["p"] = json::array();
                for (auto& q : op["p"])
                {
                    one["p"] = json::array({json::array({base(q[0]), q[1]})});
                    auto r = dbops::apply_db(*dbs[two(q[0])], one);
                    ev["p"].push_back({q[0], q[1], r["p"].empty() ? json(-9) : r["p"][0][2]});
                }
                hx::emit(ev);
                return;
            }
            json ev = dbops::apply_db(*dbs[k], o);
            if (op.contains("t")) ev["t"] = op["t"];
            if (op.contains("ops")) ev["ops"] = op["ops"];
            hx::emit(ev);
        };
        // the stand-alone objects, in alternating order; after every step when "every" asks for it
        auto single_probes = [&] {
            if (!sc.value("every", false)) return;
            auto p = sc["sprobes"];
            if (++steps % 2) std::reverse(p.begin(), p.end());
            for (auto& q : p) on_single(json{{"e", "sget"}, {"t", q[0]}, {"a", q[1]}});
        };
        for (auto& op : sc["ops"])
        {
            const std::string e = op["e"];
            if (e == "scopy")
            {
                const int d = two(op["t"]), s = two(op["s"]);
                // by assignment or by construction
                auto copy = [&](auto& slot) {
                    using X = typename std::decay_t<decltype(slot[0])>::element_type;
                    if (op.value("by", 0) == 0) *slot[d] = *slot[s];
                    else slot[d] = std::make_unique<X>(*slot[s]);
                };
                if (base(op["t"]) == "sb") copy(sb);
                else copy(sr);
                hx::emit(op);
                single_probes();
                continue;
            }
            bool single = e[0] == 's' && e != "snap";
            if (single)
            {
                on_single(op);
                single_probes();
                continue;
            }
            on_db(op);
            if (!sc["probes"].empty()) on_db(json{{"e", "snap"}, {"p", sc["probes"]}});
        }
        // SingleTypeDatabase contents at the end
        if (sc.contains("sprobes"))
            for (auto& q : sc["sprobes"]) on_single(json{{"e", "sget"}, {"t", q[0]}, {"a", q[1]}});
    });
}
