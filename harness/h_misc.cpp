// Value types: Expected<T>, exception codes, identifiers, endpoints, loggers.
// {"id":..,"T":"tracked|bool|resp","ops":[...]}
#include <any>
#include <array>
#include <iomanip>
#include <unistd.h>
#include <map>
#include <regex>
#include <sstream>
#include <unordered_map>
#include "hx.h"
#include "TransactionIdentifier.h"
#include "logging/Logger.h"
#include "messages/ExceptionResponse.h"
#include "modbus/Expected.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/UnitIdentifier.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/messages/ReadCoilsResponse.h"
#include "ser4cpp/container/StaticBuffer.h"
#include "spdlog/sinks/base_sink.h"

using hx::json;
using namespace modbus;

static long g_live = 0, g_livex = 0;
// the number of copies after which the next one throws; -1 when none does
static int g_fuse = -1;
struct Tracked
{
    std::string* s;
    explicit Tracked(int v) : s{new std::string("a value long enough to live on the heap: " + std::to_string(v))} { ++g_live; }
    Tracked(const Tracked& o) : s{nullptr}
    {
        if (g_fuse == 0) { g_fuse = -1; throw std::length_error("copying failed"); }
        if (g_fuse > 0) --g_fuse;
        if (o.s) s = new std::string(*o.s);
        ++g_live;
    }
    Tracked(Tracked&& o) : s{o.s} { o.s = nullptr; ++g_live; }
    Tracked& operator=(const Tracked& o)
    {
        if (this != &o) { delete s; s = o.s ? new std::string(*o.s) : nullptr; }
        return *this;
    }
    ~Tracked() { delete s; --g_live; }
};

struct UserError : std::runtime_error
{
    UserError(const std::string& m, int n) : std::runtime_error{m}, n{n} { ++g_livex; }
    UserError(const UserError& o) : std::runtime_error{o}, n{o.n} { ++g_livex; }
    ~UserError() { --g_livex; }
    int n;
};
struct DeepError : UserError, ConnectionException
{
    DeepError(const std::string& m, int n) : UserError{m, n}, ConnectionException{m}, k{n} {}
    int k;
};

struct ModSub : ModbusException
{
    ModSub(ExceptionType t, int n) : ModbusException{t}, n{n} {}
    int n;
};

template <typename T> struct Conv;
// a class whose list constructor would accept another object of the class
template <> struct Conv<std::vector<std::any>>
{
    static std::vector<std::any> make(int v)
    {
        std::vector<std::any> r{std::any{v}};
        for (int i = 0; i < v; ++i) r.push_back(i);
        return r;
    }
    static int read(const std::vector<std::any>& r)
    {
        for (std::size_t i = 0; i < r.size(); ++i)
            if (r[i].type() != typeid(int) || std::any_cast<int>(r[i]) != static_cast<int>(i ? i - 1 : r.size() - 1)) return -2;
        return static_cast<int>(r.size()) - 1;
    }
    static bool counts() { return false; }
};
// large and over-aligned
struct alignas(64) Big
{
    std::array<int, 200> a;
};
template <> struct Conv<Big>
{
    static Big make(int v)
    {
        Big b;
        for (std::size_t i = 0; i < b.a.size(); ++i) b.a[i] = v + static_cast<int>(i);
        return b;
    }
    static int read(const Big& b)
    {
        if (reinterpret_cast<std::uintptr_t>(&b) % 64) return -3;
        for (std::size_t i = 0; i < b.a.size(); ++i)
            if (b.a[i] != b.a[0] + static_cast<int>(i)) return -2;
        return b.a[0];
    }
    static bool counts() { return false; }
};
template <> struct Conv<std::string>
{
    static std::string make(int v) { return std::to_string(v) + std::string(v, 'x'); }
    static int read(const std::string& s)
    {
        int v = s.empty() ? -2 : std::atoi(s.c_str());
        return s == make(v < 0 ? 0 : v) ? v : -2;
    }
    static bool counts() { return false; }
};
template <> struct Conv<std::unique_ptr<int>>
{
    static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); }
    static int read(const std::unique_ptr<int>& v) { return v ? *v : -2; }
    static bool counts() { return false; }
};
template <> struct Conv<bool>
{
    static bool make(int v) { return v % 2 != 0; }
    static int read(bool v) { return v; }
    static bool counts() { return false; }
};
template <> struct Conv<Tracked>
{
    static Tracked make(int v) { return Tracked{v}; }
    static int read(const Tracked& t) { return t.s ? std::stoi(t.s->substr(t.s->find(": ") + 2)) : -2; }
    static bool counts() { return true; }
};
template <> struct Conv<int>
{
    static int make(int v) { return v; }
    static int read(int v) { return v; }
    static bool counts() { return false; }
};
template <> struct Conv<ReadCoilsResponse>
{
    static ReadCoilsResponse make(int v)
    {
        ReadCoilsResponse r;
        for (int i = 0; i < v; ++i) r.values.push_back(SingleBitValue{static_cast<Address>(i), i % 2 == 0});
        return r;
    }
    static int read(const ReadCoilsResponse& r)
    {
        for (std::size_t i = 0; i < r.values.size(); ++i)
            if (r.values[i].address != i || r.values[i].value != (i % 2 == 0)) return -2;
        return static_cast<int>(r.values.size());
    }
    static bool counts() { return false; }
};

static const std::vector<std::pair<const char*, ExceptionType>> g_types{
    {"IllegalFunction", ExceptionType::IllegalFunction},
    {"IllegalDataAddress", ExceptionType::IllegalDataAddress},
    {"IllegalDataValue", ExceptionType::IllegalDataValue},
    {"ServerDeviceFailure", ExceptionType::ServerDeviceFailure},
    {"Acknowledge", ExceptionType::Acknowledge},
    {"ServerDeviceBusy", ExceptionType::ServerDeviceBusy},
    {"MemoryParityError", ExceptionType::MemoryParityError},
    {"GatewayPathUnavailable", ExceptionType::GatewayPathUnavailable},
    {"GatewayTargetDeviceFailedToRespond", ExceptionType::GatewayTargetDeviceFailedToRespond},
    {"Unknown", ExceptionType::Unknown}};
static std::string type_name(ExceptionType t)
{
    for (auto& p : g_types)
        if (p.second == t) return p.first;
    return "?";
}
static ExceptionType type_of(int p) { return g_types[p % g_types.size()].second; }
static int type_index(ExceptionType t)
{
    for (std::size_t i = 0; i < g_types.size(); ++i)
        if (g_types[i].second == t) return static_cast<int>(i);
    return -2;
}

// payloads
static int msg_num(const std::string& s)
{
    auto p = s.rfind('#');
    return p == std::string::npos ? -2 : std::stoi(s.substr(p + 1));
}
static std::string msg(int p) { return "some message that does not fit in a small string #" + std::to_string(p); }
static int payload(const TimeoutException& e) { return e.get_message().empty() ? -2 : 0; }
static int payload(const ConnectionException& e) { return msg_num(e.get_message()); }
static int payload(const MalformedModbusRequestException& e) { return msg_num(e.get_message()); }
static int payload(const MalformedModbusResponseException& e) { return msg_num(e.get_message()); }
static int payload(const ModbusException& e)
{
    std::ostringstream o;
    o << e.get_exception_type();
    return o.str() == static_cast<const IException&>(e).get_message() ? type_index(e.get_exception_type()) : -2;
}
static int payload(const std::runtime_error& e) { return msg_num(e.what()); }
static int payload(const UserError& e) { return msg_num(e.what()) == e.n ? e.n : -2; }
static int payload(const DeepError& e) { return payload(static_cast<const UserError&>(e)) == e.k ? e.k : -2; }
static int payload(const std::exception&) { return 0; }
static int payload(int e) { return e; }
static int payload(const std::invalid_argument& e) { return msg_num(e.what()); }
static int payload(const ModSub& e) { return type_index(e.get_exception_type()) == e.n ? e.n : -2; }
static int payload(const IException& e) { return e.get_message().empty() ? -2 : 0; }

static int payload_of(std::exception_ptr p)
{
    if (!p) return -9;
    try { std::rethrow_exception(p); }
    catch (const DeepError& e) { return payload(e); }
    catch (const UserError& e) { return payload(e); }
    catch (int e) { return e; }
    catch (const TimeoutException& e) { return payload(e); }
    catch (const ConnectionException& e) { return payload(e); }
    catch (const ModSub& e) { return payload(e); }
    catch (const ModbusException& e) { return payload(e); }
    catch (const MalformedModbusRequestException& e) { return payload(e); }
    catch (const MalformedModbusResponseException& e) { return payload(e); }
    catch (const std::invalid_argument& e) { return payload(e); }
    catch (const std::runtime_error& e) { return payload(e); }
    catch (...) { return -8; }
}

static std::string kind_of(std::exception_ptr p)
{
    if (!p) return "null";
    try { std::rethrow_exception(p); }
    catch (const DeepError&) { return "deep"; }
    catch (const UserError&) { return "user"; }
    catch (int) { return "int"; }
    catch (const TimeoutException&) { return "timeout"; }
    catch (const ConnectionException&) { return "conn"; }
    catch (const ModSub&) { return "modsub"; }
    catch (const ModbusException&) { return "modbus"; }
    catch (const MalformedModbusRequestException&) { return "malreq"; }
    catch (const MalformedModbusResponseException&) { return "malresp"; }
    catch (const IException&) { return "base"; }
    catch (const std::invalid_argument&) { return "invarg"; }
    catch (const std::runtime_error&) { return "std"; }
    catch (...) { return "other"; }
}

template <typename E, typename T> void probe(const Expected<T>& o, const char* name, json& has, json& gete)
{
    if (o.template has_exception<E>()) has.push_back(name);
    try
    {
        auto e = o.template get_exception<E>();
        gete.push_back(json::array({name, payload(e)}));
    }
    catch (const std::invalid_argument&)
    {
    }
}

template <typename T> json observe(Expected<T>& o)
{
    json j;
    const Expected<T>& c = o;
    j["valid"] = o.is_valid() ? 1 : 0;
    j["get"] = -1;
    j["getx"] = "";
    j["getp"] = 0;
    std::string cx;
    int cv = -1, cp = 0;
    const void *at = nullptr, *cat = nullptr;
    try { j["get"] = Conv<T>::read(o.get()); at = &o.get(); }
    catch (...) { j["getx"] = kind_of(std::current_exception()); j["getp"] = payload_of(std::current_exception()); }
    try { cv = Conv<T>::read(c.get()); cat = &c.get(); }
    catch (...) { cx = kind_of(std::current_exception()); cp = payload_of(std::current_exception()); }
    if (cx != j["getx"] || cv != j["get"] || cp != j["getp"] || at != cat) j["getx"] = "const and non-const differ";
    json has = json::array(), gete = json::array();
    probe<TimeoutException>(o, "timeout", has, gete);
    probe<ConnectionException>(o, "conn", has, gete);
    probe<ModbusException>(o, "modbus", has, gete);
    probe<MalformedModbusRequestException>(o, "malreq", has, gete);
    probe<MalformedModbusResponseException>(o, "malresp", has, gete);
    probe<std::runtime_error>(o, "std", has, gete);
    probe<IException>(o, "base", has, gete);
    probe<UserError>(o, "user", has, gete);
    probe<DeepError>(o, "deep", has, gete);
    probe<std::exception>(o, "stdexc", has, gete);
    probe<int>(o, "int", has, gete);
    probe<std::invalid_argument>(o, "invarg", has, gete);
    probe<ModSub>(o, "modsub", has, gete);
    j["has"] = has;
    j["gete"] = gete;
    j["ptrp"] = 0;
    try { j["ptr"] = kind_of(c.get_exception()); j["ptrp"] = payload_of(c.get_exception()); }
    catch (const std::invalid_argument&) { j["ptr"] = "refused"; }
    return j;
}

template <typename T, typename E> Expected<T> from(const E& e, bool as_ptr)
{
    return as_ptr ? Expected<T>::from_exception(std::make_exception_ptr(e)) : Expected<T>::from_exception(e);
}

template <typename T> void run_expected(const json& ops)
{
    using X = Expected<T>;
    g_live = g_livex = 0;
    g_fuse = -1;
    struct Slot { std::unique_ptr<X> x; bool moved = false; };
    Slot s[5];
    for (auto& op : ops)
    {
        const std::string e = op["e"];
        const int d = op["d"];
        json r = op;
        auto put = [&](X&& x, bool mv) {
            // the new object is constructed before the old one goes, like in user code that rebinds
            std::unique_ptr<X> n;
            if constexpr (std::is_copy_constructible<T>::value) n = mv ? std::make_unique<X>(std::move(x)) : std::make_unique<X>(x);
            else n = std::make_unique<X>(std::move(x));
            s[d].x = std::move(n);
            s[d].moved = false;
        };
        if (e == "val")
        {
            bool rv = op["rv"] == 1;
            if constexpr (std::is_copy_constructible<T>::value)
            {
                const T v = Conv<T>::make(op["v"]);
                if (!rv) s[d].x = std::make_unique<X>(v);
            }
            else rv = true;
            if (rv) s[d].x = std::make_unique<X>(Conv<T>::make(op["v"]));
            s[d].moved = false;
        }
        else if (e == "exc")
        {
            const std::string k = op["x"];
            const int p = op["p"];
            const bool ptr = op["ptr"] == 1;
            if (k == "timeout") put(from<T>(TimeoutException{}, ptr), ptr);
            else if (k == "conn") put(from<T>(ConnectionException{msg(p)}, ptr), ptr);
            else if (k == "modbus") put(from<T>(ModbusException{type_of(p)}, ptr), ptr);
            else if (k == "malreq") put(from<T>(MalformedModbusRequestException{msg(p)}, ptr), ptr);
            else if (k == "malresp") put(from<T>(MalformedModbusResponseException{msg(p)}, ptr), ptr);
            else if (k == "user") put(from<T>(UserError{msg(p), p}, ptr), ptr);
            else if (k == "deep") put(from<T>(DeepError{msg(p), p}, ptr), ptr);
            else if (k == "int") put(from<T>(p, ptr), ptr);
            else if (k == "invarg") put(from<T>(std::invalid_argument{msg(p)}, ptr), ptr);
            else if (k == "modsub") put(from<T>(ModSub{type_of(p), p}, ptr), ptr);
            else put(from<T>(std::runtime_error{msg(p)}, ptr), ptr);
        }
        else if (e == "slice")
        {
            r["refused"] = 0;
            std::runtime_error derived{"derived"};
            const std::exception& base = derived;
            DeepError deep{"deep", 1};
            const UserError& user = deep;
            int n = 0;
            try { auto x = X::from_exception(base); }
            catch (const std::invalid_argument&) { ++n; }
            try { auto x = X::from_exception(user); }
            catch (const std::invalid_argument&) { ++n; }
            r["refused"] = n == 2 ? 1 : 0;
        }
        else if (e == "copy")
        {
            if constexpr (std::is_copy_constructible<T>::value) s[d].x = std::make_unique<X>(*s[int(op["s"])].x);
            s[d].moved = false;
        }
        else if (e == "move")
        {
            s[d].x = std::make_unique<X>(std::move(*s[int(op["s"])].x));
            s[d].moved = false;
            s[int(op["s"])].moved = true;
        }
        else if (e == "cfail")
        {
            // a copy whose value cannot be copied
            r["threw"] = 0;
            if constexpr (std::is_same<T, Tracked>::value)
            {
                g_fuse = 0;
                try { X x{*s[d].x}; }
                catch (const std::length_error&) { r["threw"] = 1; }
                g_fuse = -1;
            }
        }
        else if (e == "vfail")
        {
            // a value that cannot be stored
            r["threw"] = 0;
            if constexpr (std::is_same<T, Tracked>::value)
            {
                const Tracked t = Conv<T>::make(1);
                g_fuse = 0;
                try { X x{t}; }
                catch (const std::length_error&) { r["threw"] = 1; }
                g_fuse = -1;
            }
        }
        else if (e == "mut") s[d].x->get() = Conv<T>::make(op["v"]);
        else if (e == "del") { s[d].x.reset(); s[d].moved = false; }
        json slots = json::array();
        for (int i = 1; i <= 4; ++i)
        {
            if (s[i].x && !s[i].moved) slots.push_back(observe<T>(*s[i].x));
            else slots.push_back(json{{"valid", -1}, {"get", -1}, {"getx", ""}, {"getp", 0}, {"ptrp", 0}, {"has", json::array()}, {"gete", json::array()}, {"ptr", ""}});
        }
        r["slots"] = slots;
        r["live"] = Conv<T>::counts() ? g_live : -1;
        r["livex"] = g_livex;
        hx::emit(r);
    }
}

// ---- loggers

struct Rec : spdlog::sinks::base_sink<std::mutex>
{
    int id;
    json* out;
    void sink_it_(const spdlog::details::log_msg& m) override
    {
        static const std::map<int, int> lv{{spdlog::level::trace, 0}, {spdlog::level::debug, 1}, {spdlog::level::info, 2}, {spdlog::level::warn, 3}, {spdlog::level::err, 4}, {spdlog::level::critical, 5}};
        auto it = lv.find(m.level);
        out->push_back(json{{"s", id}, {"n", std::string(m.logger_name.data(), m.logger_name.size())}, {"l", it == lv.end() ? -1 : it->second},
                            {"x", std::string(m.payload.data(), m.payload.size())}});
    }
    void flush_() override {}
};

static const LoggingLevel g_levels[] = {LoggingLevel::Trace, LoggingLevel::Debug, LoggingLevel::Info, LoggingLevel::Warn, LoggingLevel::Error, LoggingLevel::Critical};

static void do_log(Logger& l, int level, bool args, const std::string& word, int num)
{
    const UnitIdentifier uid{static_cast<uint8_t>(num)};
    switch (level)
    {
    case 0: args ? l.trace("a {} b {}", word, num) : l.trace(word); break;
    case 1: args ? l.debug("a {} b {}", word, num) : l.debug(word); break;
    case 2: args ? l.info("a {} b {}", word, num) : l.info(word); break;
    case 3: args ? l.warn("a {} b {}", word, num) : l.warn(word); break;
    case 4: args ? l.error("a {} b {}", word, num) : l.error(word); break;
    default: args ? l.critical("a {} b {}", word, num) : l.critical(word); break;
    }
}

// what is written to a descriptor while f runs
template <typename F> std::string captured(int fd, F f)
{
    fflush(nullptr);
    int old = dup(fd);
    FILE* tmp = tmpfile();
    dup2(fileno(tmp), fd);
    f();
    fflush(nullptr);
    dup2(old, fd);
    close(old);
    std::string r;
    rewind(tmp);
    char b[4096];
    for (size_t n; (n = fread(b, 1, sizeof b, tmp)) > 0;) r.append(b, n);
    fclose(tmp);
    return r;
}

// lines of the console: [time] [name] [level] text
static void console(const std::string& s, json& out)
{
    static const std::map<std::string, int> lv{{"trace", 0}, {"debug", 1}, {"info", 2}, {"warning", 3}, {"error", 4}, {"critical", 5}};
    static const std::regex re{"^\\[[^\\]]*\\] (\\[([^\\]]*)\\] )?\\[([a-z]+)\\] ([^\n]*)$"};
    std::istringstream in{s};
    for (std::string l; std::getline(in, l);)
    {
        std::smatch m;
        bool ok = std::regex_match(l, m, re) && lv.count(m[3]);
        out.push_back(json{{"s", 3}, {"n", ok ? m[2].str() : ""}, {"l", ok ? lv.at(m[3]) : -1}, {"x", ok ? m[4].str() : l}});
    }
}

static void run_log(const json& ops)
{
    json out = json::array();
    spdlog::drop_all();
    std::map<int, std::shared_ptr<Rec>> sinks;
    for (int k : {1, 2})
    {
        sinks[k] = std::make_shared<Rec>();
        sinks[k]->id = k;
        sinks[k]->out = &out;
    }
    std::vector<std::shared_ptr<Logger>> lg{nullptr};
    for (auto& op : ops)
    {
        json r = op;
        const std::string e = op["e"];
        if (e == "lroot")
        {
            std::string name = op.value("name", "n" + std::to_string(lg.size()));
            r["name"] = name;
            const int k = op["sink"];
            const auto level = g_levels[int(op["level"])];
            if (k == 0) lg.push_back(LoggerFactory::create_null_logger(name));
            else if (k == 3) lg.push_back(LoggerFactory::create_console_logger(name, level));
            else if (k == 4)
            {
                auto both = {sinks[1], sinks[2]};
                auto l = std::make_shared<spdlog::logger>(name, both.begin(), both.end());
                // a threshold it had before must not matter
                l->set_level(static_cast<spdlog::level::level_enum>(op.value("had", 0)));
                lg.push_back(LoggerFactory::create_custom_logger(l, level));
            }
            else lg.push_back(LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>(name, sinks[op["sink"]]), g_levels[int(op["level"])]));
        }
        else if (e == "lclone")
        {
            std::string name = op.value("name", "n" + std::to_string(lg.size()));
            r["name"] = name;
            int l = op["level"];
            auto& p = lg[int(op["s"])];
            lg.push_back(l < 0 ? p->clone(name) : p->clone(name, g_levels[l]));
        }
        else if (e == "ldrop") lg[int(op["d"])].reset();
        else
        {
            out = json::array();
            bool args = op.value("args", 0) == 1;
            std::string word = op.value("word", std::string{"text"});
            int num = op.value("num", 7);
            std::string so, se;
            se = captured(2, [&] { so = captured(1, [&] { do_log(*lg[int(op["d"])], op["level"], args, word, num); }); });
            console(so, out);
            if (!se.empty()) out.push_back(json{{"s", 99}, {"n", ""}, {"l", -1}, {"x", se}});
            std::stable_sort(out.begin(), out.end(), [](const json& a, const json& b) { return a["s"] < b["s"]; });
            r["out"] = out;
            r["text"] = args ? "a " + word + " b " + std::to_string(num) : word;
        }
        hx::emit(r);
    }
}

template <typename T> std::string str(const T& v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}

static void run_values(const json& ops)
{
    for (auto& op : ops)
    {
        json r = op;
        const std::string e = op["e"];
        if (e == "uid")
        {
            const int v = op["v"];
            const UnitIdentifier u{static_cast<uint8_t>(v)};
            json eq = json::array();
            int ne = 0, h = 1;
            std::unordered_map<UnitIdentifier, int> map;
            for (int y = 0; y < 256; ++y)
            {
                const UnitIdentifier w{static_cast<uint8_t>(y)};
                if (u == w) eq.push_back(y);
                if (u != w) ++ne;
                if (y == v && std::hash<UnitIdentifier>()(u) != std::hash<UnitIdentifier>()(w)) h = 0;
                map.insert({w, y});
            }
            auto it = map.find(u);
            r["get"] = u.get_value();
            r["eq"] = eq;
            r["ne"] = ne;
            r["hash"] = h;
            r["map"] = map.size() != 256 || it == map.end() ? -1 : it->second;
            r["s"] = str(u);
            std::ostringstream o;
            o << u << " " << UnitIdentifier{static_cast<uint8_t>(255 - v)};
            r["seq"] = o.str();
            // whatever the stream was used for before
            std::ostringstream w2;
            w2 << std::hex << std::nouppercase << 255 << " " << u << " " << std::oct << u << " " << std::setfill('*') << std::setw(6) << 1 << u << TransactionIdentifier{static_cast<uint16_t>(v)};
            r["odd"] = w2.str();
            UnitIdentifier d = UnitIdentifier::default_unit_identifier();
            r["def"] = d.get_value();
            d = u;
            r["copy"] = d == u && !(d != u) ? d.get_value() : -1;
        }
        else if (e == "tids")
        {
            // maximal runs of values for which the results of incrementing, less the value, are the same
            json runs = json::array();
            std::array<int, 6> last{};
            for (int v = 0; v < 65536; ++v)
            {
                TransactionIdentifier a{static_cast<uint16_t>(v)}, b{a};
                std::array<int, 6> x;
                x[0] = a.get_value() - v;
                x[1] = (++a).get_value() - v;
                x[2] = a.get_value() - v;
                x[3] = (b++).get_value() - v;
                x[4] = b.get_value() - v;
                TransactionIdentifier c{static_cast<uint16_t>(v)};
                auto& ref = ++c;
                x[5] = &ref == &c;
                if (v == 0 || x != last) runs.push_back(json::array({v, v, x}));
                else runs.back()[1] = v;
                last = x;
                if (runs.size() > 20) break;
            }
            r["runs"] = runs;
        }
        else if (e == "teq")
        {
            // pairs that compare otherwise than their contents
            json odd = json::array();
            const int lo = op["lo"], hi = op["hi"], all = op["all"];
            for (int v = lo; v <= hi && odd.size() < 5; ++v)
            {
                const TransactionIdentifier a{static_cast<uint16_t>(v)};
                auto see = [&](int w) {
                    const TransactionIdentifier b{static_cast<uint16_t>(w)};
                    const bool q = a == b, n = a != b;
                    if (q != (v == w) || n == q) odd.push_back(json::array({v, w, q, n}));
                };
                if (all)
                    for (int w = 0; w < 65536; ++w) see(w);
                else
                {
                    see(v);
                    for (int i = 0; i < 16; ++i)
                        for (int j = 0; j < 16; ++j) see(v ^ (1 << i) ^ (i == j ? 0 : 1 << j));
                    for (int w : {v + 1, v - 1, v + 255, v + 256, v + 257, ~v, v >> 8 | v << 8}) see(w & 65535);
                }
            }
            r["odd"] = odd;
        }
        else if (e == "tid")
        {
            const uint16_t v = op["v"];
            TransactionIdentifier a{v}, b{v};
            const TransactionIdentifier t{v};
            r["get"] = t.get_value();
            auto pre = (++a).get_value();
            r["pre"] = json::array({pre, a.get_value()});
            auto post = (b++).get_value();
            r["post"] = json::array({post, b.get_value()});
            json cmp = json::array();
            for (int y : op["with"])
            {
                const TransactionIdentifier w{static_cast<uint16_t>(y)};
                cmp.push_back(json::array({y, t == w ? 1 : 0, t != w ? 1 : 0}));
            }
            r["cmp"] = cmp;
            r["s"] = str(t);
            std::ostringstream h;
            h << std::oct << t << " " << TransactionIdentifier{static_cast<uint16_t>(65535 - v)} << std::dec << std::setfill(' ') << " " << t;
            r["seq"] = h.str();
        }
        else if (e == "ep")
        {
            // "~" stands for a zero byte
            auto host = [](std::string s) { std::replace(s.begin(), s.end(), '~', '\0'); return s; };
            const Ipv4Endpoint a{host(op["h1"]), op["p1"].get<uint32_t>()};
            const Ipv4Endpoint b{host(op["h2"]), op["p2"].get<uint32_t>()};
            const Ipv4Endpoint c{a};
            std::string gh = c.get_hostname();
            std::replace(gh.begin(), gh.end(), '\0', '~');
            r["gh"] = gh;
            r["gp"] = c.get_port();
            r["eq"] = a == b ? 1 : 0;
            r["ne"] = a != b ? 1 : 0;
            if ((b == a) != (a == b) || (b != a) != (a != b) || !(a == c) || a != c) r["eq"] = -1;
            Ipv4Endpoint d{b};
            d = a;
            if (d != a || (d == b) != (a == b)) r["eq"] = -2;
        }
        else if (e == "xparse")
        {
            auto t = parse_exception_type(op["b"].get<uint8_t>());
            r["t"] = type_name(t);
            r["text"] = str(t);
        }
        else if (e == "xenc")
        {
            ExceptionType t = ExceptionType::Unknown;
            for (auto& p : g_types)
                if (op["t"] == p.first) t = p.second;
            const uint8_t fc = op["fc"];
            ExceptionResponse resp{fc, t};
            std::unique_ptr<IMessage> m = resp.clone();
            ser4cpp::StaticBuffer<16> buf;
            auto w = buf.as_wseq();
            m->build_message(w);
            auto s = buf.as_seq();
            r["fcout"] = s[0];
            r["wire"] = s[1];
            r["len"] = m->get_message_length();
            r["back"] = type_name(parse_exception_type(s[1]));
            ModbusException x{t};
            r["smsg"] = ModbusException::get_message(t);
            const ModbusException y{x};
            r["cmsg"] = static_cast<const IException&>(y).get_message() + (y.get_exception_type() == x.get_exception_type() ? "" : "?");
            std::ostringstream odd;
            odd << std::hex << t << std::uppercase << t;
            r["odd"] = odd.str();
            r["msg"] = static_cast<const IException&>(x).get_message();
            r["type"] = type_name(x.get_exception_type());
        }
        hx::emit(r);
    }
}

int main()
{
    return hx::main_loop([](const json& sc) {
        const std::string T = sc["T"];
        if (T == "tracked") run_expected<Tracked>(sc["ops"]);
        else if (T == "int") run_expected<int>(sc["ops"]);
        else if (T == "bool") run_expected<bool>(sc["ops"]);
        else if (T == "uptr") run_expected<std::unique_ptr<int>>(sc["ops"]);
        else if (T == "list") run_expected<std::vector<std::any>>(sc["ops"]);
        else if (T == "big") run_expected<Big>(sc["ops"]);
        else if (T == "string") run_expected<std::string>(sc["ops"]);
        else if (T == "resp") run_expected<ReadCoilsResponse>(sc["ops"]);
        else if (T == "log") run_log(sc["ops"]);
        else run_values(sc["ops"]);
    });
}
