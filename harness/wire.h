// Requests and answers between JSON (as in specs/Codec.tla) and the library's structures.
#pragma once
#include <memory>
#include "hx.h"
#include "modbus/Expected.h"
#include "modbus/client/IClientSession.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/server/IServerSession.h"

namespace wire
{
using hx::json;
using namespace modbus;

inline json values(const std::vector<SingleBitValue>& v, json& addrs)
{
    json vs = json::array();
    for (auto& x : v) { vs.push_back(x.value ? 1 : 0); addrs.push_back((int)x.address); }
    return vs;
}
inline json values(const std::vector<RegisterValue>& v, json& addrs)
{
    json vs = json::array();
    for (auto& x : v) { vs.push_back((int)x.value); addrs.push_back((int)x.address); }
    return vs;
}

// The first address of consecutive (mod 65536) addresses, or -1
inline int base_of(const json& addrs)
{
    if (addrs.empty()) return -1;
    int a = addrs[0];
    for (std::size_t i = 0; i < addrs.size(); ++i)
        if (addrs[i].get<int>() != ((a + (int)i) & 0xFFFF)) return -1;
    return a;
}

template <typename R> json read_fields(const R& r)
{
    json addrs = json::array();
    auto vs = values(r.values, addrs);
    return json{{"k", "val"}, {"a", base_of(addrs)}, {"vs", vs}};
}
inline json fields(const ReadCoilsResponse& r) { return read_fields(r); }
inline json fields(const ReadDiscreteInputsResponse& r) { return read_fields(r); }
inline json fields(const ReadHoldingRegistersResponse& r) { return read_fields(r); }
inline json fields(const ReadInputRegistersResponse& r) { return read_fields(r); }
inline json fields(const WriteSingleCoilResponse& r) { return json{{"k", "val"}, {"a", (int)r.value.address}, {"vs", {r.value.value ? 1 : 0}}}; }
inline json fields(const WriteSingleRegisterResponse& r) { return json{{"k", "val"}, {"a", (int)r.value.address}, {"vs", {(int)r.value.value}}}; }
inline json fields(const WriteMultipleCoilsResponse& r) { return json{{"k", "val"}, {"a", (int)r.starting_address}, {"vs", {(int)r.qty_of_coils}}}; }
inline json fields(const WriteMultipleRegistersResponse& r) { return json{{"k", "val"}, {"a", (int)r.starting_address}, {"vs", {(int)r.qty_of_registers}}}; }

template <typename T> json result(const Expected<T>& r)
{
    if (r.is_valid()) return fields(r.get());
    if (r.template has_exception<TimeoutException>()) return json{{"k", "tmo"}};
    if (r.template has_exception<ConnectionException>()) return json{{"k", "conn"}};
    if (r.template has_exception<MalformedModbusRequestException>()) return json{{"k", "malreq"}};
    if (r.template has_exception<MalformedModbusResponseException>()) return json{{"k", "mal"}};
    if (r.template has_exception<ModbusException>())
    {
        auto t = r.template get_exception<ModbusException>().get_exception_type();
        return json{{"k", "exc"}, {"c", t == ExceptionType::Unknown ? 0 : (int)t}};
    }
    return json{{"k", "other"}};
}

// Calls f with the request structure of rq
template <typename F> void with_request(const json& rq, F&& f)
{
    int fn = rq["fn"];
    uint16_t a = rq["a"].get<int>();
    switch (fn)
    {
    case 1: { ReadCoilsRequest r{a, (uint16_t)rq["n"].get<int>()}; f(r); break; }
    case 2: { ReadDiscreteInputsRequest r{a, (uint16_t)rq["n"].get<int>()}; f(r); break; }
    case 3: { ReadHoldingRegistersRequest r{a, (uint16_t)rq["n"].get<int>()}; f(r); break; }
    case 4: { ReadInputRegistersRequest r{a, (uint16_t)rq["n"].get<int>()}; f(r); break; }
    case 5: { WriteSingleCoilRequest r{SingleBitValue{a, rq["x"].get<int>() != 0}}; f(r); break; }
    case 6: { WriteSingleRegisterRequest r{RegisterValue{a, (uint16_t)rq["x"].get<int>()}}; f(r); break; }
    case 15:
    {
        WriteMultipleCoilsRequest r;
        r.starting_address = a;
        for (auto& v : rq["vs"]) r.values.push_back(v.get<int>() != 0);
        f(r);
        break;
    }
    case 16:
    {
        WriteMultipleRegistersRequest r;
        r.starting_address = a;
        for (auto& v : rq["vs"]) r.values.push_back((uint16_t)v.get<int>());
        f(r);
        break;
    }
    default: fprintf(stderr, "bad function\n"); exit(3);
    }
}

// The response structure that goes with a request structure
template <typename T> struct ResponseOf;
template <> struct ResponseOf<ReadCoilsRequest> { using type = ReadCoilsResponse; };
template <> struct ResponseOf<ReadDiscreteInputsRequest> { using type = ReadDiscreteInputsResponse; };
template <> struct ResponseOf<ReadHoldingRegistersRequest> { using type = ReadHoldingRegistersResponse; };
template <> struct ResponseOf<ReadInputRegistersRequest> { using type = ReadInputRegistersResponse; };
template <> struct ResponseOf<WriteSingleCoilRequest> { using type = WriteSingleCoilResponse; };
template <> struct ResponseOf<WriteSingleRegisterRequest> { using type = WriteSingleRegisterResponse; };
template <> struct ResponseOf<WriteMultipleCoilsRequest> { using type = WriteMultipleCoilsResponse; };
template <> struct ResponseOf<WriteMultipleRegistersRequest> { using type = WriteMultipleRegistersResponse; };

// Request structures back to JSON
inline json request(const ReadCoilsRequest& r) { return json{{"fn", 1}, {"a", (int)r.starting_address}, {"n", (int)r.qty_of_bits}}; }
inline json request(const ReadDiscreteInputsRequest& r) { return json{{"fn", 2}, {"a", (int)r.starting_address}, {"n", (int)r.qty_of_bits}}; }
inline json request(const ReadHoldingRegistersRequest& r) { return json{{"fn", 3}, {"a", (int)r.starting_address}, {"n", (int)r.qty_of_registers}}; }
inline json request(const ReadInputRegistersRequest& r) { return json{{"fn", 4}, {"a", (int)r.starting_address}, {"n", (int)r.qty_of_registers}}; }
inline json request(const WriteSingleCoilRequest& r) { return json{{"fn", 5}, {"a", (int)r.value.address}, {"x", r.value.value ? 1 : 0}}; }
inline json request(const WriteSingleRegisterRequest& r) { return json{{"fn", 6}, {"a", (int)r.value.address}, {"x", (int)r.value.value}}; }
inline json request(const WriteMultipleCoilsRequest& r)
{
    json vs = json::array();
    for (bool v : r.values) vs.push_back(v ? 1 : 0);
    return json{{"fn", 15}, {"a", (int)r.starting_address}, {"vs", vs}};
}
inline json request(const WriteMultipleRegistersRequest& r)
{
    json vs = json::array();
    for (auto v : r.values) vs.push_back((int)v);
    return json{{"fn", 16}, {"a", (int)r.starting_address}, {"vs", vs}};
}

// The answer {"vs":..} / {"a":..,"x":..} / {"a":..,"n":..} as response structure
inline void build_answer(const json& a, const ReadCoilsRequest& rq, ReadCoilsResponse& r)
{
    Address x = rq.starting_address;
    for (auto& v : a["vs"]) r.values.emplace_back(SingleBitValue{x++, v.get<int>() != 0});
}
inline void build_answer(const json& a, const ReadDiscreteInputsRequest& rq, ReadDiscreteInputsResponse& r)
{
    Address x = rq.starting_address;
    for (auto& v : a["vs"]) r.values.emplace_back(SingleBitValue{x++, v.get<int>() != 0});
}
inline void build_answer(const json& a, const ReadHoldingRegistersRequest& rq, ReadHoldingRegistersResponse& r)
{
    Address x = rq.starting_address;
    for (auto& v : a["vs"]) r.values.emplace_back(RegisterValue{x++, (uint16_t)v.get<int>()});
}
inline void build_answer(const json& a, const ReadInputRegistersRequest& rq, ReadInputRegistersResponse& r)
{
    Address x = rq.starting_address;
    for (auto& v : a["vs"]) r.values.emplace_back(RegisterValue{x++, (uint16_t)v.get<int>()});
}
inline void build_answer(const json& a, const WriteSingleCoilRequest&, WriteSingleCoilResponse& r)
{
    r = WriteSingleCoilResponse{SingleBitValue{(Address)a["a"].get<int>(), a["x"].get<int>() != 0}};
}
inline void build_answer(const json& a, const WriteSingleRegisterRequest&, WriteSingleRegisterResponse& r)
{
    r = WriteSingleRegisterResponse{RegisterValue{(Address)a["a"].get<int>(), (uint16_t)a["x"].get<int>()}};
}
inline void build_answer(const json& a, const WriteMultipleCoilsRequest&, WriteMultipleCoilsResponse& r)
{
    r = WriteMultipleCoilsResponse{(Address)a["a"].get<int>(), (uint16_t)a["n"].get<int>()};
}
inline void build_answer(const json& a, const WriteMultipleRegistersRequest&, WriteMultipleRegistersResponse& r)
{
    r = WriteMultipleRegistersResponse{(Address)a["a"].get<int>(), (uint16_t)a["n"].get<int>()};
}

// A failure an application may derive
struct UserModbusException : ModbusException
{
    using ModbusException::ModbusException;
    int more = 7;
};

// What a programmed session answers: {"vs"/...} values, {"exc":code} a Modbus exception, {"oth":n} another failure
template <typename TRequest> Expected<typename ResponseOf<TRequest>::type> programmed(const json& a, const TRequest& rq)
{
    using R = typename ResponseOf<TRequest>::type;
    if (a.contains("exc") && a.contains("user")) return Expected<R>::from_exception(UserModbusException{static_cast<ExceptionType>(a["exc"].get<int>())});
    if (a.contains("exc")) return Expected<R>::from_exception(ModbusException{static_cast<ExceptionType>(a["exc"].get<int>())});
    if (a.contains("oth"))
    {
        switch (a["oth"].get<int>())
        {
        case 0: return Expected<R>::from_exception(ConnectionException{"other"});
        case 1: return Expected<R>::from_exception(TimeoutException{});
        case 3: return Expected<R>::from_exception(std::runtime_error{"other"});
        case 4: return Expected<R>::from_exception(42);
        case 5: return Expected<R>::from_exception(std::string{"other"});
        case 6: return Expected<R>::from_exception(MalformedModbusResponseException{"other"});
        default: return Expected<R>::from_exception(MalformedModbusRequestException{"other"});
        }
    }
    R r{};
    build_answer(a, rq, r);
    return Expected<R>(r);
}
} // namespace wire
