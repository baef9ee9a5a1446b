// The stream parser alone: bytes in, messages out.
#include "hx.h"
#include "messages/mbap/IMbapSink.h"
#include "messages/mbap/MbapMessage.h"
#include "messages/mbap/MbapParser.h"

using namespace modbus;
using hx::json;

namespace
{
struct Sink final : IMbapSink
{
    json ms = json::array();
    void on_mbap_message(const MbapMessage& m) override
    {
        const uint8_t* p = m.data;
        json d = json::array();
        for (std::size_t i = 0; i < m.data.length(); ++i) d.push_back((int)p[i]);
        ms.push_back({{"t", (int)m.transaction_id.get_value()}, {"u", (int)m.unit_id.get_value()}, {"d", d}});
    }
};
} // namespace

int main()
{
    return hx::main_loop([](const json& sc) {
        Sink sink;
        MbapParser parser(&sink);
        for (auto& o : sc["ops"])
        {
            if (o["o"] == "reset")
            {
                parser.reset();
                hx::emit({{"e", "reset"}});
                continue;
            }
            std::vector<uint8_t> b;
            for (auto& x : o["b"]) b.push_back((uint8_t)x.get<int>());
            sink.ms = json::array();
            // an exact heap copy, so that reading past its end is caught
            parser.parse(ser4cpp::rseq_t(b.data(), b.size()));
            hx::emit({{"e", "feed"}, {"b", hx::to_bytes(b.data(), b.size())}, {"ms", sink.ms}});
        }
    });
}
