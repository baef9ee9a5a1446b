// Scenario protocol shared by the harnesses: one JSON scenario per line on stdin, one JSON
// trace per line on stdout. Events are also written to $HX_PROGRESS as they happen, so that
// what a scenario did before it crashed or hung is known.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <signal.h>
#include <string>
#include <unistd.h>
#include <vector>
#include <nlohmann/json.hpp>

namespace hx
{
using json = nlohmann::json;

struct Trace
{
    std::string out;
    int fd = -1;
    bool first = true;
    bool muted = false;
    std::size_t count = 0;
};
inline Trace& trace()
{
    static Trace t;
    return t;
}

inline void emit(const json& ev)
{
    auto& t = trace();
    if (t.muted) return;
    auto s = ev.dump();
    if (t.fd >= 0)
    {
        auto l = s + "\n";
        if (::write(t.fd, l.data(), l.size()) < 0) {}
    }
    if (!t.first) t.out += ',';
    t.first = false;
    t.out += s;
    ++t.count;
}

inline void on_alarm(int) { _exit(4); }

// Runs every scenario; an exception that escapes 'run' is an error of the harness (exit code 3)
inline int main_loop(const std::function<void(const json&)>& run, unsigned seconds_per_scenario = 20)
{
    signal(SIGALRM, on_alarm);
    signal(SIGPIPE, SIG_IGN);
    const char* p = getenv("HX_PROGRESS");
    std::string line;
    while (std::getline(std::cin, line))
    {
        auto& t = trace();
        t.out.clear();
        t.first = true;
        t.count = 0;
        if (p)
        {
            if (t.fd < 0) t.fd = open(p, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
            if (ftruncate(t.fd, 0) != 0) {}
        }
        json sc;
        try
        {
            sc = json::parse(line);
            alarm(seconds_per_scenario);
            run(sc);
            alarm(0);
        }
        catch (const json::exception& e)
        {
            fprintf(stderr, "harness: %s\n", e.what());
            return 3;
        }
        std::string res = "{\"id\":" + sc["id"].dump() + ",\"ev\":[" + t.out + "]}\n";
        fwrite(res.data(), 1, res.size(), stdout);
        fflush(stdout);
    }
    return 0;
}

inline std::string to_hex(const uint8_t* p, std::size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    for (std::size_t i = 0; i < n; ++i)
    {
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    return s;
}

inline json to_bytes(const uint8_t* p, std::size_t n)
{
    json a = json::array();
    for (std::size_t i = 0; i < n; ++i) a.push_back(p[i]);
    return a;
}
} // namespace hx
