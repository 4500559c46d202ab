// Scenario executor: reads one scenario per line, runs its operations against
// the real code and prints one JSON result per operation.  It never judges.
#pragma once
#include <nlohmann/json.hpp>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <unistd.h>

namespace vh {
using json = nlohmann::json;

// Text is exchanged as a list of byte values, so that any content survives.
inline json bytes(std::string_view s) {
    json r = json::array();
    for (unsigned char c : s) { r.push_back((int)c); }
    return r;
}
inline std::string text(json const& j) {
    std::string r;
    for (auto const& c : j) { r.push_back((char)c.get<int>()); }
    return r;
}
inline json ok(json v) { return json{{"st", "ok"}, {"v", std::move(v)}}; }
inline json err() { return json{{"st", "err"}, {"v", 0}}; }

template <typename S>
int main_loop() {
    int out = dup(1);
    dup2(2, 1);
    auto put = [&](std::string const& s) {
        size_t n = 0;
        while (n < s.size()) {
            auto w = write(out, s.data() + n, s.size() - n);
            if (w <= 0) { _exit(97); }
            n += (size_t)w;
        }
    };
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) { continue; }
        json sc = json::parse(line);
        put("B " + std::to_string(sc["id"].get<int>()) + "\n");
        {
            S s;
            if constexpr (requires { s.start(sc); }) { s.start(sc); }
            for (auto const& op : sc["ops"]) {
                json r = s.op(op);
                put("R " + r.dump() + "\n");
            }
        }
        put("E " + std::to_string(sc["id"].get<int>()) + "\n");
    }
    fflush(stdout);
    fflush(stderr);
    _exit(0);
}
} // namespace vh

#define VH_MAIN(S)                                                                       \
    int main() { return vh::main_loop<S>(); }
