// Offline stand-in for cpptrace: same interface as used by haxorg, no traces.
#pragma once
#include <cstdint>
#include <exception>
#include <optional>
#include <string>
#include <vector>
namespace cpptrace {
struct stacktrace_frame {
    std::uintptr_t               raw_address = 0, object_address = 0;
    std::optional<std::uint32_t> line, column;
    std::string                  filename, symbol;
    bool                         is_inline = false;
    std::string to_string() const { return symbol; }
};
struct stacktrace {
    std::vector<stacktrace_frame> frames;
    auto        begin() const { return frames.begin(); }
    auto        end() const { return frames.end(); }
    auto        begin() { return frames.begin(); }
    auto        end() { return frames.end(); }
    bool        empty() const { return frames.empty(); }
    std::string to_string(bool = false) const { return "<no trace>"; }
    void        print() const {}
};
inline stacktrace generate_trace(std::size_t = 0) { return {}; }
} // namespace cpptrace
