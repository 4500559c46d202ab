#include "vh.hpp"
#include <hstd/stdlib/Json.hpp>
#include <vector>
using vh::json;

static json decode(json const& j) {
    std::string t = j["t"];
    if (t == "z") { return nullptr; }
    if (t == "b") { return j["b"].get<bool>(); }
    if (t == "n") { return json::parse(vh::text(j["n"])); }
    if (t == "s") { return vh::text(j["s"]); }
    if (t == "a") {
        json r = json::array();
        for (auto const& x : j["a"]) { r.push_back(decode(x)); }
        return r;
    }
    json r = json::object();
    for (auto const& x : j["o"]) { r[vh::text(x["k"])] = decode(x["v"]); }
    return r;
}
static json encode(json const& j) {
    if (j.is_null()) { return json{{"t", "z"}}; }
    if (j.is_boolean()) { return json{{"t", "b"}, {"b", j}}; }
    if (j.is_number()) { return json{{"t", "n"}, {"n", vh::bytes(j.dump())}}; }
    if (j.is_string()) { return json{{"t", "s"}, {"s", vh::bytes(j.get<std::string>())}}; }
    if (j.is_array()) {
        json a = json::array();
        for (auto const& x : j) { a.push_back(encode(x)); }
        return json{{"t", "a"}, {"a", a}};
    }
    json o = json::array();
    for (auto const& [k, v] : j.items()) {
        o.push_back(json{{"k", vh::bytes(k)}, {"v", encode(v)}});
    }
    return json{{"t", "o"}, {"o", o}};
}
struct S {
    json op(json const& o) {
        json v = decode(o["v"]);
        try {
            if (o["op"] == "render") {
                hstd::JsonFormatOptions p;
                p.width            = o["o"]["width"];
                p.indent           = o["o"]["indent"];
                p.startIndent      = o["o"]["start"];
                p.stableFieldOrder = o["o"]["stable"];
                return vh::ok(vh::bytes(hstd::to_compact_json(v, p)));
            } else {
                std::vector<std::string> names;
                for (auto const& n : o["names"]) { names.push_back(vh::text(n)); }
                hstd::filterFields(v, names);
                return vh::ok(encode(v));
            }
        } catch (std::exception const&) { return vh::err(); }
    }
};
VH_MAIN(S)
