// Call-graph tracking: registered processors and what they are told.
#include "vh.hpp"
#include <boost/log/sinks.hpp>
#include <boost/make_shared.hpp>
#include <hstd/ext/log_graph_tracker.hpp>
using vh::json;
namespace hl = hstd::log;
using P      = hl::log_graph_processor;

static json out = json::array();
static json pairs(hstd::Vec<hstd::Pair<hstd::Str, hstd::Str>> const& v) {
    json r = json::array();
    for (auto const& p : v) { r.push_back(json::array({std::string(p.first), std::string(p.second)})); }
    return r;
}
static void put(int p, std::string k, std::string a, std::string b, int n, int d, json args) {
    out.push_back(json{{"p", p}, {"k", k}, {"a", a}, {"b", b}, {"n", n}, {"d", d}, {"args", args}});
}
struct Proc : P {
    int id;
    Proc(int i) : id(i) {}
    void track_function_start(function_info const& x) override { put(id, "fs", x.name, "", x.loc.line, 0, pairs(x.args)); }
    void track_function_end(function_info const& x) override { put(id, "fe", x.name, "", x.loc.line, 0, pairs(x.args)); }
    void track_scope_enter(scope_info const& x) override { put(id, "se", x.name, "", x.loc.line, 0, json::array()); }
    void track_scope_exit(scope_info const& x) override { put(id, "sx", x.name, "", x.loc.line, 0, json::array()); }
    void track_started(tracked_info const& x) override { put(id, "st", "", "", x.loc.line, 0, json::array()); }
    void track_ended(tracked_info const& x) override { put(id, "en", "", "", x.loc.line, 0, json::array()); }
    void track_named_text(named_text_info const& x) override { put(id, "text", x.key, x.value, x.loc.line, 0, json::array()); }
    void track_named_jump(named_jump_info const& x) override { put(id, "jump", x.description, "", x.loc.line, 0, json::array()); }
};
class MemSink : public boost::log::sinks::basic_sink_backend<boost::log::sinks::synchronized_feeding> {
  public:
    void consume(boost::log::record_view const& rec) {
        auto ref   = rec[HSLOG_RECORD_FIELD].extract<hl::log_record>();
        auto depth = rec[HSLOG_SCOPE_DEPTH_FIELD].extract<int>();
        put(0, ref ? std::string(ref->data.message) : "?", "", "", ref ? ref->data.line : -1, depth ? *depth : -99, json::array());
    }
};

struct S {
    std::shared_ptr<hl::log_graph_tracker> tracker = std::make_shared<hl::log_graph_tracker>();
    std::shared_ptr<P>                     procs[3];

    void start(json const&) {
        out = json::array();
        hl::clear_sink_backends();
        hl::push_sink(boost::make_shared<boost::log::sinks::synchronous_sink<MemSink>>(boost::make_shared<MemSink>()));
        hl::log_scoped_depth_attr::instance().depth = 0;
        procs[0] = std::make_shared<hl::logger_processor>();
        procs[1] = std::make_shared<Proc>(1);
        procs[2] = std::make_shared<Proc>(2);
    }
    static P::callsite loc(json const& o) { return P::callsite(o["n"].get<int>(), "fn", "file.c"); }
    static std::string s(json const& o, char const* f) { return o[f].get<std::string>(); }
    hstd::Vec<hstd::Pair<hstd::Str, hstd::Str>> args(json const& o) {
        auto const& a = o["args"];
        if (a.size() == 1) { return tracker->format_args_with_vars({s(a[0], 0)}, std::stoi(a[0][1].get<std::string>())); }
        if (a.size() == 2) {
            return tracker->format_args_with_vars(
                {s(a[0], 0), s(a[1], 0)}, std::stoi(a[0][1].get<std::string>()), a[1][1].get<std::string>());
        }
        return {};
    }
    static std::string s(json const& o, int f) { return o[f].get<std::string>(); }
    P::function_info fi(json const& o) { return P::function_info(s(o, "a"), args(o), loc(o)); }
    P::scope_info    si(json const& o) { return P::scope_info(s(o, "a"), loc(o)); }

    void simple(json const& o) {
        std::string n = o["op"];
        if (n == "add") {
            tracker->add_processor(procs[o["p"].get<int>()]);
        } else if (n == "start") {
            tracker->start_tracing(o["n"].get<int>(), "fn", "file.c");
        } else if (n == "end") {
            tracker->end_tracing(o["n"].get<int>(), "fn", "file.c");
        } else if (n == "fs") {
            tracker->notify_function_start(fi(o));
        } else if (n == "fe") {
            tracker->notify_function_end(fi(o));
        } else if (n == "se") {
            tracker->notify_scope_enter(si(o));
        } else if (n == "sx") {
            tracker->notify_scope_exit(si(o));
        } else if (n == "jump") {
            tracker->notify_named_jump(P::named_jump_info(s(o, "a"), loc(o)));
        } else if (n == "text") {
            tracker->notify_named_text(P::named_text_info(s(o, "a"), s(o, "b"), loc(o)));
        } else if (n == "throw") {
            throw std::runtime_error("x");
        } else { std::abort(); }
    }
    void run(json const& b, size_t k) {
        if (k >= b.size()) { return; }
        auto const& o = b[k];
        std::string n = o["op"];
        if (n == "scope") {
            auto g = tracker->track_scope(si(o));
            run(b, k + 1);
        } else if (n == "func") {
            auto g = tracker->track_function(fi(o));
            run(b, k + 1);
        } else if (n == "block") {
            run(o["b"], 0);
            run(b, k + 1);
        } else if (n == "try") {
            try { run(o["b"], 0); } catch (std::runtime_error const&) {}
            run(b, k + 1);
        } else {
            simple(o);
            run(b, k + 1);
        }
    }
    json op(json const& o) {
        out      = json::array();
        bool exc = false;
        try {
            if (o["op"] == "run") { run(o["b"], 0); } else { simple(o); }
        } catch (std::runtime_error const&) { exc = true; }
        return json{{"exc", exc}, {"on", tracker->TraceState}, {"out", out}};
    }
};
VH_MAIN(S)
