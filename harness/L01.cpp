// Log records, sinks, filters, sink scopes, nesting depth, threads.
#include "vh.hpp"
#include <atomic>
#include <boost/log/sinks.hpp>
#include <boost/make_shared.hpp>
#include <condition_variable>
#include <fstream>
#include <hstd/ext/logger.hpp>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
using vh::json;
namespace hl = hstd::log;
using hstd::Str;

static thread_local std::function<void()> in_filter;

static char const* FILES[] = {"dir/f.c", "g"};
static char const* FNS[]   = {"main", "x"};

static int index_of(char const* p, char const** a) {
    if (!p) { return -1; }
    for (int i = 0; i < 2; ++i) { if (std::string(p) == a[i]) { return i; } }
    return 99;
}

static json rec_json(hl::log_record const& r) {
    auto const& d = r.data;
    json        sc = json::array();
    for (auto const& s : d.source_scope) { sc.push_back(vh::bytes(s)); }
    json meta{{"a", -1}, {"b", -1}};
    if (d.metadata) {
        for (auto const& [k, v] : d.metadata->items()) { meta[k] = v; }
    }
    return json{
        {"m", vh::bytes(d.message)}, {"sev", (int)d.severity}, {"cat", vh::bytes(d.category.category)},
        {"dep", d.depth ? d.depth.value() : -1}, {"line", d.line}, {"file", index_of(d.file, FILES)},
        {"fn", index_of(d.function, FNS)}, {"sc", sc}, {"id", d.source_id ? std::stoi(std::string(d.source_id.value())) : -1},
        {"meta", meta}, {"set", d.metadata != nullptr}};
}

struct Mem {
    std::mutex  m;
    json        got = json::array();
    std::vector<std::string> raw;
};
class MemSink : public boost::log::sinks::basic_sink_backend<boost::log::sinks::synchronized_feeding> {
  public:
    std::shared_ptr<Mem> mem;
    MemSink(std::shared_ptr<Mem> m) : mem(m) {}
    void consume(boost::log::record_view const& rec) {
        auto ref   = rec[HSLOG_RECORD_FIELD].extract<hl::log_record>();
        auto depth = rec[HSLOG_SCOPE_DEPTH_FIELD].extract<int>();
        std::lock_guard<std::mutex> l(mem->m);
        if (!ref) { mem->got.push_back(json{{"rec", 0}, {"at", -1}}); return; }
        mem->raw.push_back(ref->data.message);
        mem->got.push_back(json{{"rec", rec_json(*ref)}, {"at", depth ? *depth : -1}});
    }
};

template <int N>
static hl::log_builder::Finalizer uniq(bool reset) { return hl::log_builder_get_mutable_finalizer_filter_unique_records<N>(reset); }
template <int N>
static hl::log_builder::Finalizer chg(bool reset) { return hl::log_builder_get_mutable_finalizer_filter_changed_value<N>(reset); }

// the call sites of the logging macros: file g, function x, line 7
static void x(int sev, std::string const& t) {
    switch (sev) {
        case 0:
#line 7 "g"
            HSLOG_TRACE("{}", t); break;
        case 1:
#line 7 "g"
            HSLOG_DEBUG("{}", t); break;
        case 2:
#line 7 "g"
            HSLOG_INFO("{}", t); break;
        case 3:
#line 7 "g"
            HSLOG_WARNING("{}", t); break;
        case 4:
#line 7 "g"
            HSLOG_ERROR("{}", t); break;
        default:
#line 7 "g"
            HSLOG_FATAL("{}", t); break;
    }
}
#line 200 "L01.cpp"

struct Sink {
    std::string              kind;
    hl::sink_ptr             p;
    std::shared_ptr<Mem>     mem;
    std::string              file;
    size_t                   read = 0;
};

struct S {
    std::vector<Sink>                 sinks;
    std::optional<hl::log_sink_scope> sc[4];
    std::vector<std::unique_ptr<hl::log_scoped_depth_attr::raii>> depth;
    std::ostringstream                out;
    std::streambuf*                   old = nullptr;
    static inline int                 serial = 0;
    int                               ret    = 0;

    void start(json const&) {
        hl::clear_sink_backends();
        boost::log::core::get()->set_filter([](boost::log::attribute_value_set const&) {
            if (in_filter) { in_filter(); }
            return true;
        });
        uniq<1>(true); uniq<2>(true); chg<1>(true); chg<2>(true);
        old = std::cout.rdbuf(out.rdbuf());
    }
    ~S() {
        for (auto& s : sc) { s.reset(); }
        depth.clear();
        hl::clear_sink_backends();
        std::cout.rdbuf(old);
        for (auto& s : sinks) {
            s.p.reset();
            if (!s.file.empty()) { ::unlink(s.file.c_str()); }
        }
    }
    hl::sink_ptr make(std::string const& kind) {
        Sink s;
        s.kind = kind;
        if (kind == "mem") {
            s.mem = std::make_shared<Mem>();
            s.p   = boost::make_shared<boost::log::sinks::synchronous_sink<MemSink>>(boost::make_shared<MemSink>(s.mem));
        } else if (kind == "file") {
            s.file = "L01-" + std::to_string(getpid()) + "-" + std::to_string(++serial) + ".log";
            s.p    = hl::init_file_sink(Str{s.file});
        } else {
            s.p = hl::init_stdout_sink();
        }
        sinks.push_back(s);
        return s.p;
    }
    template <typename R>
    void assemble(R& r, json const& steps) {
        constexpr bool B = std::is_same_v<R, hl::log_builder>;
        auto&          base = [&]() -> hl::log_record& { if constexpr (B) { return r.rec; } else { return r; } }();
        for (auto const& s : steps) {
            std::string k = s["k"];
            auto        t = [&]() { return Str{vh::text(s["t"])}; };
            if (k == "msg") { r.message(t()); }
            else if (k == "int") { r.message(s["n"].get<int>()); }
            else if (k == "pre") { base.prepend_message(t()); }
            else if (k == "space") { r.maybe_space(); }
            else if (k == "fmt") { r.fmt_message("<{}>", t()); }
            else if (k == "sev") {
                int n = s["n"];
                if constexpr (B) { r.severity((hl::severity_level)n); }
                else {
                    switch (n) {
                        case 0: r.as_trace(); break;
                        case 1: r.as_debug(); break;
                        case 2: r.as_info(); break;
                        case 3: r.as_warning(); break;
                        case 4: r.as_error(); break;
                        default: r.as_fatal();
                    }
                }
            } else if (k == "cat") { base.category(hl::log_category{vh::text(s["t"])}); }
            else if (k == "depth") { r.depth(s["n"].get<int>()); }
            else if (k == "site") {
                int f = s["f"], g = s["g"];
                r.set_callsite(s["n"].get<int>(), g < 0 ? nullptr : FNS[g], f < 0 ? nullptr : FILES[f]);
            } else if (k == "scope") { r.source_scope_add(t()); }
            else if (k == "scopes") { r.source_scope(hstd::Vec<Str>{t()}); }
            else if (k == "id") { r.source_id(Str{std::to_string(s["n"].get<int>())}); }
            else if (k == "meta") { r.metadata(Str{s["n"].get<int>() == 0 ? "a" : "b"}, json(s["v"].get<int>())); }
            else { std::abort(); }
        }
    }
    static void min_info(hl::log_builder& b) { if ((int)b.rec.data.severity >= 2) { b.rec.end(); } }
    void emit(json const& o) {
        std::string how = o["how"];
        if (how == "rec") {
            hl::log_record r;
            assemble(r, o["rec"]);
            r.end();
        } else if (how == "bld") {
            hl::log_builder b;
            assemble(b, o["rec"]);
        } else if (how == "bmove") {
            hl::log_builder b;
            assemble(b, o["rec"]);
            hl::log_builder c{std::move(b)};
        } else if (how == "released") {
            hl::log_builder b;
            assemble(b, o["rec"]);
            (void)b.get_record();
            hl::log_builder c{std::move(b)};
        } else if (how == "quiet") {
            hl::log_builder b;
            b.set_finalizer([](hl::log_builder&) {});
            assemble(b, o["rec"]);
        } else if (how == "fin") {
            hl::log_builder b;
            b.set_finalizer(min_info);
            assemble(b, o["rec"]);
        } else if (how == "finmove") {
            hl::log_builder b;
            b.set_finalizer(min_info);
            assemble(b, o["rec"]);
            hl::log_builder c{std::move(b)};
            hl::log_builder d;
            (void)d.get_record();
            d = std::move(c);
        } else {
            bool reset = o["reset"], one = o["n"].get<int>() == 1;
            hl::log_builder b;
            b.set_finalizer(how == "uniq" ? (one ? uniq<1>(reset) : uniq<2>(reset)) : (one ? chg<1>(reset) : chg<2>(reset)));
            assemble(b, o["rec"]);
        }
    }
    void simple(json const& o) {
        std::string n  = o["op"];
        auto        at = [&](char const* f) { return o[f].get<int>(); };
        if (n == "push") {
            hl::push_sink(make(o["k"]));
        } else if (n == "again") {
            if (at("s") <= (int)sinks.size()) { hl::push_sink(sinks[at("s") - 1].p); }
        } else if (n == "filter") {
            if (at("s") <= (int)sinks.size()) {
                json f = o["f"];
                hl::set_sink_filter(sinks[at("s") - 1].p, [f](hl::log_record const& r) -> bool {
                    std::string k = f["k"];
                    if (k == "all") { return true; }
                    if (k == "none") { return false; }
                    if (k == "sev") { return (int)r.data.severity >= f["n"].get<int>(); }
                    if (k == "notsev") { return (int)r.data.severity != f["n"].get<int>(); }
                    if (k == "cat") { return r.data.category == hl::log_category{vh::text(f["t"])}; }
                    if (k == "empty") { return !r.data.message.empty(); }
                    throw std::runtime_error("filter");
                });
            }
        } else if (n == "clear") {
            hl::clear_sink_backends();
        } else if (n == "open" || n == "opendrop" || n == "openpush") {
            auto& s = sc[at("n")];
            s.reset();
            if (n == "openpush") {
                // factories keep their first state, as the macro for scoped factories does
                s.emplace(hl::log_sink_scope{});
                hl::push_sink(make("mem"));
            } else {
                s.emplace();
                if (n == "opendrop") { s->drop_current_sinks(); }
            }
        } else if (n == "drop") {
            if (sc[at("n")]) { sc[at("n")]->drop_current_sinks(); }
        } else if (n == "close") {
            sc[at("n")].reset();
        } else if (n == "move") {
            auto &a = sc[at("n")], &b = sc[at("to")];
            if (&a != &b && a) {
                if (b) { *b = std::move(*a); } else { b.emplace(std::move(*a)); }
            }
        } else if (n == "deeper") {
            depth.push_back(std::make_unique<hl::log_scoped_depth_attr::raii>());
        } else if (n == "shallower") {
            if (!depth.empty()) { depth.pop_back(); }
        } else if (n == "emit") {
            emit(o);
        } else if (n == "macro") {
            x(at("n"), vh::text(o["t"]));
        } else if (n == "last") {
            auto p = hl::get_last_sink();
            ret    = 0;
            if (p) {
                ret = 99;
                for (size_t k = 0; k < sinks.size(); ++k) { if (sinks[k].p == p.value()) { ret = (int)k + 1; } }
            }
        } else { std::abort(); }
    }
    void body(json const& b, size_t k) {
        if (k >= b.size()) { return; }
        std::string n = b[k]["op"];
        if (n == "lscope") {
            auto s = HSLOG_SINK_SCOPE();
            body(b, k + 1);
        } else if (n == "ldrop") {
            hl::log_sink_scope s;
            s.drop_current_sinks();
            body(b, k + 1);
        } else if (n == "ldepth") {
            HSLOG_DEPTH_SCOPE_ANON();
            body(b, k + 1);
        } else if (n == "throw") {
            throw std::runtime_error("x");
        } else {
            simple(b[k]);
            body(b, k + 1);
        }
    }
    json par(json const& o) {
        std::mutex              m;
        std::condition_variable cv;
        int                     running = (int)o["t"].size();
        std::vector<std::thread> ts;
        std::atomic<int>        ready = 0;
        for (size_t j = 0; j < o["t"].size(); ++j) {
            int cnt = o["t"][j];
            std::set<int> pause;
            for (auto const& p : o["pause"]) { if (p[0].get<int>() == (int)j + 1) { pause.insert(p[1].get<int>()); } }
            ts.emplace_back([&, j, cnt, pause]() {
                ready++;
                while (ready < (int)o["t"].size()) { std::this_thread::yield(); }
                for (int n = 1; n <= cnt; ++n) {
                    if (pause.contains(n)) {
                        in_filter = [&]() {
                            // while the record is being opened the others go on as far as they can
                            std::unique_lock<std::mutex> l(m);
                            running--;
                            cv.notify_all();
                            cv.wait_for(l, std::chrono::milliseconds(40), [&]() { return running <= 0; });
                            running++;
                        };
                    } else { in_filter = nullptr; }
                    hl::log_record{}.severity((hl::severity_level)(n % 6)).message(Str{std::to_string(j + 1) + " " + std::to_string(n)}).end();
                }
                in_filter = nullptr;
                std::lock_guard<std::mutex> l(m);
                running--;
                cv.notify_all();
            });
        }
        for (auto& t : ts) { t.join(); }
        json d = json::array();
        for (auto& s : sinks) {
            json q = json::array();
            if (s.mem) {
                for (auto const& r : s.mem->raw) {
                    int a = 0, b = 0;
                    sscanf(r.c_str(), "%d %d", &a, &b);
                    q.push_back(json::array({a, b}));
                }
                s.mem->raw.clear();
                s.mem->got = json::array();
            }
            d.push_back(q);
        }
        return json{{"v", 0}, {"d", d}};
    }
    json op(json const& o) {
        ret = 0;
        if (o["op"] == "par") { return par(o); }
        if (o["op"] == "block") {
            try { body(o["b"], 0); } catch (std::runtime_error const&) { ret = 1; }
        } else { simple(o); }
        json d = json::array();
        std::string all = out.str();
        out.str("");
        bool taken = false;
        for (auto& s : sinks) {
            if (s.mem) {
                d.push_back(s.mem->got);
                s.mem->got = json::array();
                s.mem->raw.clear();
            } else if (s.kind == "file") {
                std::ifstream     f(s.file, std::ios::binary);
                std::stringstream ss;
                ss << f.rdbuf();
                std::string t = ss.str();
                d.push_back(vh::bytes(t.substr(std::min(s.read, t.size()))));
                s.read = t.size();
            } else {
                d.push_back(taken ? json::array() : vh::bytes(all));
                taken = true;
            }
        }
        return json{{"v", ret}, {"d", d}};
    }
};
VH_MAIN(S)
