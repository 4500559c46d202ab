// Stand-in for the part of lexy the repository uses (lexy is not installed here).
// Rules are empty types; matching follows lexy's rules: tokens match as a whole
// or not at all, a sequence or branch is committed once its first part matched,
// there is no further backtracking.  Value producing grammars other than
// "capture one token" are accepted by the compiler but never match.
#pragma once
#include <climits>
#include <cstddef>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace lexy {
using It = char const*;
template <std::size_t N> struct _fs {
    char c[N]{};
    constexpr _fs(char const (&s)[N]) {
        for (std::size_t i = 0; i < N; ++i) { c[i] = s[i]; }
    }
    static constexpr std::size_t size = N - 1;
};
struct default_encoding {};
struct nullopt {};
template <typename R = void> struct lexeme {
    It          b = nullptr, e = nullptr;
    It          begin() const { return b; }
    It          end() const { return e; }
    It          data() const { return b; }
    std::size_t size() const { return e - b; }
};
template <typename E = default_encoding> using string_lexeme = lexeme<E>;
template <typename E = default_encoding> struct string_input {
    It p = nullptr, q = nullptr;
    string_input(It a, std::size_t n) : p(a), q(a + n) {}
    string_input(It a, It b) : p(a), q(b) {}
    It          data() const { return p; }
    std::size_t size() const { return q - p; }
};
string_input(It, std::size_t) -> string_input<default_encoding>;
string_input(It, It) -> string_input<default_encoding>;
struct zstring_input {
    explicit zstring_input(It) {}
};
struct visualization_flags_ {};
enum visualization_flags : int { visualize_default = 0, visualize_use_unicode = 1, visualize_use_symbols = 4, visualize_space = 8 };
constexpr visualization_flags operator|(visualization_flags a, visualization_flags b) { return visualization_flags(int(a) | int(b)); }
struct visualization_options {
    visualization_flags flags = visualize_default;
};
template <typename Rule, typename Out, typename In> void trace_to(Out, In const&, visualization_options = {}) {}
struct noop_t {};
inline constexpr noop_t noop{};
template <typename Input> struct error_context {};
template <typename Reader, typename Tag> struct error {};

template <typename T, typename... F> struct _callback : F... {
    using return_type = T;
    using F::operator()...;
    constexpr _callback(F... f) : F(f)... {}
};
template <typename T, typename... F> constexpr auto callback(F... f) { return _callback<T, F...>(f...); }
template <typename T> struct _as {
    using return_type = T;
};
template <typename T> inline constexpr _as<T> as_list{};
template <typename T> inline constexpr _as<T> as_string{};
template <int N> struct _nth {
    template <typename T> constexpr _nth operator||(T const&) const { return *this; }
};
inline constexpr _nth<1> _1{};
inline constexpr _nth<2> _2{};
inline constexpr _nth<3> _3{};
template <typename C, typename... A> constexpr auto bind(C, A...) { return _as<typename C::return_type>{}; }

namespace dsl {
struct rule_base {};
template <typename T> concept Rule = std::is_base_of_v<rule_base, T>;
struct token_base : rule_base {};
struct class_base : token_base {};
template <typename T> concept Class = requires(char c) { { T::has(c) } -> std::same_as<bool>; };

// m: parse, false on failure.  b: 0 condition not met (nothing consumed), 1 done, -1 failed
template <typename R> bool m(It& p, It e) { return R::match(p, e); }
template <typename R> int  b(It& p, It e) {
    if constexpr (std::is_base_of_v<token_base, R>) {
        It s = p;
        if (R::match(p, e)) { return 1; }
        p = s;
        return 0;
    } else {
        return R::branch(p, e);
    }
}
template <typename R> struct cls : class_base {
    static bool match(It& p, It e) {
        if (p == e || !R::has(*p)) { return false; }
        ++p;
        return true;
    }
};
constexpr bool lo(char c) { return 'a' <= c && c <= 'z'; }
constexpr bool up(char c) { return 'A' <= c && c <= 'Z'; }
constexpr bool dg(char c) { return '0' <= c && c <= '9'; }
constexpr char low(char c) { return up(c) ? c + 32 : c; }

template <_fs S> struct lit_ : token_base {
    static bool has(char c) requires(S.size == 1) { return c == S.c[0]; }
    static bool match(It& p, It e) {
        for (std::size_t i = 0; i < S.size; ++i, ++p) {
            if (p == e || *p != S.c[i]) { return false; }
        }
        return true;
    }
};
template <_fs S> struct ilit_ : token_base {
    static bool match(It& p, It e) {
        for (std::size_t i = 0; i < S.size; ++i, ++p) {
            if (p == e || low(*p) != low(S.c[i])) { return false; }
        }
        return true;
    }
};
template <char C> struct lit_c_ : token_base {
    static bool has(char c) { return c == C; }
    static bool match(It& p, It e) {
        if (p == e || *p != C) { return false; }
        ++p;
        return true;
    }
};
template <char C> inline constexpr lit_c_<C> lit_c{};
inline constexpr lit_c_<','> comma{};

template <typename A, typename B> struct alt_ : cls<alt_<A, B>> {
    static bool has(char c) { return A::has(c) || B::has(c); }
};
template <typename A, typename B> struct diff_ : cls<diff_<A, B>> {
    static bool has(char c) { return A::has(c) && !B::has(c); }
};
template <Class A, Class B> constexpr auto operator/(A, B) { return alt_<A, B>{}; }
template <Class A, Class B> constexpr auto operator-(A, B) { return diff_<A, B>{}; }

namespace ascii {
#define LEXY_STANDIN_CLASS(name, expr)                                                   \
    struct name##_ : cls<name##_> {                                                      \
        static bool has(char c) { return expr; }                                         \
    };                                                                                   \
    inline constexpr name##_ name{};
LEXY_STANDIN_CLASS(alpha, lo(c) || up(c))
LEXY_STANDIN_CLASS(digit, dg(c))
LEXY_STANDIN_CLASS(alpha_digit, lo(c) || up(c) || dg(c))
LEXY_STANDIN_CLASS(alpha_underscore, lo(c) || up(c) || c == '_')
LEXY_STANDIN_CLASS(alpha_digit_underscore, lo(c) || up(c) || dg(c) || c == '_')
LEXY_STANDIN_CLASS(word, lo(c) || up(c) || dg(c) || c == '_')
LEXY_STANDIN_CLASS(space, c == ' ' || (9 <= c && c <= 13))
LEXY_STANDIN_CLASS(character, 0 <= (signed char)c)
#undef LEXY_STANDIN_CLASS
template <_fs S> constexpr auto case_folding(lit_<S>) { return ilit_<S>{}; }
} // namespace ascii

template <typename... R> struct set_ : token_base {
    static bool match(It& p, It e) {
        It best = nullptr;
        ((void)[&] {
            It q = p;
            if (R::match(q, e) && (!best || best < q)) { best = q; }
        }(), ...);
        if (!best) { return false; }
        p = best;
        return true;
    }
};
template <typename... R> constexpr auto literal_set(R...) { return set_<R...>{}; }

struct decimal {};
template <typename B = decimal> struct digit_ : cls<digit_<B>> {
    static bool has(char c) { return dg(c); }
};
template <typename B = decimal> inline constexpr digit_<B> digit{};
template <typename B = decimal> struct digits_ : token_base {
    static bool match(It& p, It e) {
        It s = p;
        while (p != e && dg(*p)) { ++p; }
        return s != p;
    }
};
template <typename B = decimal> inline constexpr digits_<B> digits{};
template <typename T> struct integer_ : rule_base {
    static bool match(It& p, It e) {
        It        s = p;
        long long v = 0;
        bool      over = false;
        while (p != e && dg(*p)) {
            if (!over) { v = v * 10 + (*p - '0'); }
            over = over || v > INT_MAX;
            ++p;
        }
        return s != p && !over;
    }
    static int branch(It& p, It e) { return p != e && dg(*p) ? (match(p, e) ? 1 : -1) : 0; }
};
template <typename T> inline constexpr integer_<T> integer{};

template <typename C> struct ident_ : token_base {
    static bool match(It& p, It e) {
        It s = p;
        while (p != e && C::has(*p)) { ++p; }
        return s != p;
    }
};
template <typename C> constexpr auto identifier(C) { return ident_<C>{}; }

template <typename... R> struct seq_ : rule_base {
    static bool match(It& p, It e) { return (m<R>(p, e) && ...); }
    static int  branch(It& p, It e) { return go<R...>(p, e); }
    template <typename H, typename... T> static int go(It& p, It e) {
        int r = b<H>(p, e);
        return r == 1 ? ((m<T>(p, e) && ...) ? 1 : -1) : r;
    }
};
template <Rule A, Rule B> constexpr auto operator+(A, B) { return seq_<A, B>{}; }
template <typename C, typename R> struct br_ : rule_base {
    static bool match(It& p, It e) { return m<C>(p, e) && m<R>(p, e); }
    static int  branch(It& p, It e) {
        int r = b<C>(p, e);
        return r == 1 ? (m<R>(p, e) ? 1 : -1) : r;
    }
};
template <Rule A, Rule B> constexpr auto operator>>(A, B) { return br_<A, B>{}; }
template <typename A, typename B> struct or_ : rule_base {
    static bool match(It& p, It e) { return branch(p, e) == 1; }
    static int  branch(It& p, It e) {
        int r = b<A>(p, e);
        return r == 0 ? b<B>(p, e) : r;
    }
};
template <Rule A, Rule B> constexpr auto operator|(A, B) { return or_<A, B>{}; }

template <typename R> struct while_many_ : rule_base {
    static bool match(It& p, It e) {
        while (true) {
            It  s = p;
            int r = b<R>(p, e);
            if (r == -1) { return false; }
            if (r == 0 || s == p) { return true; }
        }
    }
};
template <Rule R> constexpr auto while_(R) { return while_many_<R>{}; }
template <typename R> struct while_one_ : rule_base {
    static bool match(It& p, It e) { return m<R>(p, e) && while_many_<R>::match(p, e); }
    static int  branch(It& p, It e) {
        int r = b<R>(p, e);
        return r == 1 ? (while_many_<R>::match(p, e) ? 1 : -1) : r;
    }
};
template <Rule R> constexpr auto while_one(R) { return while_one_<R>{}; }
template <typename R> struct opt_ : rule_base {
    static bool match(It& p, It e) { return b<R>(p, e) != -1; }
};
template <Rule R> constexpr auto opt(R) { return opt_<R>{}; }
template <int N, typename R> struct times_ : rule_base {
    static bool match(It& p, It e) {
        for (int i = 0; i < N; ++i) {
            if (!m<R>(p, e)) { return false; }
        }
        return true;
    }
};
template <int N, Rule R> constexpr auto times(R) { return times_<N, R>{}; }
template <typename R> struct until_ : token_base {
    static bool match(It& p, It e) {
        while (true) {
            It s = p;
            if (m<R>(p, e)) { return true; }
            p = s;
            if (p == e) { return false; }
            ++p;
        }
    }
};
template <Rule R> constexpr auto until(R) { return until_<R>{}; }
template <typename R> struct token_ : token_base {
    static bool match(It& p, It e) { return m<R>(p, e); }
};
template <Rule R> constexpr auto token(R) { return token_<R>{}; }
template <typename R> struct capture_ : rule_base {
    static bool match(It& p, It e) { return m<R>(p, e); }
    static int  branch(It& p, It e) { return b<R>(p, e); }
};
template <Rule R> constexpr auto capture(R) { return capture_<R>{}; }
template <typename R, typename C> struct notby_ : token_base {
    static bool match(It& p, It e) { return m<R>(p, e) && !(p != e && C::has(*p)); }
};
template <Rule R, Class C> constexpr auto not_followed_by(R, C) { return notby_<R, C>{}; }
template <typename R> struct ws_ : rule_base {
    static bool match(It& p, It e) { return while_many_<R>::match(p, e); }
};
template <Rule R> constexpr auto whitespace(R) { return ws_<R>{}; }
template <typename P> struct prod_ : rule_base {
    static bool match(It& p, It e) { return m<std::remove_cvref_t<decltype(P::rule)>>(p, e); }
    static int  branch(It& p, It e) { return b<std::remove_cvref_t<decltype(P::rule)>>(p, e); }
};
template <typename P> inline constexpr prod_<P> p{};

// only named, never matched
struct never_ : rule_base {
    static bool match(It&, It) { return false; }
    static int  branch(It&, It) { return 0; }
};
template <typename... R> constexpr never_ peek(R...) { return {}; }
template <typename... R> constexpr never_ list(R...) { return {}; }
template <typename... R> constexpr never_ sep(R...) { return {}; }
template <typename... R> constexpr never_ round_bracketed(R...) { return {}; }
template <typename... R> constexpr never_ curly_bracketed(R...) { return {}; }
template <typename P> inline constexpr never_ recurse{};
} // namespace dsl

template <typename T> struct parse_result {
    std::optional<T> v;
    bool             has_value() const { return v.has_value(); }
    T const&         value() const { return *v; }
    std::vector<std::string> errors() const { return {"not matched"}; }
};
template <typename R> struct _captured : std::false_type {};
template <typename R> struct _captured<dsl::capture_<dsl::token_<R>>> : std::true_type {};
template <typename Rule, typename Err> auto parse(string_input<default_encoding> in, Err const&) {
    using V = std::remove_cvref_t<decltype(Rule::value)>;
    using R = std::remove_cvref_t<decltype(Rule::rule)>;
    parse_result<typename V::return_type> res;
    if constexpr (_captured<R>::value) {
        It p = in.p;
        if (R::match(p, in.q)) { res.v = Rule::value(string_lexeme<>{in.p, p}); }
    }
    return res;
}
} // namespace lexy

#define LEXY_LIT(s) (::lexy::dsl::lit_<::lexy::_fs{s}>{})
#define LEXY_LITERAL_SET(...) ::lexy::dsl::literal_set(__VA_ARGS__)
#define LEXY_CHAR_CLASS(name, ...) (__VA_ARGS__)

namespace lexy_ext::_detail {
template <typename Out, typename... A> Out write_error(Out out, A const&...) { return out; }
template <typename Out, typename C, typename E> Out write_error(Out out, C const&, E const&, std::initializer_list<int>, std::nullptr_t) { return out; }
} // namespace lexy_ext::_detail
