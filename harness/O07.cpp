// Documents kept in a shared store and edited into new versions.  Every distinct
// node of the store gets a number when first seen; what it holds is written down
// field by field, with the nodes it refers to replaced by their numbers.
#include "vh.hpp"
#include <haxorg/base_lexer/base_token_tokenize.hpp>
#include <haxorg/imm/ImmOrg.hpp>
#include <haxorg/imm/ImmOrgEdit.hpp>
#include <haxorg/parse/OrgParser.hpp>
#include <haxorg/parse/OrgTokenizer.hpp>
#include <haxorg/sem/SemConvert.hpp>
using vh::json;
using namespace org::parse;
using namespace org::imm;
namespace sem = org::sem;

static sem::SemId<sem::Org> parse(std::string const& text) {
    LexerParams   p;
    OrgTokenGroup base = tokenize(text, p, SourceFileId{(hstd::u32)0});
    OrgTokenGroup toks;
    OrgTokenizer  tokenizer{&toks};
    tokenizer.convert(base);
    Lexer<OrgTokenKind, OrgFill> lex{&toks};
    OrgNodeGroup                 nodes{&toks};
    OrgParser                    parser{&nodes};
    auto                         id = parser.parseFull(lex);
    sem::OrgConverter            conv{};
    return conv.convertDocument(OrgAdapter(&nodes, id)).unwrap();
}

template <typename T> struct is_sem : std::false_type {};
template <typename T> struct is_sem<sem::SemId<T>> : std::true_type {};
template <typename T> struct is_box : std::false_type {};
template <typename T> struct is_box<hstd::ext::ImmBox<T>> : std::true_type {};
template <typename T> struct is_opt : std::false_type {};
template <typename T> struct is_opt<std::optional<T>> : std::true_type {};
template <typename T> struct is_ptr : std::false_type {};
template <typename T> struct is_ptr<std::shared_ptr<T>> : std::true_type {};
template <typename T>
concept HasOpt = requires(T const& t) { t.has_value(); t.value(); };
template <typename T>
concept HasMap = requires { typename T::mapped_type; typename T::key_type; };
template <typename T>
concept HasItems = requires(T const& t) { t.begin(); t.end(); t.size(); };
template <typename T>
concept HasIndex = requires(T const& t) { std::variant_size<typename T::base>(); } || requires(T const& t) { std::visit([](auto const&) {}, t); };

// what one node holds: a text for its own values, and the nodes it refers to
template <typename N>
struct Fields {
    std::string                            own;
    std::vector<N>                         sub;
    std::vector<std::pair<std::string, N>> other;

    template <typename T>
    void val(T const& v, std::string const& at) {
        if constexpr (std::is_base_of_v<ImmId, T>) {
            if constexpr (std::is_same_v<N, ImmId>) {
                if (v.isNil()) { own += "nil"; return; }
                own += "#", other.push_back({at, ImmId(v)});
            }
        } else if constexpr (is_sem<T>::value) {
            if constexpr (!std::is_same_v<N, ImmId>) {
                if (v.isNil()) { own += "nil"; return; }
                own += "#", other.push_back({at, v.template as<sem::Org>()});
            }
        } else if constexpr (is_box<T>::value) {
            val(v.get(), at);
        } else if constexpr (is_ptr<T>::value) {
            if (v) { val(*v, at); } else { own += "~"; }
        } else if constexpr (std::is_same_v<T, hstd::Str> || std::is_same_v<T, std::string>) {
            own += "'" + std::string(v) + "'";
        } else if constexpr (std::is_enum_v<T>) {
            own += std::to_string((long long)v);
        } else if constexpr (std::is_arithmetic_v<T>) {
            own += std::to_string(v);
        } else if constexpr (std::is_same_v<T, hstd::UserTime>) {
            own += std::string(v.format());
        } else if constexpr (std::is_same_v<T, std::monostate>) {
            own += "-";
        } else if constexpr (HasOpt<T>) {
            if (v.has_value()) { own += "+", val(v.value(), at); } else { own += "~"; }
        } else if constexpr (HasMap<T>) {
            std::map<std::string, std::pair<std::string, std::vector<std::pair<std::string, N>>>> m;
            for (auto const& [key, value] : v) {
                Fields k, x;
                k.val(key, "");
                x.val(value, at + "." + k.own);
                m[k.own] = {x.own, x.other};
            }
            own += "{";
            for (auto const& [k, x] : m) {
                own += k + ":" + x.first + ",";
                other.insert(other.end(), x.second.begin(), x.second.end());
            }
            own += "}";
        } else if constexpr (HasItems<T>) {
            own += "[";
            int i = 0;
            for (auto const& x : v) { val(x, at + "." + std::to_string(i++)), own += ","; }
            own += "]";
        } else if constexpr (HasIndex<T>) {
            own += std::to_string(v.index()) + ":";
            std::visit([&](auto const& x) { val(x, at); }, v);
        } else if constexpr (hstd::DescribedRecord<T>) {
            own += "(";
            hstd::for_each_field_with_bases<T>([&](auto const& f) {
                using F = std::remove_cvref_t<decltype(v.*f.pointer)>;
                std::string name = f.name;
                if (name == "loc" || std::is_same_v<F, hstd::Opt<SourceLoc>>) { return; }
                own += name + "=";
                val(v.*f.pointer, at.empty() ? name : at + "." + name);
                own += ";";
            });
            own += ")";
        } else {
            static_assert(sizeof(T) == 0, "unknown kind of value");
        }
    }
    template <typename T>
    static Fields of(T const& node) {
        Fields r;
        hstd::for_each_field_with_bases<T>([&](auto const& f) {
            std::string name = f.name;
            if (name == "loc") { return; }
            if (name == "subnodes") {
                if constexpr (requires { (node.*f.pointer).begin(); r.sub.push_back(*(node.*f.pointer).begin()); }) {
                    for (auto const& x : node.*f.pointer) { r.sub.push_back(x); }
                }
                return;
            }
            r.own += name + "=";
            r.val(node.*f.pointer, name);
            r.own += ";";
        });
        return r;
    }
};

struct S {
    std::vector<ImmAstVersion>             vers;
    ImmAstContext::Ptr                     first = ImmAstContext::init_start_context();
    std::map<std::string, int>             labels;
    std::map<hstd::u64, int>               nums;
    std::vector<ImmId>                     ids;
    static std::string kind(OrgSemKind k) { return std::string(hstd::fmt("{}", k)); }

    int num(ImmId id) {
        if (id.isNil()) { return 0; }
        auto [it, fresh] = nums.insert({id.getValue(), (int)ids.size() + 1});
        if (fresh) { ids.push_back(id); }
        return it->second;
    }
    int label(std::string const& s) { return labels.insert({s, (int)labels.size() + 1}).first->second; }

    json tree(sem::SemId<sem::Org> n) {
        Fields<sem::SemId<sem::Org>> f;
        switch (n->getKind()) {
#define _case(K)                                                                         \
    case OrgSemKind::K: f = Fields<sem::SemId<sem::Org>>::of(*n.as<sem::K>().get()); break;
            EACH_SEM_ORG_KIND(_case)
#undef _case
        }
        json r{{"k", kind(n->getKind())}, {"l", label(f.own)}, {"s", json::array()}, {"o", json::array()}};
        for (auto const& x : f.sub) { r["s"].push_back(tree(x)); }
        for (auto const& x : f.other) { r["o"].push_back({{"f", x.first}, {"n", tree(x.second)}}); }
        return r;
    }
    json entry(ImmId id, ImmAstContext::Ptr const& ctx) {
        Fields<ImmId> f;
        switch_node_value(id, ctx, [&](auto const& v) { f = Fields<ImmId>::of(v); });
        json r{{"k", kind(id.getKind())}, {"l", label(f.own)}, {"s", json::array()}, {"o", json::array()}};
        for (auto const& x : f.sub) { r["s"].push_back(num(x)); }
        for (auto const& x : f.other) { r["o"].push_back({{"f", x.first}, {"n", num(x.second)}}); }
        return r;
    }

    // a document written down as a tree
    static sem::SemId<sem::Org> make(json const& t) {
        std::string          k = t["k"];
        sem::SemId<sem::Org> r = sem::SemId<sem::Org>::Nil();
        auto                 leaf = [&](auto n) { n->text = hstd::Str(t["t"].get<std::string>()), r = n.template as<sem::Org>(); };
        if (k == "Document") {
            auto n     = sem::SemId<sem::Document>::New();
            n->options = sem::SemId<sem::DocumentOptions>::New();
            r          = n.as<sem::Org>();
        }
        if (k == "Paragraph") { r = sem::SemId<sem::Paragraph>::New().as<sem::Org>(); }
        if (k == "Bold") { r = sem::SemId<sem::Bold>::New().as<sem::Org>(); }
        if (k == "List") { r = sem::SemId<sem::List>::New().as<sem::Org>(); }
        if (k == "ListItem") { r = sem::SemId<sem::ListItem>::New().as<sem::Org>(); }
        if (k == "Word") { leaf(sem::SemId<sem::Word>::New()); }
        if (k == "Space") { leaf(sem::SemId<sem::Space>::New()); }
        if (k == "Subtree") {
            auto n   = sem::SemId<sem::Subtree>::New();
            n->level = std::stoi(t["t"].get<std::string>());
            n->title = sem::SemId<sem::Paragraph>::New();
            for (auto const& x : t["o"]) { n->title->push_back(make(x)); }
            r = n.as<sem::Org>();
        }
        if (r.isNil()) { throw std::logic_error("kind " + k); }
        for (auto const& x : t["s"]) { r->push_back(make(x)); }
        return r;
    }

    // steps are positions among the parts of a node; -1 goes to the title
    static ImmAdapter walk(ImmAstVersion const& v, json const& p) {
        ImmAdapter a = v.getRootAdapter();
        for (auto const& x : p) {
            int i = x;
            a     = i < 0 ? a.at(ImmReflFieldId::FromTypeField(&ImmSubtree::title)) : a.at(i);
        }
        return a;
    }

    // parts of parsed documents are chosen by number; the place found is written down
    static json place(ImmAstVersion const& v, int n, bool inner) {
        std::vector<json> all;
        auto              go = [&](auto&& self, ImmAdapter const& a, json const& p) -> void {
            if (inner ? a.size() != 0 : !p.empty()) { all.push_back(p); }
            for (int i = 0; i < a.size(); ++i) {
                json q = p;
                q.push_back(i);
                self(self, a.at(i), q);
            }
        };
        go(go, v.getRootAdapter(), json::array());
        return all.empty() ? json() : all.at(n % all.size());
    }
    json resolve(json e, ImmAstVersion const& base) {
        for (auto& x : e["src"]) {
            if (x.contains("at")) {
                x["b"] = std::min(x["b"].get<int>(), (int)vers.size());
                x["p"] = place(vers.at(x["b"].get<int>() - 1), x["at"], false);
            }
        }
        if (e.contains("at")) {
            e["p"] = place(base, e["at"], e["k"] != "replace");
            int n  = e["p"].is_null() ? 1 : std::max(1, walk(base, e["p"]).size());
            e["i"] = e["i"].get<int>() % n;
            if (e["k"] == "swap") { e["j"] = (e["j"].get<int>() + n) % n; }
        }
        return e;
    }

    json state(ImmAstVersion const& v) {
        auto ctx = v.context;
        json r;
        for (auto const& x : vers) { r["roots"].push_back(num(x.getRoot())); }
        r["places"] = json::array();
        for (auto const& a : v.getRootAdapter().getAllSubnodesDFS(v.getRootAdapter().path)) {
            auto p = a.getParent();
            r["places"].push_back({num(a.id), num(ctx->at(a.path)), p ? num(p->id) : 0});
        }
        for (auto const& id : ctx->store->all_ids()) { num(id); }
        r["tab"] = json::array();
        for (size_t i = 0; i < ids.size(); ++i) { r["tab"].push_back(entry(ids[i], ctx)); }
        r["par"] = json::array();
        for (size_t i = 0; i < ids.size(); ++i) {
            json ps = json::array(), paths = json::array();
            if (ctx->currentTrack->isParentTracked(ids[i])) {
                for (auto const& p : ctx->getParentIds(ids[i])) { ps.push_back(num(p)); }
            }
            for (auto const& u : ctx->getPathsFor(ids[i])) { paths.push_back({num(u.id), num(u.path.root), num(ctx->at(u.path)), (int)u.path.path.size()}); }
            r["par"].push_back({{"ps", ps}, {"paths", paths}});
        }
        r["back"] = tree(ctx->get(v.getRoot()));
        return r;
    }

    json op(json const& o) {
        std::string op = o["op"];
        json        r{{"v", "ok"}, {"what", ""}, {"src", json::array()}};
        try {
            if (op == "tree" || op == "text") {
                auto n   = op == "tree" ? make(o["t"]) : parse(o["s"]);
                auto ctx = o["c"].get<int>() == 0 ? first : vers.at(o["c"].get<int>() - 1).context;
                r["src"].push_back(tree(n));
                auto v = ctx->addRoot(n);
                vers.push_back(v);
            } else {
                r["b"]    = std::min(o["b"].get<int>(), (int)vers.size());
                auto base = vers.at(r["b"].get<int>() - 1);
                r["e"]    = json::array();
                for (auto const& x : o["e"]) {
                    r["e"].push_back(resolve(x, base));
                    bool none = r["e"].back()["p"].is_null();
                    for (auto const& y : r["e"].back()["src"]) { none = none || y["p"].is_null(); }
                    if (none) { return json{{"v", "none"}, {"what", ""}, {"b", r["b"]}}; }
                }
                auto v = base.getEditVersion([&](ImmAstContext::Ptr, ImmAstEditContext& ctx) {
                    ImmAstReplaceGroup g;
                    for (auto const& e : r["e"]) {
                        std::string k = e["k"];
                        auto        a = walk(base, e["p"]);
                        int         i = e["i"], j = e["j"];
                        std::vector<ImmId> src;
                        for (auto const& x : e["src"]) {
                            if (x["b"].get<int>() == 0) {
                                auto n = make(x["t"]);
                                r["src"].push_back(tree(n));
                                src.push_back(ctx.store().add(n, ctx));
                            } else {
                                auto id = walk(vers.at(x["b"].get<int>() - 1), x["p"]).id;
                                src.push_back(id);
                                r["src"].push_back(tree(base.context->get(id)));
                            }
                        }
                        if (k == "set") { g.incl(setSubnode(a, src.at(0), i, ctx)); }
                        else if (k == "insert") { g.incl(insertSubnode(a, src.at(0), i, ctx)); }
                        else if (k == "inserts") { g.incl(insertSubnodes(a, hstd::Vec<ImmId>{src.begin(), src.end()}, i, ctx)); }
                        else if (k == "append") { g.incl(appendSubnode(a, src.at(0), ctx)); }
                        else if (k == "drop") { g.incl(dropSubnode(a, i, ctx)); }
                        else if (k == "dropid") { g.incl(dropSubnode(a, a.at(i).id, ctx)); }
                        else if (k == "pop") { g.incl(popSubnode(a, i, ctx).first); }
                        else if (k == "swap") { g.incl(swapSubnode(a, i, j, ctx)); }
                        else if (k == "move") { auto x = moveSubnode(a, i, j, ctx, e["bounded"].get<bool>()); if (x) { g.incl(*x); } }
                        else if (k == "replace") { g.incl(replaceNode(a, src.at(0), ctx)); }
                        else { throw std::logic_error("edit " + k); }
                    }
                    return g;
                });
                // an edit without effect makes no version
                if (v.getRoot() == base.getRoot()) {
                    r["v"] = "same";
                } else {
                    vers.push_back(v);
                }
            }
        } catch (std::exception const& e) {
            r["v"]    = "err";
            r["what"] = std::string(e.what()).substr(0, 300);
        }
        if (r["v"] == "ok") {
            try {
                r.update(state(vers.back()));
            } catch (std::exception const& e) {
                r["v"]    = "bad";
                r["what"] = std::string(e.what()).substr(0, 300);
            }
        }
        return r;
    }
};
VH_MAIN(S)
