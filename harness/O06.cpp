// Documents read, formatted and read again.  What a document holds is recorded as
// the list of its parts in reading order, each with its depth, kind and text.
#include "vh.hpp"
#include <haxorg/base_lexer/base_token_tokenize.hpp>
#include <haxorg/parse/OrgParser.hpp>
#include <haxorg/parse/OrgTokenizer.hpp>
#include <haxorg/sem/SemConvert.hpp>
#include <haxorg/sem/SemOrgFormat.hpp>
using vh::json;
using namespace org::parse;
using namespace org::sem;

static SemId<Org> parse(std::string const& text) {
    LexerParams   p;
    OrgTokenGroup base = tokenize(text, p, SourceFileId{(hstd::u32)0});
    OrgTokenGroup toks;
    OrgTokenizer  tokenizer{&toks};
    tokenizer.convert(base);
    Lexer<OrgTokenKind, OrgFill> lex{&toks};
    OrgNodeGroup                 nodes{&toks};
    OrgParser                    parser{&nodes};
    auto                         id = parser.parseFull(lex);
    OrgConverter                 conv{};
    return conv.convertDocument(OrgAdapter(&nodes, id)).unwrap();
}

struct Dump {
    json out = json::array();
    int  d   = 0;
    void put(std::string const& k, std::string const& t = "") { out.push_back({{"d", d}, {"k", k}, {"t", t}}); }
    template <typename F>
    void in(std::string const& k, std::string const& t, F f) {
        put(k, t);
        ++d;
        f();
        --d;
    }
    static std::string tag(HashTagText const& t) {
        std::string r(t.head);
        if (!t.subtags.empty()) {
            r += "(";
            for (auto const& s : t.subtags) { r += tag(s) + ","; }
            r.back() = ')';
        }
        return r;
    }
    static std::string time(SemId<Time> t) {
        std::string r = t->isActive ? "<" : "[";
        auto        n = [&](auto const& v, char const* sep) {
            if (v) {
                char b[16];
                snprintf(b, 16, "%s%02d", sep, (int)*v);
                r += b;
            }
        };
        if (t->isStatic()) {
            n(t->getYear(), ""), n(t->getMonth(), "-"), n(t->getDay(), "-"), n(t->getHour(), " "), n(t->getMinute(), ":"), n(t->getSecond(), ":");
            auto rep = [&](Time::Repeat const& p) { r += " " + std::to_string((int)p.mode) + "/" + std::to_string(p.count) + "/" + std::to_string((int)p.period); };
            for (auto const& p : t->getStatic().repeat) { rep(p); }
            if (t->getStatic().warn) { rep(*t->getStatic().warn); }
        } else {
            r += "?";
        }
        return r + (t->isActive ? ">" : "]");
    }
    static std::string target(LinkTarget const& t) {
        using K = LinkTarget::Kind;
        switch (t.getKind()) {
            case K::Raw: return "raw:" + S(t.getRaw().text);
            case K::Id: return "id:" + S(t.getId().text);
            case K::CustomId: return "custom:" + S(t.getCustomId().text);
            case K::SubtreeTitle: {
                std::string r = "title:";
                for (auto const& p : t.getSubtreeTitle().title.path) { r += "/" + S(p); }
                return r + "@" + std::to_string(t.getSubtreeTitle().level);
            }
            case K::Person: return "person:" + S(t.getPerson().name);
            case K::UserProtocol: return "protocol:" + S(t.getUserProtocol().protocol) + ":" + S(t.getUserProtocol().target);
            case K::Internal: return "internal:" + S(t.getInternal().target);
            case K::Footnote: return "footnote:" + S(t.getFootnote().target);
            case K::File: return "file:" + S(t.getFile().file);
            case K::Attachment: return "attachment:" + S(t.getAttachment().file);
        }
        return "?";
    }
    static std::string S(hstd::Str const& s) { return std::string(s); }
    static std::string value(AttrValue const& v) {
        std::string r = v.name ? ":" + S(*v.name) + "=" : std::string();
        if (v.varname) { r += S(*v.varname) + "="; }
        if (v.isQuoted) { r += "\""; }
        return r + S(v.getString());
    }
    void attrs(AttrGroup const& g) {
        std::vector<std::pair<std::string, std::string>> all;
        for (auto const& v : g.positional.items) { put("arg", value(v)); }
        for (auto const& [k, vs] : g.named) {
            for (auto const& v : vs.items) { all.push_back({k, value(v)}); }
        }
        std::stable_sort(all.begin(), all.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
        for (auto const& [k, v] : all) { put("arg", v); }
    }
    void property(NamedProperty const& p) {
        using K = NamedProperty::Kind;
        std::string k(hstd::enum_serde<K>::to_string(p.getKind()));
        switch (p.getKind()) {
            case K::Created: return put("property", k + "=" + S(p.getCreated().time.format()));
            case K::CustomId: return put("property", k + "=" + S(p.getCustomId().value));
            case K::CustomRaw: return put("property", k + "=" + S(p.getCustomRaw().name) + "=" + S(p.getCustomRaw().value));
            case K::Effort: return put("property", k + "=" + std::to_string(p.getEffort().hours) + ":" + std::to_string(p.getEffort().minutes));
            case K::Visibility: return put("property", k + "=" + std::to_string((int)p.getVisibility().level));
            case K::Ordered: return put("property", k + "=" + std::to_string(p.getOrdered().isOrdered));
            case K::ArchiveFile: return put("property", k + "=" + S(p.getArchiveFile().file));
            case K::ArchiveCategory: return put("property", k + "=" + S(p.getArchiveCategory().category));
            case K::ArchiveTodo: return put("property", k + "=" + S(p.getArchiveTodo().todo));
            case K::CustomArgs: return in("property", k + "=" + S(p.getCustomArgs().name), [&] { attrs(p.getCustomArgs().attrs); });
            default: return put("property", k);
        }
    }
    void subs(SemId<Org> n, bool para = false) {
        for (auto const& s : n->subnodes) {
            if (s->getKind() == OrgSemKind::Newline) {
                put(para ? "Newline" : "Blank");
            } else {
                node(s);
            }
        }
    }
    template <typename T>
    void stmt(SemId<T> n) {
        if (!n->attached.empty()) {
            in("attached", "", [&] {
                for (auto const& a : n->attached) { node(a); }
            });
        }
    }
    void node(SemId<Org> n) {
        if (n.isNil()) { return put("nil"); }
        using K         = OrgSemKind;
        auto        kid = n->getKind();
        std::string k(hstd::enum_serde<OrgSemKind>::to_string(kid));
        if (auto l = std::dynamic_pointer_cast<Leaf>(n.value)) { return put(k, l->text); }
        switch (kid) {
            case K::HashTag: return put(k, tag(n.as<HashTag>()->text));
            case K::InlineFootnote: {
                auto f = n.as<InlineFootnote>();
                return in(k, f->tag, [&] {
                    if (f->definition) { node(*f->definition); }
                });
            }
            case K::InlineExport: return put(k, S(n.as<InlineExport>()->exporter) + ":" + S(n.as<InlineExport>()->content));
            case K::Time: return put(k, time(n.as<Time>()));
            case K::TimeRange: return put(k, time(n.as<TimeRange>()->from) + time(n.as<TimeRange>()->to));
            case K::Symbol: {
                auto s = n.as<Symbol>();
                return in(k, s->name, [&] {
                    for (auto const& p : s->parameters) { put("param", (p.key ? S(*p.key) + "=" : "") + S(p.value)); }
                    for (auto const& p : s->positional) { node(p); }
                });
            }
            case K::RadioTarget: {
                std::string r;
                for (auto const& w : n.as<RadioTarget>()->words) { r += (r.empty() ? "" : " ") + S(w); }
                return put(k, r);
            }
            case K::Link: {
                auto l = n.as<Link>();
                return in(k, target(l->target), [&] {
                    stmt(l);
                    if (l->description) { node(l->description->asOrg()); }
                });
            }
            case K::BlockCode: {
                auto b = n.as<BlockCode>();
                return in(k, b->lang ? *b->lang : hstd::Str(""), [&] {
                    stmt(b);
                    attrs(b->switches), attrs(b->attrs);
                    for (auto const& l : b->lines) {
                        std::string t;
                        for (auto const& p : l.parts) {
                            t += p.isRaw() ? S(p.getRaw().code) : p.isCallout() ? "(ref:" + S(p.getCallout().name) + ")" : "<<" + S(p.getTangle().target) + ">>";
                        }
                        put("code", t);
                    }
                    for (auto const& r : b->result) { node(r.asOrg()); }
                });
            }
            case K::Subtree: {
                auto s = n.as<Subtree>();
                return in(k, std::to_string(s->level), [&] {
                    if (s->todo) { put("todo", *s->todo); }
                    if (s->priority) { put("priority", *s->priority); }
                    in("title", "", [&] { subs(s->title.asOrg(), true); });
                    if (s->completion) { put("completion", std::to_string(s->completion->done) + (s->completion->isPercent ? "%" : "/" + std::to_string(s->completion->full))); }
                    for (auto const& t : s->tags) { node(t.asOrg()); }
                    if (s->isComment) { put("comment"); }
                    if (s->isArchived) { put("archived"); }
                    if (s->scheduled) { put("scheduled", time(*s->scheduled)); }
                    if (s->deadline) { put("deadline", time(*s->deadline)); }
                    if (s->closed) { put("closed", time(*s->closed)); }
                    if (s->treeId) { put("id", *s->treeId); }
                    if (s->description) { in("description", "", [&] { subs(s->description->asOrg(), true); }); }
                    for (auto const& p : s->properties) { property(p); }
                    for (auto const& l : s->logbook) { node(l.asOrg()); }
                    subs(n);
                });
            }
            case K::ListItem: {
                auto i = n.as<ListItem>();
                return in(k, i->bullet ? *i->bullet : hstd::Str(""), [&] {
                    if (i->checkbox != CheckboxState::None) { put("checkbox", i->checkbox == CheckboxState::Done ? "X" : i->checkbox == CheckboxState::Empty ? " " : "-"); }
                    if (i->header) { in("header", "", [&] { subs(i->header->asOrg(), true); }); }
                    subs(n);
                });
            }
            case K::Table: {
                auto t = n.as<Table>();
                return in(k, "", [&] {
                    stmt(t);
                    attrs(t->attrs);
                    for (auto const& r : t->rows) {
                        in("row", "", [&] {
                            for (auto const& c : r->cells) {
                                in("cell", "", [&] { subs(c.asOrg()); });
                            }
                        });
                    }
                });
            }
            case K::CriticMarkup: {
                using C = CriticMarkup::Kind;
                auto c  = n.as<CriticMarkup>();
                return in(k, c->kind == C::Deletion ? "del" : c->kind == C::Addition ? "add" : c->kind == C::Substitution ? "swap" : c->kind == C::Highlighting ? "high" : "note", [&] { subs(n); });
            }
            case K::BlockExport: {
                auto b = n.as<BlockExport>();
                return in(k, S(b->exporter) + ":" + S(b->content), [&] { stmt(b), attrs(b->attrs); });
            }
            case K::CmdAttr: return in(k, n.as<CmdAttr>()->target, [&] { attrs(n.as<CmdAttr>()->attrs); });
            case K::CmdEmail: return put(k, n.as<CmdEmail>()->text);
            case K::CmdLanguage: return put(k, n.as<CmdLanguage>()->text);
            case K::CmdCustomRaw: return put(k, S(n.as<CmdCustomRaw>()->name) + "=" + S(n.as<CmdCustomRaw>()->text));
            case K::CmdCustomText: return in(k, n.as<CmdCustomText>()->name, [&] { subs(n.as<CmdCustomText>()->text.asOrg(), true); });
            case K::CmdAuthor: return in(k, "", [&] { subs(n.as<CmdAuthor>()->text.asOrg(), true); });
            case K::CmdCreator: return in(k, "", [&] { subs(n.as<CmdCreator>()->text.asOrg(), true); });
            case K::CmdName: return put(k, n.as<CmdName>()->name);
            case K::CmdCaption: return in(k, "", [&] { node(n.as<CmdCaption>()->text.asOrg()); });
            case K::Paragraph:
                return in(k, "", [&] {
                    stmt(n.as<Paragraph>());
                    subs(n, true);
                });
            case K::Document: {
                auto d = n.as<Document>();
                return in(k, "", [&] {
                    if (d->title) { in("title", "", [&] { subs(d->title->asOrg(), true); }); }
                    if (d->author) { in("author", "", [&] { subs(d->author->asOrg(), true); }); }
                    for (auto const& t : d->filetags) { put("filetag", tag(t->text)); }
                    using V = InitialSubtreeVisibility;
                    if (d->options->initialVisibility != V::ShowEverything) {
                        auto v = d->options->initialVisibility;
                        put("startup", v == V::Content ? "content" : v == V::Overview ? "overview" : v == V::ShowAll ? "showall" : v == V::Show2Levels ? "show2levels" : std::to_string((int)v));
                    }
                    subs(n);
                });
            }
            default: {
                return in(k, "", [&] {
                    if (auto b = std::dynamic_pointer_cast<Stmt>(n.value)) {
                        if (!b->attached.empty()) {
                            in("attached", "", [&] {
                                for (auto const& a : b->attached) { node(a); }
                            });
                        }
                    }
                    if (auto b = std::dynamic_pointer_cast<Cmd>(n.value)) { attrs(b->attrs); }
                    subs(n);
                });
            }
        }
    }
    static json of(SemId<Org> n) {
        Dump d;
        d.node(n);
        return d.out;
    }
};

struct S {
    void start(json const&) {}
    json op(json const& o) {
        json r;
        try {
            std::string s = o["s"];
            for (int i = 1; i <= 3; ++i) {
                auto d                   = parse(s);
                r["c" + std::to_string(i)] = Dump::of(d);
                s                        = std::string(org::algo::Formatter::format(d));
                r["t" + std::to_string(i)] = s;
            }
            // the first formatting may leave a blank line where a comment was; after
            // that only blank lines at either end of the text do not count
            auto solid = [](std::string const& t) {
                std::string out;
                for (char c : t) {
                    if (c != '\n' || (!out.empty() && out.back() != '\n')) { out.push_back(c); }
                }
                while (!out.empty() && out.back() == '\n') { out.pop_back(); }
                return out;
            };
            auto trim = [](std::string const& t) {
                auto a = t.find_first_not_of('\n'), b = t.find_last_not_of('\n');
                return a == t.npos ? std::string() : t.substr(a, b - a + 1);
            };
            r["same12"] = solid(r["t1"]) == solid(r["t2"]);
            r["same23"] = trim(r["t2"]) == trim(r["t3"]);
            r["v"]      = "ok";
        } catch (std::exception const& e) { return {{"v", "err"}, {"what", std::string(e.what()).substr(0, 300)}}; }
        return r;
    }
};
VH_MAIN(S)
