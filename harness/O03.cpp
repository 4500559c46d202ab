// Parser: structural tokens of a text and the tree made of them.
#include "vh.hpp"
#include <haxorg/base_lexer/base_token_tokenize.hpp>
#include <haxorg/parse/OrgTokenizer.hpp>
#include <haxorg/parse/OrgParser.hpp>
#include <hstd/system/reflection.hpp>
#include <hstd/stdlib/Formatter.hpp>
using vh::json;
using namespace org::parse;

namespace vh {
std::string ascii(std::string const& s) {
    std::string r;
    for (unsigned char ch : s.substr(0, 300)) { r.push_back(ch < 32 || 126 < ch ? '?' : ch); }
    return r;
}
} // namespace vh

struct S {
    json op(json const& o) {
        std::string text;
        bool        doc = o["op"] == "doc";
        if (doc) {
            text = o["s"].get<std::string>();
        } else {
            for (int b : o["t"]) { text.push_back((char)b); }
        }
        json toks = json::array();
        json tree = json::array();
        try {
            LexerParams   p;
            OrgTokenGroup g = tokenize(text, p, SourceFileId{(hstd::u32)0});
            OrgTokenGroup out;
            OrgTokenizer  tok{&out};
            tok.convert(g);
            for (auto const& t : out.tokens.content) { if (!doc) toks.push_back({{"k", hstd::fmt1(t.kind)}, {"t", vh::bytes(t->text)}}); }
            OrgNodeGroup                 nodes;
            Lexer<OrgTokenKind, OrgFill> lex{&out};
            nodes.tokens = &out;
            OrgParser parser{&nodes};
            (void)parser.parseFull(lex);
            for (auto const& n : nodes.nodes.content) {
                if (doc) {
                    tree.push_back({{"k", hstd::fmt1(n.kind)}, {"x", n.getExtent()}, {"t", n.isTerminal() ? out.tokens.content.at(n.getToken().getIndex())->text : ""}});
                    continue;
                }
                tree.push_back({
                    {"k", hstd::fmt1(n.kind)},
                    {"x", n.getExtent()},
                    {"t", n.isTerminal() ? (int)n.getToken().getIndex() + 1 : n.isMono() ? -1 : 0},
                });
            }
            return {{"v", "ok"}, {"toks", toks}, {"tree", tree}, {"left", !lex.finished()}};
        } catch (parse_error const& e) {
            return {{"v", "reported"}, {"toks", toks}, {"tree", json::array()}, {"left", false}};
        } catch (std::exception const& e) {
            return {{"v", "err"}, {"toks", toks}, {"tree", json::array()}, {"left", false}, {"what", vh::ascii(e.what())}};
        }
    }
};
VH_MAIN(S)
