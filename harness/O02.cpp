// Structural tokenizer: base tokens of a text, and the tokens made of them.
#include "vh.hpp"
#include <haxorg/base_lexer/base_token_tokenize.hpp>
#include <haxorg/parse/OrgTokenizer.hpp>
#include <hstd/system/reflection.hpp>
#include <hstd/stdlib/Formatter.hpp>
using vh::json;
using namespace org::parse;

json tokens(OrgTokenGroup const& g) {
    json r = json::array();
    for (auto const& t : g.tokens.content) {
        json loc = json::array();
        if (t->loc) { loc = {t->loc->pos, t->loc->line, t->loc->column}; }
        r.push_back({{"k", hstd::fmt1(t.kind)}, {"t", vh::bytes(t->text)}, {"l", loc}});
    }
    return r;
}

struct S {
    json op(json const& o) {
        std::string text;
        for (int b : o["t"]) { text.push_back((char)b); }
        json base = json::array();
        try {
            LexerParams   p;
            OrgTokenGroup g = tokenize(text, p, SourceFileId{(hstd::u32)0});
            base            = tokens(g);
            OrgTokenGroup out;
            OrgTokenizer  tok{&out};
            tok.convert(g);
            return {{"v", "ok"}, {"base", base}, {"out", tokens(out)}};
        } catch (std::exception const& e) { return {{"v", "err"}, {"base", base}, {"out", json::array()}, {"what", std::string(e.what()).substr(0, 300)}}; }
    }
};
VH_MAIN(S)
