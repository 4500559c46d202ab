// Base tokenizer.
#include "vh.hpp"
#include <haxorg/base_lexer/base_token_tokenize.hpp>
#include <hstd/system/reflection.hpp>
#include <hstd/stdlib/Formatter.hpp>
using vh::json;
using namespace org::parse;
struct S {
    json op(json const& o) {
        std::string text;
        for (int b : o["t"]) { text.push_back((char)b); }
        // exactly sized heap copy, so that a read past the end is seen
        std::unique_ptr<std::string> in = std::make_unique<std::string>(text);
        in->shrink_to_fit();
        json toks = json::array();
        try {
            LexerParams   p;
            OrgTokenGroup g = tokenize(*in, p, SourceFileId{(hstd::u32)0});
            for (auto const& t : g.tokens.content) {
                json loc = json::array();
                if (t->loc) { loc = {t->loc->pos, t->loc->line, t->loc->column}; }
                toks.push_back({{"k", hstd::fmt1(t.kind)}, {"t", vh::bytes(t->text)}, {"l", loc}});
            }
        } catch (std::exception const& e) { return {{"v", "err"}, {"toks", toks}, {"what", std::string(e.what()).substr(0, 200)}}; }
        return {{"v", "ok"}, {"toks", toks}};
    }
};
VH_MAIN(S)
