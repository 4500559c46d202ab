// Text layout: blocks built on a stack, then printed.
#include "vh.hpp"
#include <hstd/ext/textlayouter.hpp>
using vh::json;
using namespace hstd;
using namespace hstd::layout;

struct S {
    BlockStore           b;
    SimpleStringStore    s{&b};
    std::vector<BlockId> q;

    void         start(json const&) {}
    Vec<BlockId> last(int n) {
        Vec<BlockId> r;
        for (size_t k = q.size() - n; k < q.size(); ++k) { r.push_back(q[k]); }
        return r;
    }
    bool below(BlockId const& id, BlockId const& root) {
        if (id == root) { return true; }
        auto  over = [&](auto const& sub) {
            for (auto const& it : sub) {
                if (below(id, it)) { return true; }
            }
            return false;
        };
        auto& x = b.at(root);
        return x.isLine() ? over(x.getLine().elements) : x.isStack() ? over(x.getStack().elements)
             : x.isChoice() ? over(x.getChoice().elements) : x.isWrap() ? over(x.getWrap().wrapElements) : false;
    }
    void put(int n, BlockId id) {
        q.resize(q.size() - n, BlockId::Nil());
        q.push_back(id);
    }
    json out;
    void act(json const& o) {
        std::string k = o["op"];
        int         n = o.value("k", 0);
        if (k == "text") {
            put(0, s.text(o["s"].get<std::string>()));
        } else if (k == "space") {
            put(0, b.space(o["n"]));
        } else if (k == "empty") {
            put(0, b.empty());
        } else if (k == "verb") {
            Block::Verb v;
            v.firstNl = o["nl"];
            for (auto const& t : o["t"]) { v.textLines.push_back(LytStrSpan(s.str(t.get<std::string>()))); }
            put(0, b.store.add(Block(v)));
        } else if (k == "dup") {
            q.push_back(q.back());
        } else if (k == "line") {
            put(n, b.line(last(n)));
        } else if (k == "stack") {
            put(n, b.stack(last(n)));
        } else if (k == "choice") {
            put(n, b.choice(last(n)));
        } else if (k == "wrap") {
            put(n, b.wrap(last(n), s.str(o["s"].get<std::string>() + std::string(o["z"].get<int>(), ' ')), o["m"]));
        } else if (k == "mult") {
            b.at(q.back()).breakMult = o["m"];
        } else if (k == "breaking") {
            b.at(q.back()).isBreaking = true;
        } else if (k == "indent") {
            put(1, b.indent(o["n"], q.back()));
        } else if (k == "add") {
            auto into = q[q.size() - 2];
            if (below(into, q.back())) { throw std::range_error("cycle"); }
            b.add_at(into, q.back());
            q.pop_back();
        } else if (k == "vertical" || k == "horizontal" || k == "join") {
            auto items = last(n + 1);
            auto sep   = items.back();
            items.pop_back();
            put(n + 1, k == "vertical" ? b.vertical(items, sep) : k == "horizontal" ? b.horizontal(items, sep) : b.join(items, sep, o["hor"].get<bool>(), o["trail"].get<bool>()));
        } else if (k == "print") {
            Options p;
            p.leftMargin      = o["left"];
            p.rightMargin     = o["right"];
            p.linebreakCost   = o["lb"];
            p.rightMarginCost = o["rmc"].get<int>();
            std::string text = s.toString(q.back(), p), line;
            out              = json::array();
            for (char ch : text + "\n") {
                if (ch == '\n') {
                    out.push_back(line);
                    line.clear();
                } else {
                    line += ch;
                }
            }
        }
    }
    json op(json const& o) {
        json r;
        out = json::array();
        try {
            act(o);
            r["res"] = "ok";
        } catch (std::exception const& e) {
            r["res"]  = "err";
            r["what"] = std::string(e.what()).substr(0, 60);
        }
        r["out"] = out;
        return r;
    }
};
VH_MAIN(S)
