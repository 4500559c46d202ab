// Source registry.
#include "vh.hpp"
#include <haxorg/lexbase/SourceManager.hpp>
using vh::json;
using namespace org::parse;
struct S {
    SourceManager             m;
    std::vector<SourceFileId> ids;
    SourceFileId id(int n) {
        if (0 < n && n <= (int)ids.size()) { return ids[n - 1]; }
        return n == 0 ? SourceFileId::Nil() : SourceFileId{(hstd::u32)(n - 1)};
    }
    json run(json const& o) {
        std::string k = o["op"];
        if (k == "add") {
            auto r = m.addSource(o["p"], o["t"]);
            for (int i = 0; i < (int)ids.size(); ++i) {
                if (ids[i] == r) { return i + 1; }
            }
            ids.push_back(r);
            return ids.size();
        }
        if (k == "id") {
            auto r = m.getId(o["p"]);
            for (int i = 0; i < (int)ids.size(); ++i) {
                if (ids[i] == r) { return i + 1; }
            }
            return -1;
        }
        if (k == "text") { return m.getContentTextForPath(o["p"]); }
        if (k == "path") { return m.getPath(id(o["n"])); }
        if (k == "content") { return m.getSourceContent(id(o["n"])); }
        return "?";
    }
    json op(json const& o) {
        json v;
        try {
            v = run(o);
        } catch (std::exception const&) { v = "err"; }
        json all = json::array();
        for (auto const& x : ids) { all.push_back(json::array({m.getPath(x), m.getSourceContent(x)})); }
        return {{"v", v}, {"all", all}};
    }
};
VH_MAIN(S)
