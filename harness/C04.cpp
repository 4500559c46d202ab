// Range index point queries and sequence segmentation.
#include "vh.hpp"
#include <hstd/stdlib/RangeTree.hpp>
#include <hstd/stdlib/RangeSegmentation.hpp>
using vh::json;
using namespace hstd;

struct S {
    json                      cfg;
    std::unique_ptr<RangeTree<int>> tree;
    Vec<SequenceSegmentGroup> groups;
    void start(json const& sc) {
        cfg = sc["cfg"];
        if (cfg.contains("rs")) {
            Vec<Slice<int>> v;
            for (auto const& r : cfg["rs"]) { v.push_back(slice(r[0].get<int>(), r[1].get<int>())); }
            tree = std::make_unique<RangeTree<int>>(v);
        }
        if (cfg.contains("gs")) {
            for (auto const& g : cfg["gs"]) {
                SequenceSegmentGroup o;
                o.kind = g["kind"];
                for (auto const& s : g["segs"]) { o.segments.push_back(SequenceSegment{.kind = s[0], .first = s[1], .last = s[2]}); }
                groups.push_back(o);
            }
        }
    }
    json op(json const& o) {
        json v = json::array();
        if (o["op"] == "point") {
            for (auto const& r : tree->getRanges(o["p"].get<int>())) { v.push_back({r.index, r.range.first, r.range.last}); }
        } else {
            for (auto const& a : annotateSequence(groups, o["first"], o["last"])) {
                json tags = json::array(), has = json::array();
                for (auto const& t : a.annotations) { tags.push_back({t.groupKind, std::vector<int>(t.segmentKinds.begin(), t.segmentKinds.end())}); }
                for (auto const& g : cfg["gs"]) {
                    json row = json::array();
                    for (int k = 7; k < 10; ++k) { row.push_back(a.isAnnotatedWith(g["kind"], k)); }
                    has.push_back(row);
                }
                v.push_back(json{{"f", a.first}, {"l", a.last}, {"tags", tags}, {"has", has}});
            }
        }
        return json{{"v", v}};
    }
};
VH_MAIN(S)
