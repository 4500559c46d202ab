// Directory trees imported: every scenario builds its own tree of files in a scratch
// directory, imports it and reports what was found, then removes the directory.
#include "vh.hpp"
#include <filesystem>
#include <fstream>
#include <haxorg/api/ParseContext.hpp>
#include <haxorg/sem/SemOrg.hpp>
using vh::json;
using namespace org::parse;
using namespace org::sem;
namespace fs = std::filesystem;

struct S {
    fs::path top;
    S() {
        std::string t = (fs::temp_directory_path() / "o09-XXXXXX").native();
        top           = fs::canonical(mkdtemp(t.data()));
    }
    ~S() {
        fs::current_path("/");
        if (top.filename().native().starts_with("o09-")) { fs::remove_all(top); }
    }
    static std::string join(json const& p) {
        std::string r;
        for (auto const& x : p) { r += (r.empty() ? "" : "/") + x.get<std::string>(); }
        return r;
    }
    std::string where(json const& t) { return t["abs"].get<bool>() ? (top / join(t["to"])).native() : join(t["to"]); }
    json names(fs::path const& p) {
        json r = json::array();
        for (auto const& x : p) { r.push_back(x.native()); }
        return r;
    }
    // the place itself, with the directory it lies in resolved
    json place(std::string const& p) {
        std::error_code ec;
        fs::path        q = fs::path(p).filename().empty() || fs::path(p).filename() == "." || fs::path(p).filename() == ".." ? fs::weakly_canonical(p, ec) : fs::weakly_canonical(fs::path(p).parent_path(), ec) / fs::path(p).filename();
        return q == top ? json::array() : names(q.lexically_relative(top));
    }
    json out;
    void put(int d, std::string const& k, json const& p, json const& rel, std::string const& t) { out.push_back({{"d", d}, {"k", k}, {"p", p}, {"rel", rel}, {"t", t}}); }
    void node(SemId<Org> const& n, int d) {
        json none = json::array();
        if (auto f = n.asOpt<File>()) {
            put(d, "File", place(f->absPath), names(std::string(f->relPath)), "");
        } else if (auto f = n.asOpt<Directory>()) {
            put(d, "Dir", place(f->absPath), names(std::string(f->relPath)), "");
        } else if (auto f = n.asOpt<Symlink>()) {
            std::error_code ec;
            auto to = fs::weakly_canonical(std::string(f->absPath), ec);
            put(d, f->isDirectory ? "DirLink" : "FileLink", to == top ? none : names(to.lexically_relative(top)), none, "");
        } else if (auto f = n.asOpt<CmdInclude>()) {
            put(d, "Include", none, none, "");
        } else if (auto f = n.asOpt<Link>()) {
            put(d, "Link", none, none, "");
        } else if (n->is(OrgSemKind::ErrorItem) || n->is(OrgSemKind::ErrorGroup)) {
            put(d, "Error", none, none, "");
        } else if (auto f = n.asOpt<Word>()) {
            put(d, "Word", none, none, f->text);
        } else if (auto f = n.asOpt<BlockCode>()) {
            std::string t;
            for (auto const& l : f->lines) {
                for (auto const& p : l.parts) { t += p.isRaw() ? std::string(p.getRaw().code) : "?"; }
                t += ";";
            }
            put(d, "Code", none, none, t);
            return;
        } else if (auto f = n.asOpt<BlockExample>()) {
            std::string t;
            for (auto const& l : f->subnodes) { t += std::string(l.as<RawText>()->text) + ";"; }
            put(d, "Example", none, none, t);
            return;
        } else if (auto f = n.asOpt<BlockExport>()) {
            std::string t(f->content);
            for (auto& c : t) {
                if (c == '\n') { c = ';'; }
            }
            put(d, "Export", none, none, t + ";");
            return;
        } else {
            d -= 1;
        }
        for (auto const& s : n->subnodes) { node(s, d + 1); }
    }
    json op(json const& o) {
        std::vector<std::pair<fs::path, std::string>> links;
        for (auto const& e : o["fs"]) {
            fs::path p = top / join(e["p"]);
            if (e["k"] == "dir") {
                fs::create_directories(p);
            } else if (e["k"] == "link") {
                fs::create_symlink(where(e["to"]), p);
            } else {
                std::ofstream f(p);
                f << e["t"].get<std::string>() << "\n";
                for (auto const& i : e["inc"]) {
                    std::string k = i["k"], w = where(i["to"]);
                    f << "\n" << (k == "link" ? "[[file:" + w + "]]" : "#+include: " + w + (k == "org" ? "" : k == "src" ? " src cpp" : k == "export" ? " export html" : " " + k)) << "\n";
                }
            }
        }
        auto opts = OrgDirectoryParseParameters::shared();
        if (o["sorted"]) {
            opts->getDirectoryEntriesImpl = [](std::string const& p) {
                std::vector<std::string> r;
                for (auto const& e : fs::directory_iterator(p)) { r.push_back(e.path().native()); }
                std::sort(r.begin(), r.end());
                return r;
            };
        }
        if (!o["skip"].empty()) {
            opts->shouldProcessPath = [&](std::string const& p) { return std::find(o["skip"].begin(), o["skip"].end(), place(p)) == o["skip"].end(); };
        }
        if (!o["find"].empty()) {
            opts->findIncludeTarget = [&](std::string const& p) -> hstd::Opt<std::string> {
                auto q = top / join(o["find"]) / p;
                std::error_code ec;
                if (fs::exists(q, ec)) { return q.native(); }
                return std::nullopt;
            };
        }
        fs::current_path(top);
        auto        ctx   = std::make_shared<ParseContext>();
        std::string start = o["rel"].get<bool>() ? join(o["start"]) : (top / join(o["start"])).native();
        out               = json::array();
        try {
            if (o["how"] == "dir") {
                auto r = o["plain"].get<bool>() ? ctx->parseDirectory(start) : ctx->parseDirectoryOpts(start, opts);
                if (r) { node(r.value(), 0); }
            } else {
                node(ctx->parseFileWithIncludes(start, opts).asOrg(), 0);
            }
        } catch (std::exception const& e) { return {{"v", "err"}, {"what", std::string(e.what()).substr(0, 200)}, {"out", out}}; }
        return {{"v", "ok"}, {"what", ""}, {"out", out}};
    }
};
VH_MAIN(S)
