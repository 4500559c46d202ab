#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os, re

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert re.match(r"^[A-Z][0-9]{2,3}$", id) and len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


H = "src/hstd/"
# ---------------------------------------------------------------- Org documents
prop("O01", "Base tokenization covers the document text exactly once, in order",
     """For every input text that the base tokenizer accepts, the tokens it produces, read in order, spell
     the input back byte for byte: no character is lost, duplicated, reordered or attributed to the wrong
     place. Tokenization always terminates, and a text it does not accept ends in a reported error, never in
     a crash, a hang or a read outside the text.""",
     ["inputs"], "every byte string (every nesting and truncation of org constructs)",
     "Tests tokenize a fixed corpus of a few hundred well formed snippets; losslessness and termination on "
     "truncated or malformed text is a statement about all strings.",
     ["src/haxorg/base_lexer/base_token_tokenize.cpp", "src/haxorg/lexbase/Token.hpp"],
     [("cursor/advance guards and token emission", "src/haxorg/base_lexer/base_token_tokenize.cpp")],
     [("cursor position", "first byte not covered by an emitted token", "base_token_tokenize.cpp")],
     ["token list returned by tokenize()"])
prop("O02", "Structural tokenization is lossless, balanced and terminates",
     """Turning the base tokens into structural tokens keeps every piece of source text, in its original order,
     and only adds markers. Every group-opening marker (line, stmt list, list item, subtree, paragraph, ...) is closed by its
     matching closing marker in properly nested order, for every input, including truncated ones.""",
     ["inputs"], "every token sequence produced for any input text",
     "Corpus tests compare token dumps of fixed documents; nesting and losslessness must hold for all of them.",
     ["src/haxorg/parse/OrgTokenizer.cpp"],
     [("indent/line grouping", "src/haxorg/parse/OrgTokenizer.cpp")])
prop("O03", "The parse tree covers the token stream in order, whatever the document",
     """Parsing any tokenized document yields one tree whose node extents nest properly and whose token leaves
     appear in source order, no token twice and no token that carries text left out. A well-formed document gives the
     nesting its syntax describes (subtrees by level, lists by indentation, markup inside paragraphs), and malformed
     input ends in error nodes or a reported error, never in a crash or an endless loop.""",
     ["inputs"], "every document",
     "Tests parse a fixed corpus; well-formedness over arbitrary documents needs a model of a valid tree.",
     ["src/haxorg/parse/OrgParser.cpp", "src/haxorg/parse/OrgParser.hpp", "src/haxorg/lexbase/NodeStore.hpp"],
     [("start/end tree bracketing", "src/haxorg/parse/OrgParser.cpp")])
prop("O04", "Flat node storage answers structural queries like the tree that was built",
     """After any legal sequence of opening nodes, adding leaves, closing nodes and rolling back the tail, the
     flat storage reports for every node exactly the subnode list, subnode count, n-th subnode, extent and
     parent of the tree described by that sequence.""",
     ["histories"], "every sequence of tree building operations",
     "Tests only see trees produced by the parser for the corpus and never check extents or parents of all nodes.",
     ["src/haxorg/lexbase/Node.hpp", "src/haxorg/lexbase/Node.cpp"],
     [("extent bookkeeping", "src/haxorg/lexbase/Node.hpp startTree/endTree/token")],
     [("pendingTrees", "stack of open nodes", "Node.hpp")])
prop("O05", "Token cursors read the stream in order, without skipping or overrunning",
     """A token cursor (over a whole token group or over a selected sub-sequence of tokens) behaves like an index
     into that sequence: look-ahead never moves it, advancing moves it by exactly the
     requested amount and stops at the end, positional tests inspect the token at the cursor, and position restore returns
     to the saved place. Look-ups past either end report absence or a raised error instead of reading unrelated memory.""",
     ["histories"], "every sequence of cursor operations on every token sequence",
     "The parser uses cursors only along the paths the corpus takes.",
     ["src/haxorg/lexbase/Lexer.hpp", "src/haxorg/lexbase/Token.hpp", "src/haxorg/lexbase/TokenStore.hpp"],
     [("LexerCommon/SubLexer position arithmetic", "src/haxorg/lexbase/Lexer.hpp")],
     [("pos", "current token", "Lexer.hpp")])
prop("O06", "Formatting a parsed document is stable and keeps its content",
     """Formatting a parsed document back to text and parsing that text again yields a document with the same
     structure and content (comments aside), and formatting again changes nothing but blank lines. This holds for every document
     built from the supported elements (subtrees, paragraphs, markup, lists, tables, blocks, properties, timestamps, links, tags).""",
     ["inputs"], "every document assembled from the supported elements",
     "Round trip tests use a fixed corpus; element combinations and nestings are unbounded.",
     ["src/haxorg/sem/SemOrgFormat.cpp", "src/haxorg/sem/SemConvert.cpp"],
     [("formatter", "src/haxorg/sem/SemOrgFormat.cpp"), ("converter", "src/haxorg/sem/SemConvert.cpp")])
prop("O07", "Immutable AST: persistence, content identity and faithful conversion",
     """Converting a document to the immutable representation and back reproduces the document. Structurally equal
     nodes get the same identifier and different nodes never share one, adding documents or
     editing never changes what any previously obtained node or document version contains, an edit changes the new
     version at the edited place only, and recorded parents and paths lead to the nodes they are recorded for.""",
     ["histories", "inputs"], "every document and every sequence of additions and edits to one store",
     "Tests perform single conversions or edits on fixed documents; persistence is about all later histories.",
     ["src/haxorg/imm/ImmOrg.cpp", "src/haxorg/imm/ImmOrgStore.cpp", "src/haxorg/imm/ImmOrgEdit.cpp",
      "src/haxorg/imm/ImmOrgHash.cpp", "src/hstd/stdlib/dod_base_intern.hpp"],
     [("interning store", "src/hstd/stdlib/dod_base_intern.hpp"), ("parent tracking", "src/haxorg/imm/ImmOrg.cpp")])
prop("O08", "Source registry gives each path one stable identity and its own content",
     """Registering a source under a path returns an identifier that always maps back to that path and that
     content; registering the same path with the same content again returns the same identifier, and with
     different content is rejected without disturbing existing entries. Distinct paths never share an
     identifier, and looking up an unknown path or identifier is reported as an error.""",
     ["histories"], "every sequence of registrations and look-ups",
     "Tests register one or two sources.",
     ["src/haxorg/lexbase/SourceManager.hpp", "src/haxorg/lexbase/SourceManager.cpp"],
     [("path and id maps", "src/haxorg/lexbase/SourceManager.cpp")])
prop("O09", "Directory import visits every reachable document exactly once and terminates",
     """Importing a directory tree parses every file the filters accept that is reachable from the root through
     directories, include directives and followed symbolic links, exactly once, and nothing else, and
     terminates for every tree including symlink and include cycles. The resulting document tree mirrors the directory nesting.""",
     ["inputs", "configurations"], "every directory graph, include graph and filter configuration",
     "Tests import a handful of fixed small trees.",
     ["src/haxorg/api/ParseContext.cpp", "src/haxorg/api/ParseContext.hpp"],
     [("visited path set", "src/haxorg/api/ParseContext.cpp parsePathAux")],
     [("visited", "absolute paths already imported", "ParseContext.cpp")])
# ---------------------------------------------------------------- hstd core
prop("V01", "Tagged variants report, retrieve and dispatch on their true alternative",
     """A tagged variant always reports the kind of the object it was constructed or assigned from; retrieval
     succeeds for exactly that alternative and otherwise signals failure without touching the object, and
     visiting calls the visitor exactly once with the held object viewed as its own alternative. Copies
     refer to the same object, assignment to one copy never re-targets another, and an empty variant never dispatches.""",
     ["histories", "programs"], "every set of alternatives and every sequence of construct/copy/assign/get/visit",
     "Tests cover a few fixed variants in a few states.",
     [H + "stdlib/DynVariant.hpp"], [("kind-indexed dispatch", H + "stdlib/DynVariant.hpp")],
     [("held pointer", "shared object and its kind", H + "stdlib/DynVariant.hpp")])
prop("V02", "Enumeration yields every selected element once with exact position facts",
     """Enumerating a sequence, with any number of leading and trailing elements skipped, yields exactly the
     selected elements in order, each once, with its own index, its index in the base sequence, the size and correct first/last
     marks. Neighbour access returns the true neighbour inside the selection and reports an error outside of it, and an
     over-large skip yields nothing.""",
     ["inputs"], "every sequence, skip amounts and neighbour offsets",
     "Tests use fixed short vectors with a few skip amounts.",
     [H + "stdlib/Enumerate.hpp"], [("EnumerateState/iterator arithmetic", H + "stdlib/Enumerate.hpp")])
prop("V03", "Compact JSON rendering is equivalent JSON under every layout setting",
     """Rendering any JSON value with any width, indentation and start offset gives text that parses back to
     exactly the same value, with a layout that puts a value on one line whenever it fits the width.
     Filtering by field names removes exactly the named fields, at every depth, and changes nothing else.""",
     ["inputs", "configurations"], "every JSON value and layout setting",
     "Rendering tests are fixed examples.",
     [H + "stdlib/Json.cpp", H + "stdlib/Json.hpp"], [("to_compact_json, filterFields", H + "stdlib/Json.cpp")])
prop("V04", "Scope-exit actions run exactly once; shared handles own exactly",
     """An action registered for scope exit runs exactly once when its scope ends, in reverse registration order, however the scope
     ends (fall through, early return, exception). Shared handles made from an object keep it alive until the
     last one goes, cloning makes an independent object, and a checked ownership cast transfers ownership on success and
     leaves the source untouched on failure.""",
     ["histories", "fault_sequences"], "every nesting of scopes, exits and exceptions; every sequence of handle operations",
     "Tests never enumerate nesting and exit combinations.",
     [H + "system/aux_utils.hpp", H + "stdlib/Ptrs.hpp", H + "stdlib/Func.hpp"],
     [("finally", H + "system/aux_utils.hpp"), ("SharedPtrApi", H + "stdlib/Ptrs.hpp")])
prop("V05", "Graph search adaptors deliver every search event to the right callback",
     """Running a breadth-first, depth-first, uniform-cost, best-first or relaxation search with registered
     callbacks calls, for every event of the search, exactly the callback registered for that event kind, with
     the vertex or edge concerned, in search order; kinds without a callback are ignored. The sequence of calls describes a valid search
     of the graph.""",
     ["inputs"], "every small directed graph, weights, root and set of registered callbacks",
     "No test runs these adaptors on more than one graph.",
     [H + "ext/graphwrap.hpp", H + "ext/graphwrap.cpp"], [("visitor forwarding", H + "ext/graphwrap.hpp")])
prop("V06", "Ordinal domains, bit helpers and dumps are exact over the whole domain",
     """Ordinals of values in a domain and values of ordinals are inverse to each other over the entire domain,
     stepping and ranges visit each domain value once, saturating arithmetic equals exact arithmetic clamped to the domain, and bit/byte helpers
     produce the exact masks, offsets and textual dumps of the value given.""",
     ["inputs"], "every value of every supported type (exhaustive for 8 bit types)",
     "Tests check a few literals.",
     [H + "system/basic_templates.hpp", H + "system/bit_utils.hpp", H + "system/ptr_utils.hpp",
      H + "system/string_convert.hpp", H + "system/aux_templates.hpp"],
     [("value_domain, saturating_*", H + "system/basic_templates.hpp")])
prop("V07", "Generators and checked early exits run exactly the steps asked for",
     """A generator runs its body only when asked for the first or next element, delivers the yielded values in order
     (and lets the current one be changed in place), reports its end and any failure of its body to the consumer, and releases the body's locals
     exactly once whether it ran to the end, failed, was moved or was abandoned. Early-exit helpers stop a chain of result steps at the
     first absent value with that step's error and evaluate no later step; checked pointers, casts and predicates raise an assertion error exactly when the
     checked thing is absent or false, and the error text carries message and place.""",
     ["programs", "fault_sequences"], "every generator body and consumer schedule over two generators; every chain and pattern of absence/failure",
     "No test drives a generator through failure, abandonment or moves, or a chain through all failure patterns.",
     [H + "system/generator.hpp", H + "stdlib/Outcome.hpp", H + "stdlib/Exception.hpp", H + "system/exceptions.hpp", H + "stdlib/Func.hpp"],
     [("coroutine promise and iterator", H + "system/generator.hpp"), ("early exit macros", H + "stdlib/Outcome.hpp")])
# ---------------------------------------------------------------- containers
prop("C01", "Vector, slices and end-relative indices follow sequence semantics",
     """After any sequence of insertions, removals, concatenations, slicings and element accesses, a vector holds
     exactly the elements ordinary sequence semantics prescribe; end-relative
     indices count from the end and slices are inclusive at both ends. Sequences derived from it (sorted, reversed, mapped, partitioned, windowed, concatenated) hold exactly the elements
     the operation describes; out of range access is reported as an error and never changes the vector.""",
     ["histories"], "every sequence of operations, including end-relative and empty ranges",
     "Tests check isolated calls on literals.",
     [H + "stdlib/Vec.hpp", H + "stdlib/Slice.hpp", H + "stdlib/Span.hpp", H + "stdlib/BackwardsIndex.hpp",
      H + "stdlib/ContainerAPI.hpp"],
     [("Vec indexing", H + "stdlib/Vec.hpp"), ("getSpan", H + "stdlib/ContainerAPI.hpp")])
prop("C02", "Value sets obey set algebra over the full value domain",
     """Value sets over a finite domain and ordered/hashed sets built by any mix of inclusions, exclusions,
     ranges, unions, intersections, differences and complements contain exactly the values set algebra prescribes; membership, size,
     subset tests, equality and iteration agree with the contents.""",
     ["histories"], "every expression over every domain value",
     "Tests probe a few sets.",
     [H + "stdlib/IntSet.hpp", H + "stdlib/SetCommon.hpp", H + "stdlib/Set.hpp", H + "stdlib/charsets.hpp"],
     [("bitset representation", H + "stdlib/IntSet.hpp")])
prop("C03", "Maps and two-way maps stay consistent with their operation history",
     """After any history of insertions, updates and removals a map returns exactly the last value stored for each key and
     reports absence for others; two-way maps stay one-to-one, and both directions agree.
     Look-ups never insert entries unless documented to.""",
     ["histories"], "every operation history",
     "Tests do a couple of insertions.",
     [H + "stdlib/Map.hpp", H + "ext/bimap_wrap.hpp"], [("MapBase CRTP", H + "stdlib/Map.hpp")])
prop("C04", "Range indexes and segmentation find exactly the covering ranges",
     """Querying a range index with a point returns exactly the stored ranges that contain it, each once, for every set of
     ranges including nested, touching and equal ones. Segmenting a sequence by groups of ranges gives disjoint, ordered, maximal segments that cover exactly the
     annotated positions, each naming for every group the kinds of exactly the ranges that cover it.""",
     ["inputs"], "every set of ranges and every query",
     "Tests use fixed sets.",
     [H + "stdlib/RangeTree.hpp", H + "stdlib/RangeTree.cpp", H + "stdlib/RangeSegmentation.hpp", H + "stdlib/RangeSegmentation.cpp"],
     [("interval tree", H + "stdlib/RangeTree.hpp"), ("segment sweep", H + "stdlib/RangeSegmentation.cpp")])
prop("C05", "Stores hand out stable identifiers and never lose or mix values",
     """Every identifier returned by a value store refers, for the store's whole life, to the value it was issued for; interning equal values returns
     the same identifier and different values get different ones. Identifiers of different stores combined in one multi-type store never collide, and identifier
     arithmetic and masking preserve the index.""",
     ["histories"], "every sequence of additions, interning and look-ups",
     "Tests insert a handful of values.",
     [H + "stdlib/dod_base.hpp", H + "stdlib/dod_base_intern.hpp", H + "stdlib/dod_base_multi.hpp"],
     [("Id, Store, InternStore", H + "stdlib/dod_base.hpp")])
prop("C06", "String helpers split, join, strip, replace and slice text without loss",
     """Splitting, joining, stripping, replacing, repeating, indenting, dedenting, slicing and case-insensitive comparison of text
     give exactly the characters the operation describes for every string, including empty ones and those made of separators only,
     and never read outside the text.""",
     ["inputs"], "every string and argument",
     "Tests use a few literals.",
     [H + "stdlib/strutils.hpp", H + "stdlib/strutils.cpp", H + "stdlib/Str.hpp", H + "stdlib/Str.cpp", H + "system/string_base.hpp",
      H + "system/string_base.cpp"],
     [("split/strip/join", H + "stdlib/strutils.cpp")])
prop("C07", "Sequence diffs are valid, minimal edit scripts",
     """The edit script and the aligned two-sided view computed for any two sequences turn the first exactly into the second, keep only equal pairs in
     increasing order, are as short as possible, and the longest common subsequence reported really is common and longest. Fuzzy matching
     reports a placement of the pattern in order, and printed diffs show the compared elements on their own side, completely and in order.""",
     ["inputs"], "every pair of sequences and every display setting",
     "Tests diff a few fixed pairs.",
     [H + "stdlib/diffs.hpp", H + "stdlib/diffs.cpp"], [("LCS, Levenshtein, Myers", H + "stdlib/diffs.cpp")])
prop("C08", "Tree diffs describe edits that really turn one tree into the other",
     """For every pair of trees the computed node mapping is one-to-one, relates only nodes present in the trees, and the reported inserts,
     deletes, moves and updates account for every difference: unmapped old nodes are deleted, unmapped new nodes inserted, and
     identical trees give no edits.""",
     ["inputs"], "every pair of labelled ordered trees",
     "Tests diff a few fixed trees.",
     [H + "ext/astdiff/astdiff.hpp", H + "ext/astdiff/astdiff.cpp"], [("matching and edit script", H + "ext/astdiff/astdiff.cpp")])
prop("C09", "Text layout keeps all content and respects the combinators used",
     """Laying out any block expression prints every text fragment exactly once in order; side-by-side blocks stay on a line,
     stacked blocks start new lines with the right indentation, a choice picks one of its alternatives, and the choice made is one that
     fits the right margin whenever some alternative fits.""",
     ["inputs"], "every layout expression and margin",
     "Tests lay out a few expressions.",
     [H + "ext/textlayouter.hpp", H + "ext/textlayouter.cpp"], [("optimal layout search", H + "ext/textlayouter.cpp")])
# ---------------------------------------------------------------- graph
prop("G01", "Graph adjacency, edge and port queries agree after any edit history",
     """After any history of adding and removing vertices and edges, the graph's vertex list, edge list, incoming and outgoing edges of every
     vertex, and identity look-ups describe the same set of vertices and edges; removing one edge or vertex removes exactly it
     and the edges that depend on it, and identifiers are never reused for a different live item.""",
     ["histories"], "every history of additions and removals of vertices, edges, ports and attributes, with parallel edges, self loops and several edge collections",
     "No test removes from a graph with parallel edges.",
     [H + "ext/graph/base/graph_base.hpp", H + "ext/graph/base/graph_base.cpp"],
     [("trackers", H + "ext/graph/base")])
prop("G02", "Vertex hierarchies stay forests and answer ancestry queries exactly",
     """After any history of nesting and un-nesting vertices every vertex has at most one parent per hierarchy, parent, child and
     ancestor-chain queries agree with each other, and removing a vertex leaves no dangling reference to it. The groups an edge crosses
     are exactly those around its source and around its target that do not enclose both.""",
     ["histories"], "every history of hierarchy edits",
     "Tests build a couple of fixed hierarchies.",
     [H + "ext/graph/base/graph_base.hpp", H + "ext/graph/base/graph_base.cpp"], [("hierarchy edge tracker", H + "ext/graph/base")])
# ---------------------------------------------------------------- logging
prop("L01", "Log records reach exactly the active, accepting sinks; scopes restore sinks",
     """Every emitted record is delivered once to each active sink whose filter accepts it, in emission order, with
     the message, severity, category and nesting depth it was emitted with; a record no
     filter accepts goes nowhere. Leaving a sink scope, normally or by exception, restores exactly the sinks that were
     active when it was entered.""",
     ["histories"], "every interleaving of scope entry/exit, sink and filter changes, and emissions",
     "Tests use one sink at a time.",
     [H + "ext/logger.hpp", H + "ext/logger.cpp"], [("sink list save/restore", H + "ext/logger.cpp")])
prop("L02", "Call-graph tracking delivers balanced, complete notifications",
     """While tracing is on every started, ended, named and connected item is announced to every registered
     processor once and in registration order; while it is off nothing is announced, and starting twice or
     ending without a start is rejected. Scoped tracking announces the matching end, innermost first, however the scope is left, as long as tracing is still on.""",
     ["histories", "fault_sequences"], "every history of tracing calls, processor registrations and exceptional exits",
     "Tests run one linear history.",
     [H + "ext/log_graph_tracker.hpp", H + "ext/log_graph_tracker.cpp"], [("trace state and processor list", H + "ext/log_graph_tracker.hpp")])
# ---------------------------------------------------------------- scripts
prop("S01", "The task runner executes needed tasks once, in dependency order",
     """Running a target executes its transitive dependencies before it, each at most once per configuration and session,
     and nothing else. A task with declared files that was not executed in this session yet is left alone exactly when its outputs and stamp
     exist, none of them is older than an input and the content of the stamp is the current one. A task that failed leaves no
     completion record, stops the run, and is executed again by a later one.""",
     ["histories", "crash_points", "configurations"], "every task graph, file change history and failure point",
     "Nothing tests the runner across runs with failures in between.",
     ["scripts/py_repository/py_repository/repo_tasks/workflow_utils.py", "scripts/py_scriptutils/py_scriptutils/files.py"],
     [("run cache and stamps", "scripts/py_repository/py_repository/repo_tasks/workflow_utils.py TaskContext.run"),
      ("staleness rule", "scripts/py_scriptutils/py_scriptutils/files.py FileOperation")],
     [("run_cache", "tasks completed in this run", "workflow_utils.py"), ("stamp files", "completion record", "files.py")])
prop("S02", "The trace collector records every scoped event once under any threading",
     """Whatever the interleaving of threads opening and closing nested trace scopes, including scopes left by
     an exception, every opened event is recorded exactly once when closed, attributed to its own thread, with children
     recorded before their parent and with a non-negative duration. Exported traces contain exactly the recorded events.""",
     ["schedules", "fault_sequences"], "every interleaving of threads and every exceptional exit",
     "Single threaded tests cannot reach interleavings.",
     ["scripts/py_scriptutils/py_scriptutils/tracer.py"], [("per thread stacks and lock", "tracer.py TraceCollector")])
prop("S03", "The commit message gate accepts exactly the well formed messages",
     """A commit message is accepted exactly when its subject has an allowed type, an allowed optional scope and a
     summary within the length limit, followed by a blank line and a body whose lines respect the limit
     outside of fenced code; merge messages are always accepted. A rejected message that is not empty is preserved byte for byte next to the
     original.""",
     ["inputs"], "every message text",
     "The hook has no tests.",
     ["scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py"],
     [("main", "scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py")])
prop("S04", "Script sequence and tree helpers are exact for every input",
     """Trimming, partitioning, searching, uniqueness and walking helpers return exactly the elements their description selects, in order;
     the object walker visits every reachable object, expands each one once and terminates on cyclic data with its context stack restored.""",
     ["inputs"], "every list, predicate and object graph",
     "The helpers have few tests with literal inputs.",
     ["scripts/py_scriptutils/py_scriptutils/algorithm.py"], [("helpers", "algorithm.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
