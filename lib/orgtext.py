"""Org texts beyond the ones the specifications enumerate, for the checks of the tokenizers and the parser."""
import glob, os, vbuild

FRAG = ["*", "**", "* ", "** ", " ", "  ", "\n", "\n\n", "\n \n\n", "a", "h", "ht", "http", "s", "S", "src", "D", "C", "1", "12", "-", "--", "-----", "- ", "+ ", "+", "++", "| ", "|", "|--+--|", "|-", ":", "::", "#", "##", "# c",
        "[", "]", "[[", "]]", "][", "<", "<<", "<<<", ">", ">>", ">>>", "{", "}", "=", "==}", "=>", "~", "~>", "~~}", "/", "_", "\\", "\\\\", "\\a", "\\{", "@", "@a", "@@", "@@html:<b>@@", ".", ",", "'", '"', "%", "%%", "$", "^", "&", "!", ";", "`", "(", ")",
        "{++", "++}", "{--", "--}", "{==", "{~~", "{>>", "<<}", "\t", "\r", "\x00", "é", "–", "\U0001f600", "#+begin_src c :x y", "#+end_src", "#+BEGIN_EXAMPLE", "#+end_example", "#+begin_export html", "#+end_export", "#+begin_quote", "#+end_quote",
        "#+begin_table", "#+begin: x", "#+end", "#+title: x y", "#+filetags: :a:b:", "#+tblfm: $1", "#+attr_html: :w \"a b\" (c=d,e)", "#+property: header-args :x y", "#+property: created [2024-01-02]", "#+property: foo", "#+property:\n", "#+include: \"a\" :l",
        "#+latex_class: x", "#+name: q", "#+call: f(x=1)", "#+unknown: z", "#+", "#+results:", ":properties:", ":end:", ":PROPERTIES:", ":logbook:", ":id: 1", ":description: a *b*", ":created: x", ":hashtag_def: #x", ":header-args: :k v :", ":header-args:c: =", ":prop-args:x",
        ": lit", ":a:b: c", "clock: ", "CLOCK: [2024-01-02 Tue 10:20]--[2024-01-02 Tue 11:30] =>  1:10", "SCHEDULED: ", "DEADLINE:", "CLOSED:", "<2024-01-02 Tue 10:20 +1d>", "[2024-01-02]", "10:20", "10:20pm", "9:05am", "10:20:30", "2024-01-02", "+1d", ".+2w3", "++1m2d",
        "-3d", "-1", "12_3", "1_a", "1__2", "12a", "2147483647a", "2147483648a", "00000000001b", "[1/2]", "[50%]", "[x]", "[ ]", "[-]", "[#A]", "[fn:a]", "[fn::b]", "[fn:]", "[FN:x]", "[%%", "<%%", "<tag>", "<a b>", "[[file:a.org]]", "[[id:x][y]]", "[[http://x y][z]]",
        "[[attachment:q]]", "[[*t]]", "[[#c]]", "[[./f]]", "[[/f]]", "[[w]]", "[[mail:x]]", "[[idea:", "[[file:", "[[https", "[[a\nb]]", "http://a.b]c", "src_c{x}", "src_c[:a]{x{y}\\}}", "srcfoo bar", "src_", "x-y_z", "it's", "~a~", " ~a\nb~ ", " ~a\n\n~", " ~~ ", " ~x~y~.",
        "1. ", "2) ", "1.", "#tag", "#tag##[a,b]", "\\alpha", "\\-x"]


NAMES = ("columns tblfm options tags drawers category priorities html_head latex_header_extra title author filetags caption date link description language creator name email macro bind "
         "exclude_tags select_tags keywords setupfile startup seq_todo constants results include header call row cell latex_class latex_header attr_img property zzz").split()
BLOCKS = "quote cell center verse comment row table export example src zzz".split()
ARGS = ["", " ", " x", " :a b", " \"q w\"", " x y ", " (a=1)", " [2024-01-02]", " *b* /i/"]
REST = ["", "\n", "\n a", "\n\n", "\n \n", "\na", "\n  #+end", " \n", "\n* t", "\n- i"]


def commands(c):
    """Every command and block name with its arguments and whatever follows."""
    r = c.rng
    full = c.tier != "quick"
    res = []
    def case(w):
        return r.choice([w, w, w.upper(), w.replace("_", ""), w.capitalize()])
    for n in NAMES:
        for a in ARGS:
            for e in REST if full else r.sample(REST, 2):
                res.append(r.choice(["", "", " ", "- ", "a\n"]) + "#+" + case(n) + r.choice([":", ":", ""]) + a + e)
    for b in BLOCKS:
        for u in ("_", "", "-") if full else ("_",):
            for a in ARGS if full else r.sample(ARGS, 4):
                for e in REST:
                    t = r.choice(["", "  ", "- ", "* "]) + "#+" + case("begin") + u + b + r.choice(["", "", ":"]) + a + e
                    res.append(t)
                    res.append(t + r.choice(["x", "  x", "<<y>>", "", "*z*"]) + r.choice(["\n", "\n  ", ""]) + "#+" + case("end") + u + r.choice([b, b, b, "quote"]) + r.choice(REST))
    return [list(x.encode()) for x in res]


def enc(s):
    return list(s.encode("utf-8")) if isinstance(s, str) else list(s)


def texts(c, n):
    """Fragments of org syntax in any order, cut anywhere."""
    r = c.rng
    res = []
    for _ in range(n):
        s = b"".join(x.encode() for x in (r.choice(FRAG) + r.choice(["", "", " ", "\n"]) for _ in range(r.choice([1, 2, 3, 5, 8, 12]))))
        if r.random() < .25:
            s = s[: r.randint(0, len(s))]                       # cut anywhere
        if r.random() < .1 and s:
            k = r.randrange(len(s))
            s = s[:k] + bytes([r.randrange(256)]) + s[k + 1:]
        res.append(list(s))
    for k in range(256):
        res += [[k], [32, k], [k, k, k, k], [97, k, 97], [10, k, 10]]
    res += commands(c)
    corpus = sorted(glob.glob(os.path.join(vbuild.REPO, "tests/org/corpus/**/*.org"), recursive=True))
    for f in corpus[: c.pick(12, 200)]:
        data = open(f, "rb").read()
        for k in range(0, min(len(data), c.pick(900, 20000)), 300):
            res.append(list(data[k:k + 300]))
    return res


LINE = ["- a", "- ", "-", "+ b", "1. c", "2) d", "- [ ] e", "- x :: y", "clock: [2024-01-02 Tue]", "a", "a b", "*b* /i/ =v= ~m~ +s+ _u_", "* t", "** TODO t :x:", "*** [#A] t", ":properties:", ":id: 1", ":end:", ":logbook:",
        ":description: a *b*", ":header-args: :x y", "| a | b |", "|-+-|", "#+title: a", "#+attr_html: :w \"a b\"", "#+property: description u", "#+filetags: :a:b:", "#+name: q", "#+call: f(x=1)", "# note", "#tag", ": lit", "-----",
        "[fn:1] x", "\\alpha \\{", "@user", "<p>", "src_c{x}", "[[file:a][b]]", "<2024-01-02 Tue>--<2024-01-03>", "SCHEDULED: <2024-01-02>", "@@html:x@@", "{++a++}", "=a", "b=", "~ x", "<<t>>", "<<<r>>>", "<<#+end_src", "x >>#+end_src", "srcs", "src_c x", "src_c[:x]{y}", "$x$", "a_b", "A_B", "é ü"]
OPEN = ["src c", "src", "example", "quote", "export html", "center", "verse", "comment", "table", "row", "cell", "zzz", "src c :x y"]
BREAK = ["\n"] * 9 + ["\n\n", "\n\n\n", "\n \n", "\n\n\n\n"]


def documents(c, n):
    """Documents made of whole lines: lists of any indentation, blocks closed or not, text in between."""
    r = c.rng
    res = []
    for _ in range(n):
        out, opened = "", []
        kinds = r.choice(["list", "list", "block", "any"])
        for _ in range(r.choice([2, 3, 4, 6, 9])):
            ind = " " * r.choice([0, 0, 0, 1, 2, 2, 3, 4, 6])
            x = r.random()
            if kinds == "list" and x < .6:
                line = r.choice(LINE[:9])
            elif kinds != "list" and x < .25:
                b = r.choice(OPEN)
                opened.append(b.split()[0])
                line = "#+begin_" + b
            elif kinds != "list" and x < .45 and opened:
                line = "#+end_" + opened.pop()
            else:
                line = r.choice(LINE)
            out += ind + line + r.choice(BREAK)
        if r.random() < .3:
            out = out[: r.randint(0, len(out))]
        res.append(enc(out))
    return res
