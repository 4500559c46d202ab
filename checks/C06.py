import vbuild

UTF = [bytes([c]) for c in (0, 9, 10, 32, 44, 65, 97, 98, 127)] + [x.encode() for x in "éß©λ→␤𝔄𐍈￿ࠀ퟿"] + [
    b"\xc0\x80", b"\xc2", b"\xe0\x9f\x80", b"\xe0\xa0", b"\xed\xa0\x80", b"\xef\xbf\xbf", b"\xf0\x8f\x80\x80", b"\xf0\x90\x80\x80", b"\xf4\x90\x80\x80",
    b"\xf4\x8f\xbf\xbf", b"\xf5", b"\xf8\x88", b"\xfc", b"\xfe", b"\xff", b"\x80", b"\xbf", b"\xc1\xbf", b"\xdf\xbf", b"\xf1\x80\x80\x80", b"\xc2\x41"]


def run(c):
    A = "{97, 98, 44, 10}"
    K = dict(MaxLen=c.pick(3, 5), Alpha=A, EmitMode='"none"')
    c.model_check("StrOpsMC", c.cfg(constants=K, invariants=["Lossless", "Bound", "Filled"]), timeout=800)
    # the deeper texts over a smaller alphabet
    ex = c.generate("StrOpsMC", c.cfg(constants=dict(MaxLen=c.pick(4, 6), Alpha="{97, 44}", EmitMode='"all"')), limit=c.pick(9000, 60000), timeout=800)
    ex += c.generate("StrOpsMC", c.cfg(constants=dict(MaxLen=3, Alpha=A, EmitMode='"all"')), limit=c.pick(6000, 40000), timeout=800)
    exe = vbuild.build("C06", ["C06.cpp"], sources=["hstd/system/basic_templates.cpp", "hstd/system/string_base.cpp", "hstd/stdlib/strutils.cpp", "hstd/stdlib/Str.cpp"],
                       libs=["-lfmt"])
    r = c.rng
    ops = [b[0] for b in ex]

    def raw(n, src=UTF):
        return list(b"".join(r.choice(src) for _ in range(n)))

    def word():
        return [r.choice([97, 98, 99, 122, 65]) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 7, 12]))]
    for b in range(256):
        ops += [dict(op=k, s=[b]) for k in ("utf8", "runelen", "runes", "vis", "normal", "escl")]
        ops.append(dict(op="ieq", s=[97, b], f=[65, b ^ 32]))
        ops.append(dict(op="split", s=[97, b, b, 98, b], c=b))
        ops.append(dict(op="strip", s=[b, b, 97, b], l=[b], t=[b]))
        ops.append(dict(op="escw", s=[b, 97], q=bool(b % 2)))
        for b2 in (0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0):
            ops.append(dict(op="utf8", s=[b, b2]))
            ops.append(dict(op="utf8", s=[b, b2, 0x80]))
            ops.append(dict(op="utf8", s=[b, b2, 0x80, 0xbf]))
            ops.append(dict(op="utf8", s=[b, 0x90, b2, 0x80, 97]))
            ops.append(dict(op="utf8", s=[b, 0x90, 0x80, b2]))
    for _ in range(c.pick(400, 5000)):
        s = raw(r.choice([0, 1, 2, 5, 12]))
        t = raw(r.choice([0, 1, 1, 2]))
        u = raw(r.choice([0, 1, 2]))
        few = raw(r.choice([3, 9]), [b"a", b"ab", b",", b"aa", "é".encode()])
        cs = sorted(set(r.sample([97, 44, 32, 10, 0xc3, 0xa9, 255, 0, 65], r.choice([0, 1, 3]))))
        ops += [dict(op=k, s=s) for k in ("utf8", "runelen", "runes", "vis", "normal", "escl")]
        ops += [dict(op="splits", s=r.choice([s, few]), d=r.choice([t, [97], [97, 97], [44]])), dict(op="keep", s=few + few, l=cs), dict(op="strip", s=few + s + few, l=cs, t=cs),
                dict(op="replace", s=few, f=r.choice([[97], [97, 98], [97, 97], t]), t=u), dict(op="replacein", s=few, f=r.choice([[97], [97, 98], [97, 97], t]), t=u),
                dict(op="ieq", s=s, f=[x ^ 32 if 65 <= x <= 122 and r.random() < .5 else x for x in s]), dict(op="ieq", s=s, f=t),
                dict(op="dropp", s=t + s, f=t), dict(op="drops", s=s + t, f=t), dict(op="dropp", s=s, f=t), dict(op="has", s=s, f=t), dict(op="has", s=few, f=[97, 97, 98]),
                dict(op="left", s=s, n=r.randint(0, 12), c=46), dict(op="right", s=s, n=r.randint(0, 12), c=46),
                dict(op="indent", s=r.choice([s, few + [10] + few + [10], [10, 10] + few]), n=r.randint(0, 4), c=r.choice([32, 9]), t=u),
                dict(op="wrap", l=[word() for _ in range(r.choice([0, 1, 2, 5, 9]))], n=r.choice([1, 3, 5, 8, 10, 20]), q=r.random() < .5),
                dict(op="table", l=[[r.choice([word(), word() + [10] + word(), [], [10], word() + [10]]) for _ in range(r.choice([0, 1, 2, 3]))] for _ in range(r.choice([0, 1, 2, 4]))],
                     f=r.choice([[32, 124, 32], [], [124]]), t=r.choice([[45, 43, 45], [], [43]]), c=45),
                dict(op="join", s=t, l=[raw(r.choice([0, 1, 2])) for _ in range(r.choice([0, 1, 2, 5]))]),
                dict(op="bits", n=r.choice([0, 1, 7, 8, 15, 16, 255, 65535, 65536, r.randint(0, 2 ** 31 - 1), 2 ** 31 - 1]), f=r.choice("boxd"), c=r.choice([0, 1, 4, 5, 8, 20])),
                dict(op="int", s=list(r.choice([b"", b" ", b"-", b"+", b" \t\n"]) + str(r.choice([0, 7, 42, 9999999])).encode()[:r.choice([0, 9, 9, 9])] + r.choice([b"", b"x", b" 1", b".5"]))),
                dict(op="plus", s=s, f=t), dict(op="substr", s=s, a=r.randint(0, 6), n=r.choice([-1, 0, 1, 4, 30]))]
        if s:
            n = len(s)
            a, z = r.randint(-1, n), r.randint(-1, n)
            ops.append(dict(op="slice", s=s, a=dict(b=r.random() < .3, v=a), z=dict(b=r.random() < .3, v=z)))
    sc = [dict(ops=ops[k:k + 8]) for k in range(0, len(ops), 8)]
    recs = c.replay("StrOpsTrace", [exe], sc)

    def mutate(x):
        for e in x["ev"]:
            if isinstance(e["r"]["v"], list) and e["r"]["v"]:
                e["r"]["v"].pop()
                return True
    c.binding_selftest("StrOpsTrace", recs, mutate)
