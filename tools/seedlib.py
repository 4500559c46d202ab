"""Plant a bug in /repo, confirm it (builds, tests pass, demo fails), run the property's check on it, undo.
Used while developing the checks; no check imports this."""
import json, os, subprocess, sys, shutil, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    sh(f"git -C {REPO} checkout -- .")


def baseline_ok():
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("passed") or base.get("stable") or base
    p = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    got = json.load(open("/tmp/seed-out.json"))
    return not got["failed"] and len(got["passed"]) >= 45, got


def seed(id, prop, needs, breaks, edits, demo, files=None, check=True, skip_tests=False):
    """edits: list of (file, old, new[, count]).  demo: text of demo.sh; files: extra files."""
    assert sh(f"git -C {REPO} status --porcelain --untracked-files=no").stdout.strip() == "", "repo not clean"
    d = os.path.join(R, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, t in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    p = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
    if p.returncode != 0:
        print(f"[{id}] demo FAILS on the clean tree:\n{p.stdout[-2500:]}")
        ok = False
    try:
        for e in edits:
            f, old, new = e[0], e[1], e[2]
            t = open(os.path.join(REPO, f)).read()
            n = t.count(old)
            assert n == (e[3] if len(e) > 3 else 1), f"{id}: {n} occurrences in {f}"
            open(os.path.join(REPO, f), "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {REPO} diff").stdout)
        if not skip_tests:
            good, got = baseline_ok()
            if not good:
                print(f"[{id}] tests do not pass: {got['failed'][:5]} {len(got['passed'])}")
                ok = False
        t0 = time.time()
        p = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
        if p.returncode == 0:
            print(f"[{id}] demo does NOT fail with the patch")
            ok = False
        else:
            print(f"[{id}] demo fails as wanted ({time.time() - t0:.0f}s): {p.stdout.strip()[-160:]!r}")
        if check:
            t0 = time.time()
            p = sh(f"python3 {R}/checks/run.py {prop}", cwd=R, timeout=900)
            hit = p.returncode == 1 and f"VIOLATION property={prop} " in p.stdout
            print(f"[{id}] check {prop}: {'CAUGHT' if hit else 'MISSED rc=%d' % p.returncode} ({time.time() - t0:.0f}s)")
            if not hit:
                print(p.stdout[-1500:])
            else:
                print("   ", "\n    ".join([l for l in p.stdout.splitlines() if "spec says" in l or "rejected at" in l][:2])[:700])
    finally:
        clean()
    print(f"[{id}] {'confirmed' if ok else 'NOT CONFIRMED'}")
    return ok


CXX = '''set -e
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
clang++-18 -std=gnu++23 -w -O0 -I"$PWD/src" "$D/demo.cpp" %s -o "$T/demo"
timeout 60 "$T/demo"
'''


def cxx_demo(extra=""):
    return CXX % extra


# Demonstrations that need more of hstd than the plain headers bring along a
# script deriving the same compatibility headers from the installed ones.
_SHIM = r'''"""Derive headers that let this machine's fmt and libstdc++ compile the sources; argument: output directory."""
import glob, os, re, sys
out = sys.argv[1]
def w(name, text):
    p = os.path.join(out, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)
for h in glob.glob("/usr/include/fmt/*.h"):
    t = open(h).read()
    if h.endswith("/core.h"):
        a = "FMT_INLINE operator basic_string_view<Char>() const { return str_; }"
        t = t.replace(a, a + "\n  basic_string_view<Char> get() const { return str_; }")
        b = "using format_context = buffer_context<char>;"
        t = t.replace(b, b + "\nusing context = format_context;")
    w("fmt/" + os.path.basename(h), t)
w("fmt/base.h", "#pragma once\n#include <fmt/core.h>\n#include <fmt/format.h>\n")
t = open("/usr/include/c++/13/bits/stl_pair.h").read()
m = re.search(r"template<typename _T1, typename _T2>\s*\n\s*\[?\[?[^;{}]*?operator==\(const pair<_T1, _T2>& __x, const pair<_T1, _T2>& __y\)", t)
n = m.group(0).replace("template<typename _T1, typename _T2>", "template<typename _T1, typename _T2, typename _U1, typename _U2>")
n = n.replace("const pair<_T1, _T2>& __y", "const pair<_U1, _U2>& __y")
w("bits/stl_pair.h", t[:m.start()] + n + t[m.end():])
%s
'''


def _files(root):
    out = ""
    for b, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.join(b, f)
            out += "w(%r, %r)\n" % (os.path.relpath(p, root), open(p).read())
    return out


def hstd_demo(code, sources=("hstd/system/basic_templates.cpp",), libs="-lfmt", extra="", san=False):
    """(demo.sh, files) for a demonstration linking hstd sources."""
    opt = "-O0" + (" -fsanitize=address,undefined -fno-sanitize=vptr,function,alignment" if san else "")
    sh_ = f'''set -e
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
python3 "$D/shim.py" "$T/shim"
F="-std=gnu++23 -w {opt} -I$T/shim -I$PWD/src -I$PWD -include algorithm -include format -DORG_BUILD_EMCC=0 -DORG_BUILD_WITH_PROTOBUF=0 -DORG_BUILD_WITH_CGRAPH=0 -DORG_BUILD_WITH_KIWI=0 -DORG_BUILD_WITH_ELK=0 -DORG_BUILD_WITH_ADAPTAGRAMS=0 -DORG_USE_CONAN_INSTALL=0 -DBOOST_LOG_DYN_LINK {extra}"
n=0
for f in {' '.join('src/' + s for s in sources)} "$D/demo.cpp"; do
  n=$((n+1)); clang++-18 $F -c "$f" -o "$T/$n.o" &
  if [ $((n % 8)) = 0 ]; then wait; fi
done
wait
clang++-18 {opt} "$T"/*.o {libs} -o "$T/demo"
timeout 60 "$T/demo"
'''
    return sh_, {"demo.cpp": code, "shim.py": _SHIM % _files(os.path.join(R, "shim", "include"))}
