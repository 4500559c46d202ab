"""Build harness binaries from the current /repo working tree.

Everything generated goes to $VERIF_BUILD (default /verif/.build, git-ignored).
The repository asks for newer fmt/libstdc++/cpptrace/lexy than this machine has,
so `prepare_shim` derives compatible copies of the installed headers; nothing of
/repo is copied or patched.
"""
import os, re, shutil, subprocess, sys, glob, hashlib, json

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
CXX = "/usr/bin/clang++-18"
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))


class BuildError(Exception):
    pass


def _write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def prepare_shim():
    out = os.path.join(BUILD, "shim")
    for h in sorted(glob.glob("/usr/include/fmt/*.h")):
        with open(h) as f:
            text = f.read()
        if os.path.basename(h) == "core.h":
            a = "FMT_INLINE operator basic_string_view<Char>() const { return str_; }"
            assert a in text
            text = text.replace(a, a + "\n  basic_string_view<Char> get() const { return str_; }")
            b = "using format_context = buffer_context<char>;"
            assert b in text
            text = text.replace(b, b + "\nusing context = format_context;")
        _write_if_changed(os.path.join(out, "fmt", os.path.basename(h)), text)
    _write_if_changed(os.path.join(out, "fmt", "base.h"),
                      "#pragma once\n#include <fmt/core.h>\n#include <fmt/format.h>\n")
    with open("/usr/include/c++/13/bits/stl_pair.h") as f:
        text = f.read()
    # libstdc++ 14 compares pairs of different element types; the 13 header
    # clashes with the overload hstd declares.
    pat = re.compile(
        r"template<typename _T1, typename _T2>\s*\n\s*\[?\[?[^;{}]*?operator==\(const pair<_T1, _T2>& __x, const pair<_T1, _T2>& __y\)")
    m = pat.search(text)
    assert m, "stl_pair.h layout"
    new = m.group(0).replace("template<typename _T1, typename _T2>",
                             "template<typename _T1, typename _T2, typename _U1, typename _U2>")
    new = new.replace("const pair<_T1, _T2>& __y", "const pair<_U1, _U2>& __y")
    text = text[:m.start()] + new + text[m.end():]
    _write_if_changed(os.path.join(out, "bits", "stl_pair.h"), text)
    return out


DEFS = ("-DORG_BUILD_EMCC=0 -DORG_USE_CONAN_INSTALL=0 -DORG_BUILD_WITH_PROTOBUF=0 "
        "-DORG_BUILD_WITH_KIWI=0 -DORG_BUILD_WITH_ELK=0 -DORG_BUILD_WITH_ADAPTAGRAMS=0 "
        "-DORG_BUILD_WITH_CGRAPH=0 -DBOOST_LOG_DYN_LINK")

PROFILES = {
    "san": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,function,alignment,enum,bool -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
    "fast": "-O1",
    "o0": "-O0",
}


# what most of the standard library needs to link; the two slow files hold no
# code under test and are compiled without instrumentation
CORE = ["hstd/system/*.cpp", "hstd/stdlib/strutils.cpp", "hstd/stdlib/Str.cpp", "hstd/stdlib/ColText.cpp", "hstd/stdlib/TraceBase.cpp", "hstd/stdlib/Json.cpp",
        "hstd/stdlib/Filesystem.cpp", "hstd/stdlib/TraceBaseStructuredLog.cpp", "hstd/stdlib/Debug.cpp"]
CORE_LIBS = ["-lfmt", "-lboost_log", "-lboost_log_setup", "-lboost_thread", "-lboost_filesystem", "-lboost_system", "-lpthread"]
PLAIN = "-O0 -g0 -fno-sanitize=all"
CORE_PLAIN = {"Json.cpp": PLAIN, "TraceBaseStructuredLog.cpp": PLAIN}


def expand(sources):
    """Source patterns are relative to /repo/src or absolute."""
    res = []
    for s in sources:
        pat = s if s.startswith("/") else os.path.join(REPO, "src", s)
        found = sorted(glob.glob(pat, recursive=True))
        if not found:
            raise BuildError(f"no source matches {s}")
        for f in found:
            if f not in res:
                res.append(f)
    return res


def build(name, harness, sources=(), profile="san", libs=(), extra="", exclude=(), timeout=850,
          per_file=None):
    """Compile `harness` (list of /verif files) + repo sources, return binary path."""
    shim = prepare_shim()
    bdir = os.path.join(BUILD, profile)
    os.makedirs(bdir, exist_ok=True)
    srcs = [f for f in expand(sources) if not any(re.search(e, f) for e in exclude)]
    srcs += [h if h.startswith("/") else os.path.join(ROOT, "harness", h) for h in harness]
    flags = (f"-std=gnu++23 {PROFILES[profile]} -I{shim} -I{ROOT}/shim/include -I{ROOT}/harness -I{REPO}/src -I{REPO} "
             f"-include algorithm -include format -Wno-everything -ferror-limit=5 {DEFS} {extra}")
    L = ["ninja_required_version = 1.5",
         f"builddir = {bdir}/{name}.nj",
         f"rule cc\n  command = {CXX} $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         f"rule ld\n  command = {CXX} {PROFILES[profile]} $in -o $out $libs"]
    objs = []
    for s in srcs:
        h = hashlib.sha1((s + "|" + flags + (per_file or {}).get(os.path.basename(s), "")).encode()).hexdigest()[:10]
        o = f"{bdir}/obj/{os.path.basename(s)}.{h}.o"
        fl = flags + " " + (per_file or {}).get(os.path.basename(s), "")
        L.append(f"build {o}: cc {s}\n  flags = {fl}")
        objs.append(o)
    exe = f"{bdir}/{name}"
    L.append(f"build {exe}: ld {' '.join(objs)}\n  libs = {' '.join(libs)}")
    os.makedirs(f"{bdir}/{name}.nj", exist_ok=True)
    nj = f"{bdir}/{name}.nj/build.ninja"
    _write_if_changed(nj, "\n".join(L) + "\n")
    p = subprocess.run(["ninja", "-f", nj, "-j", str(JOBS), exe], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        out = "\n".join(x[:400] for x in p.stdout.splitlines() if CXX + " " not in x)
        raise BuildError(f"build of {name} failed:\n" + out[-5000:])
    return exe
