#!/usr/bin/env python3
"""Builds hfst from /repo's current working tree, instrumented, into /verif/build.

A mirror of the sources is kept in build/src (a file is rewritten only when its content
changes; generated parsers live only in the mirror, so stale products lying in /repo are
never used), and ninja builds what is needed from it through ccache.
"""
import os, sys, subprocess, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(B, "src")
DIRS = ["back-ends/sfst", "libhfst/src", "tools/src", "python"]
EXT = (".cc", ".cpp", ".h", ".hpp", ".hh", ".yy", ".ll", ".i", ".py", ".inc")
SKIP_DIRS = {".libs", ".deps", "build", "doc", "pypi", "test", "__pycache__", "dist", "autom4te.cache"}
GUARD = "HFST_VERIF"

def mirror():
    """Copy the sources; return number of files changed."""
    want = {}
    for d in DIRS:
        top = os.path.join(REPO, d)
        for root, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS and not x.startswith("."))
            fs = set(files)
            gen = {f[:-3] for f in fs if f.endswith((".yy", ".ll"))}
            for f in sorted(fs):
                stem, ext = os.path.splitext(f)
                if ext not in EXT:
                    continue
                if ext in (".cc", ".hh") and stem in gen:
                    continue
                if d == "python" and f in ("libhfst_wrap.cpp", "libhfst.py"):
                    continue
                p = os.path.join(root, f)
                want[os.path.relpath(p, REPO)] = p
    want["config.h"] = os.path.join(VERIF, "lib", "config.h")
    n = 0
    for rel, p in want.items():
        dst = os.path.join(SRC, rel)
        data = open(p, "rb").read()
        try:
            if open(dst, "rb").read() == data:
                continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "wb") as f:
            f.write(data)
        n += 1
    for root, dirs, files in os.walk(SRC):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), SRC)
            stem, ext = os.path.splitext(rel)
            if rel in want or not rel.endswith(EXT):
                continue
            if ext in (".cc", ".hh") and (stem + ".yy" in want or stem + ".ll" in want):
                continue
            os.remove(os.path.join(root, f))
            n += 1
    return n, want

LIB_EXCLUDE = {
    "libhfst/src/HfstXeroxRulesTest.cc",
    "libhfst/src/implementations/HfstTransitionGraph.cc",
    "libhfst/src/implementations/MyTransducerLibraryTransducer.cc",
    "libhfst/src/implementations/XfsmTransducer.cc",
}
COMMON = ["hfst-program-options.cc", "hfst-commandline.cc", "hfst-tool-metadata.cc"]
# tool name -> sources (relative to tools/src), when not just <name>.cc + COMMON
SPECIAL = {
    "hfst-calculate": ["sfst-main.cc"] + COMMON,
    "hfst-guess": ["hfst-guess.cc", "generate_model_forms.cc", "guessify_fst.cc"] + COMMON,
    "hfst-guessify": ["hfst-guessify.cc", "guessify_fst.cc"] + COMMON,
    "hfst-lexc": ["hfst-lexc-compiler.cc"] + COMMON,
    "hfst-optimized-lookup": ["hfst-optimized-lookup.cc"],
    "hfst-regexp2fst": ["hfst-regexp2fst.cc", "hfst-file-to-mem.cc"] + COMMON,
    "hfst-xfst": ["parsers/hfst-xfst.cc", "hfst-file-to-mem.cc"] + COMMON,
    "hfst-twolc": ["hfst-twolc/src/hfst-twolc.cc"],
}
PLAIN = """hfst-affix-guessify hfst-check-alpha hfst-compare hfst-compose-intersect hfst-compose
hfst-concatenate hfst-conjunct hfst-determinize hfst-disjunct hfst-dump-alphabets hfst-priority-disjunct
hfst-multiply hfst-expand-equivalences hfst-edit-metadata hfst-eliminate-flags hfst-format hfst-fst2fst
hfst-fst2strings hfst-fst2txt hfst-grep hfst-head hfst-info hfst-invert hfst-insert-freely hfst-kill-paths
hfst-lookup hfst-flookup hfst-pair-test hfst-minimize hfst-name hfst-pmatch hfst-tokenize hfst-project
hfst-prune-alphabet hfst-push-labels hfst-push-weights hfst-realign hfst-pmatch2fst hfst-remove-epsilons
hfst-repeat hfst-reverse hfst-reweight hfst-shuffle hfst-split hfst-strings2fst hfst-substitute
hfst-subtract hfst-summarize hfst-tail hfst-traverse hfst-txt2fst""".split()
# these options are part of the flavour, not of hfst
FLAV = {
    # address + undefined behaviour; reports are fatal
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all "
            "-fno-sanitize=vptr,alignment -D_GLIBCXX_ASSERTIONS",
    # plain optimised build: behavioural monitors only (python, big sweeps)
    "plain": "-O1 -g1 -D_GLIBCXX_ASSERTIONS",
}

def std_for(path):
    # As /opt/vp/cxx17or20: OpenFst 1.7.9 does not compile as C++20, LexcCompiler.cc needs C++20.
    with open(path, "rb") as f:
        return "-std=c++17" if b"<fst/fstlib.h>" in f.read().replace(b"#include<", b"#include <") else "-std=c++20"

def gen_ninja(want, flavour):
    out = os.path.join(B, flavour)
    os.makedirs(out, exist_ok=True)
    L = []
    w = L.append
    inc = " ".join("-I" + os.path.join(SRC, d) for d in
                   [".", "libhfst/src", "libhfst/src/parsers", "back-ends", "tools/src", "tools/src/parsers", "tools/src/inc"])
    w("ninja_required_version = 1.8")
    w("builddir = %s" % out)
    w("flags = %s" % FLAV[flavour])
    w("inc = %s" % inc)
    w("rule cxx\n  command = ccache g++ -DHAVE_CONFIG_H -D%s -DYYDEBUG=0 -fPIC -w $flags $std $extra $inc -MD -MF $out.d -c $in -o $out\n"
      "  depfile = $out.d\n  deps = gcc\n  description = CXX $out" % GUARD)
    w("rule yacc\n  command = cd $dir && bison -y -Wno-all -d -o $base.cc $base.yy\n  restat = 1\n  description = BISON $base")
    w("rule lex\n  command = cd $dir && flex -o $base.cc $base.ll\n  restat = 1\n  description = FLEX $base")
    w("rule so\n  command = rm -f $out && g++ -shared $flags -o $out $in -lfoma -lfst -licui18n -licuuc -licudata -lreadline -lm -lpthread -ldl\n  description = SO $out")
    w("rule exe\n  command = rm -f $out && g++ $flags -o $out $in -L%s -lhfst -Wl,-rpath,%s -licui18n -licuuc -licudata -lreadline $libs\n  description = LINK $out" % (out, out))
    objs = {}
    def obj(rel, extra="", deps=()):
        key = (rel, extra)
        if key in objs:
            return objs[key]
        src = os.path.join(SRC, rel) if not rel.startswith("/") else rel
        tag = ("x%08x." % (hash_(extra) & 0xffffffff)) if extra else ""
        name = rel if not rel.startswith("/") else "harness/" + os.path.basename(rel)
        o = os.path.join(out, "obj", name.replace("/", "__") + "." + tag + "o")
        real = src
        if not os.path.exists(real):     # generated
            real = src[:-3] + (".yy" if os.path.exists(src[:-3] + ".yy") else ".ll")
        w("build %s: cxx %s || %s\n  std = %s\n  extra = %s" % (o, src, "gen", std_for(real), extra))
        objs[key] = o
        return o
    gen = []
    pdir = os.path.join(SRC, "libhfst/src/parsers")
    for rel in sorted(want):
        stem, ext = os.path.splitext(rel)
        if ext == ".yy":
            s = os.path.join(SRC, stem)
            w("build %s.cc %s.hh: yacc %s.yy\n  dir = %s\n  base = %s" % (s, s, s, os.path.dirname(s), os.path.basename(s)))
            gen += [s + ".cc", s + ".hh"]
        elif ext == ".ll":
            s = os.path.join(SRC, stem)
            w("build %s.cc: lex %s.ll\n  dir = %s\n  base = %s" % (s, s, os.path.dirname(s), os.path.basename(s)))
            gen += [s + ".cc"]
    w("build gen: phony %s" % " ".join(gen))
    lib = []
    for rel in sorted(want):
        stem, ext = os.path.splitext(rel)
        if not (rel.startswith("libhfst/src/") or rel.startswith("back-ends/sfst/")):
            continue
        if rel in LIB_EXCLUDE or rel.startswith("libhfst/src/c/"):
            continue
        if ext == ".cc":
            # the two OpenFst template monsters take two minutes with everything on
            slow = flavour == "asan" and std_for(os.path.join(SRC, rel)) == "-std=c++17"
            lib.append(obj(rel, "-O0 -fno-sanitize=undefined" if slow else ""))
        elif ext in (".yy", ".ll"):
            lib.append(obj(stem + ".cc"))
    so = os.path.join(out, "libhfst.so")
    w("build %s: so %s" % (so, " ".join(lib)))
    bins = []
    def exe(name, srcs, extra="", libs=""):
        p = os.path.join(out, "bin", name)
        w("build %s: exe %s | %s\n  libs = %s" % (p, " ".join(obj(s, extra) for s in srcs), so, libs))
        bins.append(p)
    if flavour == "asan":
        for t in PLAIN:
            exe(t, ["tools/src/" + s for s in [t + ".cc"] + COMMON])
        for t, ss in SPECIAL.items():
            exe(t, ["tools/src/" + s for s in ss])
        exe("hfst-proc", sorted(r for r in want if r.startswith("tools/src/hfst-proc/") and r.endswith(".cc")),
            extra="-I%s/tools/src/hfst-proc" % SRC)
        tg = "tools/src/hfst-tagger/src/"
        exe("hfst-tag", [tg + "hfst-tag.cc"] + sorted(r for r in want if r.startswith(tg + "use_model_src/") and r.endswith(".cc"))
            + ["tools/src/" + s for s in COMMON], extra="-Wno-sign-compare")
    for h in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if h.endswith(".cc"):
            exe(h[:-3], [os.path.join(VERIF, "harness", h)])
    w("build tools: phony %s" % " ".join(bins))
    w("build lib: phony %s" % so)
    text = "\n".join(L) + "\n"
    nf = os.path.join(out, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    return out, nf

def hash_(s):
    import zlib
    return zlib.crc32(s.encode())

def build(flavour="asan", targets=("tools",), log=sys.stderr):
    """targets: 'lib', 'tools', 'gen' or names under bin/. Returns the output directory; raises on failure."""
    os.makedirs(B, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        n, want = mirror()
        out, nf = gen_ninja(want, flavour)
        env = dict(os.environ, CCACHE_DIR=os.path.join(B, "ccache"), CCACHE_MAXSIZE="3G", CCACHE_NOHASHDIR="1",
                   CCACHE_COMPILERCHECK="content", CCACHE_SLOPPINESS="time_macros", LC_ALL="C.UTF-8")
        tg = [t if t in ("lib", "tools", "gen") else os.path.join(out, "bin", t) for t in targets]
        r = subprocess.run(["ninja", "-f", nf, "-j", "8"] + tg, cwd=out, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        open(os.path.join(out, "build.log"), "w").write(r.stdout)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit(3)
    if log:
        print("build[%s]: %d source files changed, %.1fs" % (flavour, n, time.time() - t0), file=log)
    return out

if __name__ == "__main__":
    fl = sys.argv[1] if len(sys.argv) > 1 else "asan"
    build(fl, sys.argv[2:] or ("tools",))
