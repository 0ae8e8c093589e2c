#!/usr/bin/env python3
"""Write a ninja file that builds libhfst (and the command line tools) from /repo's
working tree into a build directory outside /repo, without using /repo's own
build products or autotools state."""
import glob, os, re, sys

ORIG = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EXTS = (".cc", ".h", ".hpp", ".hh", ".yy", ".ll", ".c", ".in", ".py", ".sh", ".i", ".cpp")

def sync(dst):
    """Mirror /repo's sources into dst by content, so that ninja's mtimes mean
    'content changed' whatever the mtimes in /repo are. Generated parsers are
    left out: they are made anew from the .yy and .ll files."""
    want = set()
    for top in ("libhfst/src", "back-ends/sfst", "tools/src"):
        for dp, dn, fn in os.walk(f"{ORIG}/{top}"):
            dn[:] = [d for d in dn if d not in (".libs", ".deps", "test", "autom4te.cache")]
            names = set(fn)
            for f in fn:
                if not f.endswith(EXTS):
                    continue
                base = f.rsplit(".", 1)[0]
                if f.endswith((".cc", ".hh", ".c", ".h")) and (base + ".yy" in names or base + ".ll" in names):
                    continue
                src = f"{dp}/{f}"
                rel = os.path.relpath(src, ORIG)
                out = f"{dst}/{rel}"
                want.add(out)
                with open(src, "rb") as h:
                    data = h.read()
                try:
                    with open(out, "rb") as h:
                        if h.read() == data:
                            continue
                except OSError:
                    os.makedirs(os.path.dirname(out), exist_ok=True)
                with open(out, "wb") as h:
                    h.write(data)
    out = f"{dst}/config.h"
    want.add(out)
    data = open(VERIF + "/tools/config/config.h", "rb").read()
    if not os.path.exists(out) or open(out, "rb").read() != data:
        open(out, "wb").write(data)
    for dp, dn, fn in os.walk(dst):
        for f in fn:
            if f"{dp}/{f}" not in want:
                os.unlink(f"{dp}/{f}")

def main(build, flavour):
    os.makedirs(build, exist_ok=True)
    REPO = os.path.dirname(build) + "/src"
    sync(REPO)
    L = REPO + "/libhfst/src"
    san = {
        "plain": ("g++", "gcc", "-O1 -g1", ""),
        "asan": ("clang++", "clang",
                 "-O1 -gline-tables-only -fsanitize=address -fno-omit-frame-pointer",
                 "-fsanitize=address"),
        "fuzz": ("clang++", "clang",
                 "-O1 -gline-tables-only -fsanitize=address,fuzzer-no-link -fno-omit-frame-pointer",
                 "-fsanitize=address"),
    }[flavour]
    cxx, cc, opt, ldsan = san
    inc = " ".join("-I" + d for d in [
        REPO, build + "/gen", L, L + "/parsers", REPO + "/back-ends",
        REPO + "/back-ends/sfst", REPO + "/tools/src", REPO + "/tools/src/inc"])
    cxxflags = f"-DHAVE_CONFIG_H -fPIC -w {opt} {inc}"
    out = []
    w = out.append
    w("ninja_required_version = 1.5")
    w(f"builddir = {build}")
    w(f"cxx = {cxx}")
    w(f"cc = {cc}")
    w(f"cxxflags = {cxxflags}")
    w(f"ldsan = {ldsan}")
    w("rule cxx\n  command = $cxx $cxxflags $std $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
    w("rule bison\n  command = cd $gendir && bison -y -d $in -o $name.cc 2>$name.bison.log || (cat $name.bison.log; exit 1)\n  description = BISON $in")
    w("rule flex\n  command = cd $gendir && flex -o$outp $in 2>/dev/null\n  description = FLEX $in")
    w(f"rule link\n  command = {cxx} $ldsan -shared -o $out $in -lfoma -lfst -licuuc -licui18n -licuio -licudata -ldl -lpthread\n  description = LINK $out")
    w(f"rule linkexe\n  command = {cxx} $ldsan -o $out $in $libs -lreadline -lfoma -lfst -licuuc -ldl -lpthread -Wl,-rpath,{build}\n  description = LINK $out")

    def std_of(src):
        try:
            t = open(src, errors="replace").read()
        except OSError:
            return "-std=c++20"
        return "-std=c++17" if ("<fst/fstlib.h>" in t) else "-std=c++20"

    gen = build + "/gen"
    os.makedirs(gen, exist_ok=True)
    hdrs = []
    gensrc = []
    def parsers(srcdir, gendir):
        hh = []
        os.makedirs(gendir, exist_ok=True)
        for y in sorted(glob.glob(srcdir + "/*.yy")):
            n = os.path.basename(y)[:-3]
            w(f"build {gendir}/{n}.cc {gendir}/{n}.hh: bison {y}\n  gendir = {gendir}\n  name = {n}")
            gensrc.append(f"{gendir}/{n}.cc")
            hh.append(f"{gendir}/{n}.hh")
        for l in sorted(glob.glob(srcdir + "/*.ll")):
            n = os.path.basename(l)[:-3]
            w(f"build {gendir}/{n}.cc: flex {l} | {' '.join(hh)}\n  gendir = {gendir}\n  outp = {n}.cc")
            gensrc.append(f"{gendir}/{n}.cc")
        return hh
    hdrs += parsers(L + "/parsers", gen)
    srcs = []
    excl = {"HfstXeroxRulesTest.cc", "MyTransducerLibraryTransducer.cc", "XfsmTransducer.cc",
            "HfstTransitionGraph.cc"}
    genbase = {os.path.basename(g) for g in gensrc}
    for pat in ["*.cc", "implementations/*.cc", "implementations/compose_intersect/*.cc",
                "implementations/optimized-lookup/*.cc", "parsers/*.cc", "parsers/*_src/*.cc"]:
        for s in sorted(glob.glob(f"{L}/{pat}")):
            b = os.path.basename(s)
            if b in excl or b in genbase:
                continue
            srcs.append(s)
    sf = sorted(glob.glob(REPO + "/back-ends/sfst/*.cc")) + sorted(glob.glob(REPO + "/back-ends/sfst/*.C"))
    srcs += [s for s in sf]
    objs = []
    hl = " ".join(hdrs)
    def comp(s, extra=""):
        rel = s.replace(REPO + "/", "").replace(build + "/", "").replace("/", "__")
        o = f"{build}/obj/{rel}.o"
        w(f"build {o}: cxx {s} || {hl}\n  std = {std_of(s)}" + (f"\n  extra = {extra}" if extra else ""))
        return o
    for s in srcs + [g for g in gensrc]:
        objs.append(comp(s))
    w(f"build {build}/libhfst.so: link {' '.join(objs)}")
    w(f"build lib: phony {build}/libhfst.so")
    # harnesses: one binary per property, sharing engine, model and glue
    H = VERIF + "/harness"
    hin = f"-I{H}"
    common = []
    for s in ("engine.cc", "model.cc", "hx.cc"):
        o = f"{build}/obj/h__{s}.o"
        w(f"build {o}: cxx {H}/{s} || {hl}\n  std = -std=c++20\n  extra = {hin}")
        common.append(o)
    exes = []
    for s in sorted(glob.glob(H + "/c[0-9][0-9].cc")):
        n = os.path.basename(s)[:-3]
        o = f"{build}/obj/h__{n}.o"
        w(f"build {o}: cxx {s} || {hl}\n  std = -std=c++20\n  extra = {hin}")
        w(f"build {build}/h/{n}: linkexe {o} {' '.join(common)} | {build}/libhfst.so\n  libs = {build}/libhfst.so")
        exes.append(f"{build}/h/{n}")
    w(f"build harness: phony {' '.join(exes)}")
    # command line tools, as the Makefile.am files list them
    T = REPO + "/tools/src"
    common_t = {}
    tools = []
    def tool(name, files, xinc=""):
        objs = []
        for f in files:
            if f in common_t:
                objs.append(common_t[f])
                continue
            if not os.path.exists(f):
                return
            o = comp(f, xinc)
            common_t[f] = o
            objs.append(o)
        w(f"build {build}/bin/{name}: linkexe {' '.join(objs)} | {build}/libhfst.so\n  libs = {build}/libhfst.so")
        tools.append(f"{build}/bin/{name}")
    HC = [f"{T}/{x}" for x in ("hfst-program-options.cc", "hfst-commandline.cc", "hfst-tool-metadata.cc")]
    for sub, xinc in (("", ""), ("parsers", f"-I{T}/parsers"), ("hfst-proc", f"-I{T}/hfst-proc"),
                      ("hfst-twolc/src", ""), ("hfst-tagger/src", "")):
        mk = f"{ORIG}/tools/src/{sub}/Makefile.am"
        if not os.path.exists(mk):
            continue
        for line in open(mk).read().replace("\\\n", " ").split("\n"):
            m = re.match(r"(hfst\w*)_SOURCES\s*=(.*)", line)
            if not m or m.group(1) in ("hfst_build_tagger",):
                continue
            d = f"{T}/{sub}" if sub else T
            files = []
            for f in m.group(2).split():
                if f == "$(HFST_COMMON_SRC)":
                    files += HC
                else:
                    files.append(f"{d}/" + f.replace("$(USE_MODEL_SRC)", "use_model_src"))
            name = m.group(1).replace("_", "-")
            if name == "hfst-xfst":
                files.append(f"{T}/hfst-file-to-mem.cc")
            tool(name, files, xinc)
    w(f"build tools: phony {' '.join(tools)}")
    open(build + "/build.ninja", "w").write("\n".join(out) + "\n")

if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
