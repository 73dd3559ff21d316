#!/usr/bin/env python3
"""Builds the CEX library natively (from the repository's current working tree)
in one of the instrumented variants, plus harness programs, with ninja.

usage: build.py VARIANT [harness...]      (harness = name of /verif/harness/<name>.cpp)
Output: <build dir>/<variant>/<harness>; the build dir is $VERIF_BUILD or /verif/.build.
"""
import glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
N = f"{VERIF}/native"

# Not in the project's .vcxproj and they do not compile (the repository's own build leaves them out too).
STALE = {"ACSTest", "DLTMK5Q8380417N256", "DLTMK6Q8380417N256", "SocketReceiver", "SocketSender"}

COMMON = ("-std=c++17 -w -g1 -mavx2 -maes -mpclmul -mrdrnd -mrdseed -msha -mbmi2 -mxsave -fno-strict-aliasing -fwrapv "
          "-fno-omit-frame-pointer -D_M_X64=100 -D_M_AMD64=100 -D_CONSOLE -DUNICODE -D_UNICODE -DNDEBUG -fno-delayed-template-parsing "
          "-fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -fgnuc-version=4.2.1 -D__EXCEPTIONS=1 "
          f"-fcxx-exceptions -DVERIF_REPO={REPO} -I{N}/shim -I{N} -I{VERIF}/harness -pthread")

UB = "-fsanitize=undefined -fno-sanitize=alignment,vptr,function -fno-sanitize-recover=undefined"
VARIANTS = {
    # memory errors + undefined behaviour, fatal at the first report
    "asan": ("-O1 -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR=1 " + UB, "-fsanitize=address,undefined"),
    # other builds of the library: for processors without AVX2 or AVX (as MSVC's /arch does it: the intrinsics stay),
    # with OpenMP, and with the library's own assertions
    "scalar": ("-U__AVX2__ -U__AVX__ -O1 -fsanitize=address " + UB, "-fsanitize=address,undefined"),
    "avx": ("-U__AVX2__ -O1 -fsanitize=address " + UB, "-fsanitize=address,undefined"),
    "omp": ("-fopenmp -O1 -fsanitize=address " + UB, "-fopenmp -fsanitize=address,undefined"),
    "debug": ("-D_DEBUG -O1 -fsanitize=address " + UB, "-fsanitize=address,undefined"),
    "tsan": ("-O1 -fsanitize=thread", "-fsanitize=thread"),
    "fast": ("-O2", ""),
    # a legal but awkward heap: every block is 16 bytes off a 32 byte boundary and filled with junk (harness/h.cpp)
    "odd": ("-O2 -DVERIF_ODD", ""),
    # execution traces (harness/trace.h): every edge, load and store; comparisons stay calls
    "ct": (f"-O1 -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -fsanitize-coverage-ignorelist={N}/ct.ignore -fno-builtin-memcmp -mllvm -max-loads-per-memcmp=0", ""),
    # which code the workloads reach (tools/coverage.sh); no check uses it
    "cov": ("-O1 -DVERIF_COV -fprofile-instr-generate -fcoverage-mapping", "-fprofile-instr-generate"),
    # for valgrind: no AVX-512, same -mavx2
    "vg": ("-O1", ""),
}
LIBS = "-Wl,-Bstatic -lcrypto -Wl,-Bdynamic -ldl -lpthread"


def sources():
    return [os.path.basename(f)[:-4] for f in sorted(glob.glob(f"{REPO}/CEX/*.cpp")) if os.path.basename(f)[:-4] not in STALE]


INC = re.compile(r'^[ \t]*#[ \t]*include[ \t]+"([^"]+)"', re.M)


def read(p):
    return open(p, errors="replace").read() if os.path.exists(p) else ""


def closure(harness):
    """The library sources a harness can reach: X.cpp for every header X.h that is
    included, directly or not. None when the harness wants everything."""
    seen, need = set(), set()
    todo = []
    hs, hseen = [f"{VERIF}/harness/{harness}.cpp"], set()
    while hs:
        f = hs.pop()
        if f in hseen:
            continue
        hseen.add(f)
        for x in INC.findall(read(f)):
            if os.path.exists(f"{VERIF}/harness/{x}"):
                hs.append(f"{VERIF}/harness/{x}")
            else:
                todo.append(x)
    while todo:
        h = todo.pop()
        if h in seen:
            continue
        seen.add(h)
        todo += INC.findall(read(f"{REPO}/CEX/{h}"))
        b = h.rsplit(".", 1)[0]
        if h != b + ".cpp" and b not in STALE and os.path.exists(f"{REPO}/CEX/{b}.cpp"):
            need.add(b)
            todo.append(b + ".cpp")
    return need | {"CryptoException", "ErrorCodes"}


def build(variant, harnesses, quiet=True, full=False):
    cf, lf = VARIANTS[variant]
    b = f"{BUILD}/{variant}"
    os.makedirs(b + "/cex", exist_ok=True)
    os.makedirs(b + "/gen", exist_ok=True)
    pch = f"{b}/prelude.pch"
    L = [f"builddir = {b}", f"flags = {COMMON} {cf}",
         # A few headers only compile with templates left unparsed until use (as MSVC does), which a PCH cannot do: second try.
         f"rule cxx\n  command = clang++ $flags -fno-delayed-template-parsing -include-pch {pch} $extra -MD -MF $out.d -c $in -o $out 2>/dev/null || "
         f"clang++ $flags -fdelayed-template-parsing -include {N}/shim/verif_prelude.h $extra -MD -MF $out.d -c $in -o $out\n  description = CXX $in\n  depfile = $out.d\n  deps = gcc",
         f"rule pch\n  command = clang++ $flags -fno-delayed-template-parsing -x c++-header -MD -MF $out.d $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule sed\n  command = sed '$expr' $in > $out",
         "rule ar\n  command = rm -f $out && ar crs $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in",
         f"rule link\n  command = clang++ {lf} -o $out $in {LIBS}",
         f"build {pch}: pch {N}/shim/verif_prelude.h"]
    every = sources()
    if full or not harnesses:
        need = set(every)
    else:
        need = set().union(*[closure(h) for h in harnesses]) & set(every)
    objs = []
    for s in sorted(need):
        f = f"{REPO}/CEX/{s}.cpp"
        o = f"{b}/cex/{s}.o"
        if s == "FileStream":
            g = f"{b}/gen/FileStream.cpp"
            L.append(f"build {g}: sed {f}\n  expr = s/static_cast<int32_t>(Access) | static_cast<int32_t>(Mode))/static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)))/")
            L.append(f"build {o}: cxx {g} | {pch}\n  extra = -I{REPO}/CEX")
        else:
            L.append(f"build {o}: cxx {f} | {pch}")
        objs.append(o)
    L.append(f"build {b}/rt.o: cxx {N}/verif_rt.cpp | {pch}")
    L.append(f"build {b}/h.o: cxx {VERIF}/harness/h.cpp | {pch}\n  extra = -I{REPO}/CEX")
    refs = []
    for f in sorted(glob.glob(f"{VERIF}/harness/ref*.cpp")):
        o = f"{b}/{os.path.basename(f)[:-4]}.o"
        refs.append(o)
        L.append(f"build {o}: cxx {f} | {pch}\n  extra = -O2 -I{REPO}/CEX")
    L.append(f"build {b}/libref.a: ar {' '.join(refs)}")
    lib = f"{b}/libcex-{'-'.join(harnesses)[:60] or 'all'}{'-full' if full else ''}.a"
    L.append(f"build {lib}: ar {' '.join(objs)} {b}/rt.o")
    outs = [lib]
    for h in harnesses:
        hf = f"{VERIF}/harness/{h}.cpp"
        L.append(f"build {b}/{h}.o: cxx {hf} | {pch}\n  extra = -I{REPO}/CEX")
        L.append(f"build {b}/{h}: link {b}/{h}.o {b}/h.o {b}/libref.a {lib}")
        outs.append(f"{b}/{h}")
    path = f"{b}/build-{'-'.join(harnesses)[:60] or 'all'}.ninja"
    open(path, "w").write("\n".join(L) + "\n")
    r = subprocess.run(["ninja", "-k", "0", "-f", path, "-j", str(os.cpu_count() or 4)] + outs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if not full and harnesses and "undefined reference" in r.stdout:
            return build(variant, harnesses, quiet, True)
        sys.stderr.write("\n".join(l[:300] for l in r.stdout.splitlines() if "error" in l or "undefined reference" in l)[:5000] + "\n")
        raise SystemExit(2)
    if not quiet:
        print(r.stdout[-300:])
    return [f"{b}/{h}" for h in harnesses]


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:], quiet=False)
