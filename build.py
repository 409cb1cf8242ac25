#!/usr/bin/env python3
"""Builds the harness of one property (or all) against /repo's current working tree.

The library sources are compiled straight from /repo with the project's own
compile options plus address and undefined-behaviour sanitizers, into /verif/build
(ignored by git). Nothing is written under /repo.

usage: build.py [C01 C02 ... | all | lib]
"""
import glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UM2_REPO", "/repo")
B = os.environ.get("UM2_VERIF_BUILD", os.path.join(HERE, "build"))
H = os.path.join(HERE, "harness")
STATE = os.path.join(B, "sources.json")

BASE = dict(UM2_ENABLE_ASSERTS=1, UM2_ENABLE_BMI2=1, UM2_ENABLE_FASTMATH=0,
            UM2_ENABLE_FLOAT64=1, UM2_ENABLE_SIMD_VEC=1, UM2_USE_BLAS_LAPACK=1,
            UM2_USE_CUDA=0, UM2_USE_GMSH=1, UM2_USE_MPACT_XSLIBS=0, UM2_USE_HDF5=1,
            UM2_USE_OPENMP=1, UM2_USE_PUGIXML=1)

# Build variants: name -> (overrides of the configuration header, compile flags)
SAN = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    "san": ({}, SAN),
}
# Further variants, built as shared objects the harness loads at run time so that
# several configurations can be compared inside one process. Each exports only the
# extern "C" entry points of harness/<id>_alt.cpp.
ALT = {
    "ref": ({}, "-O2"),
    "nosimd": ({"UM2_ENABLE_SIMD_VEC": 0}, "-O2"),
    "nobmi": ({"UM2_ENABLE_BMI2": 0}, "-O2"),
    "noassert": ({"UM2_ENABLE_ASSERTS": 0}, "-O2"),
    "noblas": ({"UM2_USE_BLAS_LAPACK": 0}, "-O2"),
    "float": ({"UM2_ENABLE_FLOAT64": 0}, "-O2"),
}
# id -> (variants, whether the compiled library is needed)
ALTUSE = {
    "C04": (["nobmi"], False),
    "C35": (["ref", "nosimd", "nobmi", "noassert", "noblas", "float"], True),
}
PIC = "-fPIC -fvisibility=hidden -fvisibility-inlines-hidden"
COMMON = ("-std=gnu++20 -fopenmp -fno-math-errno -fno-trapping-math -fno-signed-zeros "
          "-fno-signaling-nans -march=x86-64-v3 -DNDEBUG -w")
LIBS = ("-Wl,--as-needed -L/usr/lib/x86_64-linux-gnu/hdf5/serial "
        "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -llapacke -lopenblas "
        "-lhdf5_cpp -lhdf5 -lpugixml -lgmsh -lgomp -lpthread -ldl -lm")


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def digests():
    d = {}
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), H):
        for dirpath, _, names in os.walk(top):
            for n in names:
                p = os.path.join(dirpath, n)
                with open(p, "rb") as f:
                    d[p] = hashlib.sha1(f.read()).hexdigest()
    return d


def drop_stale(now):
    """ninja goes by times alone: start afresh if a file got other contents with an old time."""
    try:
        with open(STATE) as f:
            then, before = json.load(f)
    except (OSError, ValueError):
        return
    if any(before.get(p, h) != h and os.path.getmtime(p) <= then for p, h in now.items()):
        print("sources changed without a newer time, building afresh", file=sys.stderr)
        for dirpath, _, names in os.walk(B):
            for n in names:
                if n.endswith((".o", ".a", ".so")) or re.fullmatch(r"C\d\d", n):
                    os.remove(os.path.join(dirpath, n))


def config_text(over):
    """What the project's configure step makes of its configuration header."""
    with open(os.path.join(REPO, "cmake", "config.hpp.in")) as f:
        t = f.read()
    vals = dict(BASE)
    vals.update(over)
    t = re.sub(r"#cmakedefine01 (\w+)", lambda m: f"#define {m[1]} {vals.get(m[1], 0)}", t)
    t = t.replace("@UM2_MAX_LOG_LEVEL@", "4").replace("@MPACT_DATA@", "")
    return t


def main():
    want = sys.argv[1:] or ["all"]
    ids = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(H, "C[0-9][0-9].cpp")))
    alts = {i: ALTUSE[i] for i in ids if i in ALTUSE}
    variants = dict(VARIANTS)
    for v, (over, vf) in ALT.items():
        if any(v in u[0] for u in alts.values()):
            variants[v] = (over, vf + " " + PIC)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    o = ["ninja_required_version = 1.5", f"builddir = {B}", "",
         "rule cxx", "  command = g++ $flags -MD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "",
         "rule ar", "  command = rm -f $out && ar crs $out $in", "",
         "rule link", f"  command = g++ $flags $in -o $out {LIBS}", "",
         "rule so", f"  command = g++ -shared -Wl,-Bsymbolic -Wl,--exclude-libs,ALL $flags $in -o $out {LIBS}", ""]
    targets = {}
    for v, (over, vf) in variants.items():
        gen = os.path.join(B, v, "gen")
        write_if_changed(os.path.join(gen, "um2", "config.hpp"), config_text(over))
        flags = (f"{COMMON} {vf} -I{gen} -I{REPO}/include -isystem {REPO} "
                 f"-isystem /usr/include/hdf5/serial -I{H}")
        objs = []
        for s in srcs:
            rel = os.path.relpath(s, os.path.join(REPO, "src"))
            ob = os.path.join(B, v, "lib", rel + ".o")
            o += [f"build {ob}: cxx {s}", f"  flags = {flags}"]
            objs.append(ob)
        lib = os.path.join(B, v, "libum2.a")
        o += [f"build {lib}: ar {' '.join(objs)}"]
        if v == "san":
            pbt = os.path.join(B, v, "pbt.o")
            o += [f"build {pbt}: cxx {H}/pbt.cpp", f"  flags = {flags}"]
            for i in ids:
                ob, exe = os.path.join(B, v, i + ".o"), os.path.join(B, i)
                o += [f"build {ob}: cxx {H}/{i}.cpp", f"  flags = {flags}",
                      f"build {exe}: link {ob} {pbt} {lib}", f"  flags = {vf}"]
                targets[i] = [exe]
            targets["lib"] = [lib, pbt]
        else:
            for i, (vs, needlib) in alts.items():
                if v not in vs:
                    continue
                ob, so = os.path.join(B, v, i + "_alt.o"), os.path.join(B, f"{i}_{v}.so")
                o += [f"build {ob}: cxx {H}/{i}_alt.cpp", f"  flags = {flags}",
                      f"build {so}: so {ob} {lib if needlib else ''}", f"  flags = {vf}"]
                targets[i].append(so)
    now = digests()
    drop_stale(now)
    nj = os.path.join(B, "build.ninja")
    write_if_changed(nj, "\n".join(o) + "\n")
    build = []
    for w in want:
        if w == "all":
            for t in targets.values():
                build += t
        elif w in targets:
            build += targets[w]
        else:
            sys.exit(f"unknown target {w}")
    everything = "all" in want
    r = subprocess.run(["ninja", "-f", nj, "-j", str(min(8, os.cpu_count() or 1)), "--quiet"]
                       + (["-k", "0"] if everything else []) + build,
                       cwd=B, stdout=sys.stderr)
    write_if_changed(STATE, json.dumps([time.time(), now]))
    if everything and r.returncode != 0:
        # A part that does not compile is reported by the checks that need it
        print("some parts were not built", file=sys.stderr)
        sys.exit(0)
    sys.exit(0 if r.returncode == 0 else 3)


if __name__ == "__main__":
    main()
