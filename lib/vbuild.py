"""Builds the project's modules (from /repo's working tree) and the harnesses of /verif with a chosen instrumentation.

Everything is generated as one ninja file per configuration under /verif/build/<config>/ (git-ignored).  File lists,
include paths and the per-file shims are the ones of /opt/vp/port (copied to /verif/port/include).
"""
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PORT = os.path.join(VERIF, "port", "include")

CONFIGS = {
    # Memory errors, leaks and undefined behaviour.  Reports are counted, not fatal, for UBSan (halt_on_error=0).
    "asan": "-O1 -g1 -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,function,alignment,null,object-size",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "fast": "-O2 -g1",
    "plain": "-O0 -g",
    # For valgrind's memcheck: reads of memory that was never written.
    "vg": "-O1 -g1",
    "cov": "-O0 -g -fprofile-instr-generate -fcoverage-mapping",
}

# The code meant for Intel MKL, with the stand-in of harness/mkl.
MKL = f" -Dbasicsys_enable_mkl -I{VERIF}/harness/mkl"
CONFIGS["mkl"] = CONFIGS["asan"] + MKL
CONFIGS["tsanmkl"] = CONFIGS["tsan"] + MKL
CONFIGS["vgmkl"] = CONFIGS["vg"] + MKL

# Modules a harness needs.
HARNESS = {}


def harness_modules(name):
    """First line of the harness file: // modules: basiclog basicsys basicmath"""
    with open(os.path.join(VERIF, "harness", name + ".cpp"), encoding="utf-8") as f:
        line = f.readline()
    assert line.startswith("// modules:"), name
    return line.split(":", 1)[1].split()


PER_FILE = {
    "basiclog/src/helper.cpp": f"-include {PORT}/pre_helper.h",
    "basicsys/src/sys_strcombine.cpp": f"-include {PORT}/pre_sys_strcombine.h",
    "basicsys/src/sys_json.cpp": f"-include {PORT}/pre_sys_json.h",
    "basicimg/src/img_draw_macos_impl.cpp": f"-include {PORT}/pre_img_draw_macos_impl.h",
    "basicsys/src/sys_path.cpp": "-DfileNames=filePaths",
}

# Template-heavy files: optimising them under sanitizers costs minutes.
HEAVY = ("basicmath/src/mt_mat.cpp", "basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_pooling.cpp")

MODULES = ["basiclog", "basicsys", "basicmath", "basicimg"]


def module_flags(name):
    flags = [f"-I{REPO}/{name}/src/stdafx"]
    for m in MODULES:
        if m == "basicmath" and name not in ("basicmath", "basicimg"):
            continue
        if m == "basicimg" and name != "basicimg":
            continue
        flags.append(f"-I{REPO}/{m}/include")
    if name == "basicimg":
        flags += ["-fms-extensions", f"-isystem {REPO}/basic_thrid_libs/lib_opencv/341/include"]
    return " ".join(flags)


def generate(config, harnesses):
    out = os.path.join(VERIF, "build", config)
    os.makedirs(out, exist_ok=True)
    base = f"-std=c++11 -stdlib=libc++ -fopenmp -w -include {PORT}/compat.h -I{PORT} " + CONFIGS[config]
    link = "-stdlib=libc++ -fopenmp -lpthread " + CONFIGS[config]
    lines = [
        "ninja_required_version = 1.5",
        "rule cxx",
        f"  command = clang++-18 {base} $flags -MD -MF $out.d -c $in -o $out",
        "  depfile = $out.d",
        "  deps = gcc",
        "rule pch",
        f"  command = clang++-18 {base} $flags -MD -MF $out.d -x c++-header $in -o $out",
        "  depfile = $out.d",
        "  deps = gcc",
        "rule cxxp",
        f"  command = clang++-18 {base.replace('-include ' + PORT + '/compat.h', '')} -include-pch $pch $flags -MD -MF $out.d -c $in -o $out",
        "  depfile = $out.d",
        "  deps = gcc",
        "rule link",
        f"  command = clang++-18 $in $libs -o $out {link}",
        "rule ar",
        "  command = rm -f $out && ar crs $out $in",
    ]
    objs = {}
    need = set()
    for h in harnesses:
        need |= set(harness_modules(h))
    for m in MODULES:
        if m not in need:
            continue
        objs[m] = []
        mf = module_flags(m)
        # Most of the time goes into parsing the same headers: each module's stdafx.h is precompiled.
        pch = None
        if os.path.exists(f"{REPO}/{m}/src/stdafx/stdafx.h"):
            pch = os.path.join(out, m + ".pch")
            lines.append(f"build {pch}: pch {REPO}/{m}/src/stdafx/stdafx.h")
            lines.append(f"  flags = {mf}")
        for src in sorted(glob.glob(f"{REPO}/{m}/src/*.cpp")):
            rel = os.path.relpath(src, REPO)
            obj = os.path.join(out, rel.replace("/", "__") + ".o")
            low = "-O0" if config in ("asan", "tsan", "mkl", "tsanmkl") and rel in HEAVY else ""
            if pch is not None and rel not in PER_FILE and not low:
                lines.append(f"build {obj}: cxxp {src} | {pch}")
                lines.append(f"  pch = {pch}")
            else:
                lines.append(f"build {obj}: cxx {src}")
            lines.append(f"  flags = {mf} {PER_FILE.get(rel, '')} {low}")
            objs[m].append(obj)
        lines.append(f"build {out}/lib{m}.a: ar {' '.join(objs[m])}")
    for h in harnesses:
        mods = harness_modules(h)
        flags = [f"-I{VERIF}/harness"]
        for m in mods:
            flags.append(f"-I{REPO}/{m}/include")
        if "basicimg" in mods:
            flags += ["-fms-extensions", f"-isystem {REPO}/basic_thrid_libs/lib_opencv/341/include"]
        ho = os.path.join(out, h + ".o")
        lines.append(f"build {ho}: cxx {VERIF}/harness/{h}.cpp")
        lines.append("  flags = " + " ".join(flags))
        deps = [ho]
        if "basicimg" in mods:
            so = os.path.join(out, "cv_stub.o")
            if f"build {so}: cxx {VERIF}/harness/cv_stub.cpp" not in lines:
                lines.append(f"build {so}: cxx {VERIF}/harness/cv_stub.cpp")
                lines.append(f"  flags = -isystem {REPO}/basic_thrid_libs/lib_opencv/341/include")
            deps.append(so)
        libs = [f"{out}/lib{m}.a" for m in reversed(mods)]
        lines.append(f"build {os.path.join(out, h)}: link {' '.join(deps)} | {' '.join(libs)}")
        lines.append(f"  libs = -Wl,--start-group {' '.join(libs)} -Wl,--end-group")
    path = os.path.join(out, "build_" + "_".join(harnesses) + ".ninja")
    text = "\n".join(lines) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return path


def build(config, harnesses, quiet=True):
    path = generate(config, harnesses)
    out = os.path.join(VERIF, "build", config)
    targets = [os.path.join(out, h) for h in harnesses]
    r = subprocess.run(["ninja", "-f", path, "-j", str(os.cpu_count() or 8), *targets], cwd=out,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        sys.stderr.write("\n".join(l[:300] for l in r.stdout.splitlines() if not l.startswith("clang++"))[-5000:])
        raise SystemExit(f"build of {harnesses} ({config}) failed")
    if not quiet:
        print(r.stdout[-300:])
    return targets


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:], quiet=False)
