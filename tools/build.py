#!/usr/bin/env python3
"""Builds modules of /repo's working tree and a harness against them, in /verif/build/<variant>.
usage: build.py VARIANT HARNESS [module...]   prints the path of the executable"""
import os, sys, glob, subprocess, hashlib, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
PORT = VERIF + "/port"
MODS = ["basiclog", "basicsys", "basicmath", "basicimg"]
PRE = {"basiclog/helper.cpp": "pre_helper.h", "basicsys/sys_strcombine.cpp": "pre_sys_strcombine.h",
       "basicsys/sys_json.cpp": "pre_sys_json.h", "basicimg/img_draw_macos_impl.cpp": "pre_img_draw_macos_impl.h"}
WRAP = "-Wl,--wrap=malloc -Wl,--wrap=free -Wl,--wrap=realloc -Wl,--wrap=calloc"
MKL = f" -Dbasicsys_enable_mkl -I{VERIF}/harness/mkl"   # the configuration with MKL, on a stand-in for it
VARIANTS = {   # (flags for /repo's sources, flags for the harness, link flags)
    "plain": ("-O1 -ftrivial-auto-var-init=pattern", "-O1", WRAP),
    "fast": ("-O2", "-O2", WRAP),
    "asan": ("-O1 -fsanitize=address,bool,bounds,integer-divide-by-zero -fsanitize-trap=bool,bounds,integer-divide-by-zero -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern", "-O1 -fsanitize=address -fno-omit-frame-pointer", "-fsanitize=address"),
    "mkl": ("-O1 -fsanitize=address,bool,bounds,integer-divide-by-zero -fsanitize-trap=bool,bounds,integer-divide-by-zero -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern" + MKL, "-O1 -fsanitize=address -fno-omit-frame-pointer" + MKL, "-fsanitize=address"),
    "mklsched": ("-O1 -fsanitize=thread -ftrivial-auto-var-init=pattern" + MKL, "-O1" + MKL, WRAP),
    "sched": ("-O1 -fsanitize=thread -ftrivial-auto-var-init=pattern", "-O1", WRAP),
}
SEM = "-fno-strict-aliasing -fwrapv -fno-delete-null-pointer-checks"

def esc(s): return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def build(variant, harness, modules, extra="", hvariant=None):
    """modules: those of MODS whose sources are linked"""
    rf, hf, lf = VARIANTS[variant]
    out = f"{VERIF}/build/{variant}"
    os.makedirs(out, exist_ok=True)
    base = f"-std=c++11 -stdlib=libc++ -fopenmp -g1 -w {SEM} -include {PORT}/compat.h -I{PORT}"
    lines = ["ninja_required_version = 1.5",
             "rule cc", "  command = clang++-18 $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = $out",
             "rule ar", "  command = rm -f $out && llvm-ar-18 rcs $out $in", "  description = $out",
             "rule ln", "  command = clang++-18 $flags -o $out $in $libs", "  description = $out"]
    ar = "llvm-ar-18" if shutil.which("llvm-ar-18") else "ar"
    lines = [l.replace("llvm-ar-18", ar) for l in lines]
    libs = []
    for m in modules:
        objs = []
        inc = f"-I{REPO}/{m}/src/stdafx " + " ".join(f"-I{REPO}/{x}/include" for x in MODS
              if not (x == "basicmath" and m not in ("basicmath", "basicimg")) and not (x == "basicimg" and m != "basicimg"))
        for src in sorted(glob.glob(f"{REPO}/{m}/src/*.cpp")):
            b = os.path.basename(src)
            fl = f"{base} {rf} {inc}"
            key = f"{m}/{b}"
            if m == "basicimg": fl += f" -fms-extensions -isystem {REPO}/basic_thrid_libs/lib_opencv/341/include"
            if key in PRE: fl += f" -include {PORT}/{PRE[key]}"
            if key == "basicsys/sys_path.cpp": fl += " -DfileNames=filePaths"
            o = f"{out}/{m}_{b[:-4]}.o"
            lines += [f"build {esc(o)}: cc {esc(src)}", f"  flags = {fl}"]
            objs.append(o)
        lib = f"{out}/lib{m}.a"
        lines.append(f"build {esc(lib)}: ar " + " ".join(esc(o) for o in objs))
        libs.append(lib)
    hinc = " ".join(f"-I{REPO}/{x}/include" for x in MODS) + f" -I{VERIF}/harness"
    if "basicmath" in modules: hinc += " -DMC_MATH"
    if "basicimg" in modules: hinc += f" -DMC_IMG -fms-extensions -isystem {REPO}/basic_thrid_libs/lib_opencv/341/include"
    hobjs = []
    srcs = [f"{VERIF}/harness/{harness}.cpp", f"{VERIF}/harness/mcsched.cpp"]
    if lf == WRAP: srcs.append(f"{VERIF}/harness/mcpoison.cpp")
    if variant.endswith("sched"): srcs.append(f"{VERIF}/harness/mcsched_tsan.cpp")
    if "basicimg" in modules: srcs.append(f"{VERIF}/harness/cv_stub.cpp")
    for s in srcs:
        n = os.path.basename(s)[:-4]
        o = f"{out}/h_{n}.o"
        std = base.replace("c++11", "c++17") if n == harness else base
        lines += [f"build {esc(o)}: cc {esc(s)}", f"  flags = {std} {hf} {hinc} {extra if n == harness else ''}"]
        hobjs.append(o)
    exe = f"{out}/{harness}"
    # libomp is not linked: the harness brings its own runtime
    lines += [f"build {esc(exe)}: ln " + " ".join(esc(o) for o in hobjs) + " | " + " ".join(esc(l) for l in libs),
              f"  flags = -stdlib=libc++ -no-pie {lf} -rdynamic", "  libs = -Wl,--start-group " + " ".join(libs) + " -Wl,--end-group -lpthread -ldl"]
    nf = f"{out}/{harness}.ninja"
    text = "\n".join(lines) + "\n"
    if not (os.path.exists(nf) and open(nf).read() == text):
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-C", out, "-f", nf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit(2)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], sys.argv[3:] or MODS))
