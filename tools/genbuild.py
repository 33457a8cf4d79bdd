#!/usr/bin/env python3
"""Generate build/sim.ninja: RoughPy's own sources (taken from the compile
database of a cmake configure of /repo) and the scenarios compiled with the
simulator's instrumentation, the simulator itself compiled without it, and the
link of build/rpysim."""
import glob, json, os, shlex
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("RPYSIM_BUILD", V + "/build")
CFG = B + "/cfg"
REPO = "/repo"
LIBS = ["RoughPy_Core", "RoughPy_Platform", "RoughPy_Scalars", "RoughPy_Intervals",
        "RoughPy_Algebra", "RoughPy_Streams", "Libalgebra_lite"]
SAN = ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"]
BASE = ["-O1", "-g1", "-fno-pie", "-w"]
WRAP = ["memcpy", "memmove", "memset", "memcmp", "_ZN3rpy3mem18small_object_allocEm",
        "_ZN3rpy3mem17small_object_freeEPvm", "_ZN3rpy3mem15SmallObjectBasenwEm",
        "_ZN3rpy3mem15SmallObjectBasedlEPvm"]
RUNTIME = ["simrt.cpp", "driver.cpp"]

def lib_objects(cc, w, skip=lambda s: False, san=SAN, odir="tsan", libs=LIBS, base=BASE):
    objs = []
    pch = {}
    heavy = ("lite_context.cpp", "lie_increment_stream", "categorical", "dynamically", "scalar_array")
    for c in sorted(cc, key=lambda c: not any(h in c["file"] for h in heavy)):
        tgt = c["output"].split("CMakeFiles/")[1].split(".dir")[0]
        if tgt not in libs: continue
        src = c["file"]
        if "cmake_pch" in src: continue
        if src.endswith(("polynomial_type/polynomial_type.cpp", "generics/polynomial_types.cpp")): continue
        if skip(src): continue
        a = shlex.split(c["command"])
        flags = []
        i = 1
        while i < len(a):
            x = a[i]
            if x in ("-o", "-c", "-MF"): i += 2; continue
            if x in ("-Winvalid-pch", "-O3", "-fPIC", "-MMD", "-fno-omit-frame-pointer"): i += 1; continue
            if x == src: i += 1; continue
            if x == "-include" and "cmake_pch" in a[i+1]:
                flags += ["-include", a[i+1]]; i += 2; continue
            flags.append(x); i += 1
        f = [y.replace("/repo/_build", CFG) for y in flags]
        f += base + san
        dep = ""
        if "-include" in f:
            k = f.index("-include")
            hxx = f[k+1]
            f = f[:k] + f[k+2:]
            d = f"{B}/{odir}/pch/{tgt}"
            if tgt not in pch:
                pch[tgt] = f
                os.makedirs(d, exist_ok=True)
                txt = open(hxx).read()
                if not os.path.exists(d + "/p.hxx") or open(d + "/p.hxx").read() != txt:
                    open(d + "/p.hxx", "w").write(txt)
                w(f"build {d}/p.hxx.gch: cc {d}/p.hxx\n  cc = g++ -x c++-header\n  flags = {' '.join(shlex.quote(y) for y in f)}")
            # the same flags or no use of the precompiled header
            f = ["-include", d + "/p.hxx"] + f
            if pch[tgt] == f[2:]: dep = f" | {d}/p.hxx.gch"
        obj = f"{B}/{odir}/" + os.path.relpath(src, REPO).replace("/", "_") + ".o"
        if obj in objs: continue
        objs.append(obj)
        w(f"build {obj}: cc {src}{dep}\n  cc = {'g++' if src.endswith('.cpp') else 'gcc'}\n  flags = {' '.join(shlex.quote(y) for y in f)}")
    return objs

def main():
    cc = json.load(open(CFG + "/compile_commands.json"))
    out = []
    w = out.append
    w("ninja_required_version = 1.3")
    w("builddir = " + B)
    w("rule cc\n  command = $cc $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out")
    w("rule rt\n  command = ccache g++ $flags -MD -MF $out.d -c $in -o $out && objcopy "
      "--redefine-sym memcpy=__real_memcpy --redefine-sym memset=__real_memset "
      "--redefine-sym memmove=__real_memmove --redefine-sym memcmp=__real_memcmp $out\n"
      "  depfile = $out.d\n  deps = gcc\n  description = RT $out")
    w("rule link\n  command = g++ -no-pie -o $out @$out.rsp -lboost_url -lboost_system -lgmp -lsndfile "
      "-lOpenCL -ldl -lpthread\n  rspfile = $out.rsp\n  rspfile_content = $in " +
      " ".join("-Wl,--wrap=" + s for s in WRAP) + " -Wl,--build-id=none\n  description = LINK $out")
    objs = lib_objects(cc, w)
    inc = []
    for m in ("streams", "algebra", "platform", "core", "scalars", "intervals"):
        inc += [f"-I{REPO}/{m}/include", f"-I{CFG}/{m}"]
    inc += [f"-I{CFG}/vendored/libalgebra_lite", f"-I{REPO}/vendored", f"-I{REPO}/vendored/libalgebra_lite/include",
            f"-I{REPO}/streams/src", f"-I{V}/sim", "-isystem", "/usr/include/eigen3"]
    # the definitions the streams library is compiled with, without its own export macros
    defs = ["-DNDEBUG"]
    for c in cc:
        if "CMakeFiles/RoughPy_Streams.dir" in c["output"] and c["file"].endswith("stream.cpp"):
            for x in shlex.split(c["command"]):
                if x.startswith("-D") and x not in defs and "EXPORT" not in x.upper() and "COMPILING" not in x:
                    defs.append(x)
            break
    defs = [shlex.quote(x) for x in defs]
    for s in sorted(glob.glob(V + "/sim/*.cpp")):
        n = os.path.basename(s)
        if n.startswith("py_"): continue
        o = f"{B}/sim/{n}.o"
        objs.append(o)
        if n in RUNTIME:
            w(f"build {o}: rt {s}\n  flags = -std=c++17 -O2 -g1 -fno-pie -Wall")
        else:
            w(f"build {o}: cc {s}\n  cc = g++\n  flags = {' '.join(['-std=gnu++17'] + BASE + SAN + defs + inc)}")
    w(f"build {B}/rpysim: link " + " ".join(objs))
    # the Python extension module inside an embedded interpreter
    w("rule pylink\n  command = g++ -no-pie -rdynamic -o $out @$out.rsp -lboost_url -lboost_system -lgmp -lsndfile "
      "-lOpenCL -lz -lexpat -lutil -lm -ldl -lpthread\n  rspfile = $out.rsp\n  rspfile_content = $in "
      "-lpython3.12 " +
      " ".join("-Wl,--wrap=" + s for s in WRAP) + " -Wl,--build-id=none\n  description = LINK $out")
    pobjs = [o for o in objs if not os.path.basename(o).startswith("sc_")]
    pobjs += lib_objects(cc, w, libs=["RoughPy_PyModule"])
    import re
    names = re.findall(r"^@op\((.*?)\)\ndef (\w+)", open(V + "/sim/py_ops.py").read(), re.M)
    names.sort(key=lambda x: 0 if "stream" in x[0] else 1)
    h = "#define PY_NOPS %d\n#define PY_NSTREAM %d\n#define PY_NAMES {%s}\n" % (
        len(names), sum("stream" in x[0] for x in names), ", ".join('"%s"' % x[1] for x in names))
    os.makedirs(B + "/gen", exist_ok=True)
    if not os.path.exists(B + "/gen/py_names.h") or open(B + "/gen/py_names.h").read() != h:
        open(B + "/gen/py_names.h", "w").write(h)
    inc = inc + [f"-I{B}/gen", f'-DPY_OPS_DIR=\\"{V}/sim\\"']
    for s in sorted(glob.glob(V + "/sim/py_*.cpp")):
        o = f"{B}/sim/{os.path.basename(s)}.o"
        pobjs.append(o)
        w(f"build {o}: cc {s}\n  cc = g++\n  flags = {' '.join(['-std=gnu++17'] + BASE + defs + inc + ['-isystem', '/usr/include/python3.12'])}")
    w(f"build {B}/pysim: pylink " + " ".join(pobjs))
    w(f"build pysim: phony {B}/pysim")
    w(f"build all: phony {B}/rpysim")
    w("default all")
    open(B + "/sim.ninja.new", "w").write("\n".join(out) + "\n")
    try:
        same = open(B + "/sim.ninja").read() == open(B + "/sim.ninja.new").read()
    except OSError:
        same = False
    if same: os.unlink(B + "/sim.ninja.new")
    else: os.replace(B + "/sim.ninja.new", B + "/sim.ninja")
main()
