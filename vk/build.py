"""Compiles /repo's current sources, for the engine (LLVM IR) and natively."""
import concurrent.futures as cf
import fcntl, glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SYMX = os.path.join(BUILD, "symx")
INC = ["-I" + REPO + "/src", "-I" + REPO + "/app", "-I" + VERIF + "/rt"]
IRBASE = ["-w", "-O2", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
          "-fno-pic", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-gline-tables-only", "-c", "-emit-llvm"]
IRCXX = ["-std=c++11", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["make", "-C", os.path.join(VERIF, "engine"), "-j8", "OUT=" + BUILD])
    return SYMX


def sources():
    return sorted(glob.glob(REPO + "/src/*.cc") + glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*.c"))


def ir_cmd(src, out, extra=()):
    if src.endswith(".c"):
        return ["clang-18"] + IRBASE + INC + list(extra) + [src, "-o", out]
    return ["clang++-18"] + IRBASE + IRCXX + INC + list(extra) + [src, "-o", out]


def ir_repo(d):
    """IR of all of /repo/src and of the libc/libstdc++ models; returns the modules."""
    jobs, outs = [], []
    for s in sources():
        o = os.path.join(d, os.path.basename(s) + ".bc")
        jobs.append(ir_cmd(s, o))
        outs.append(o)
    o = os.path.join(d, "rtc.bc")
    jobs.append(ir_cmd(VERIF + "/rt/rtc.cc", o, ["-fno-builtin", "-ffreestanding"]))
    outs.append(o)
    o = os.path.join(d, "rtcxx.bc")
    jobs.append(ir_cmd(VERIF + "/rt/rtcxx.cc", o, ["-fno-builtin"]))
    outs.append(o)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    return outs


def ir_harness(d, src, defs, name):
    o = os.path.join(d, name + ".bc")
    sh(ir_cmd(src, o, ["-D" + x for x in defs]))
    return o


def ir_app(d, name):
    o = os.path.join(d, "app_%s.bc" % name)
    if not os.path.exists(o):
        sh(ir_cmd("%s/app/%s.cc" % (REPO, name), o))
    return o


NATIVE = {
    "plain": ["-O2", "-DNDEBUG", "-g1", "-w"],
    "asan": ["-O1", "-DNDEBUG", "-g1", "-w", "-fsanitize=address,undefined",
             "-fno-sanitize=float-divide-by-zero,vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}


def nat_cmd(src, out, kind, extra=()):
    if src.endswith(".c"):
        return ["gcc"] + NATIVE[kind] + INC + list(extra) + ["-c", src, "-o", out]
    return ["g++", "-std=c++11"] + NATIVE[kind] + INC + list(extra) + ["-c", src, "-o", out]


def native_lib(d, kind):
    lib = os.path.join(d, "librepo-%s.a" % kind)
    if os.path.exists(lib):
        return lib
    objs, jobs = [], []
    for s in sources() + [VERIF + "/rt/symnative.cc"]:
        o = os.path.join(d, os.path.basename(s) + "-" + kind + ".o")
        objs.append(o)
        jobs.append(nat_cmd(s, o, kind))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    sh(["ar", "crs", lib] + objs)
    return lib


def native_app(d, name, kind):
    o = os.path.join(d, "app_%s-%s.o" % (name, kind))
    if not os.path.exists(o):
        sh(nat_cmd("%s/app/%s.cc" % (REPO, name), o, kind))
        m = "app_%s_main" % name
        sh(["objcopy", "--redefine-sym", "main=" + m, o])
        # the tool's own functions stay apart from those of other tools; shared (weak) ones stay shared
        own = [l.split()[-1] for l in sh(["nm", "--defined-only", "-g", o]).splitlines()
               if len(l.split()) == 3 and l.split()[1] in "TDBRC"]
        own = [x for x in own if x != m]
        if own:
            sh(["objcopy"] + ["--localize-symbol=" + x for x in own] + [o])
    return o


def native(d, src, defs, name, kind, apps=()):
    exe = os.path.join(d, name + "-" + kind)
    if os.path.exists(exe):
        return exe
    lib = native_lib(d, kind)
    o = exe + ".o"
    sh(nat_cmd(src, o, kind, ["-D" + x for x in defs]))
    o = [o] + [native_app(d, a, kind) for a in apps]
    sh(["g++"] + NATIVE[kind] + o + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-lz", "-o", exe]
       if os.path.exists("/usr/include/zlib.h") else ["g++"] + NATIVE[kind] + o + [lib, "-o", exe])
    return exe
