#!/usr/bin/env python3
"""Builds the simulated HELICS from /repo's working tree into /verif/build (ninja + ccache).

usage: build.py [target ...]     (default: all simulation binaries)
Environment: VERIF_REPO (default /repo), VERIF_BUILD (default /verif/build)
"""
import fcntl, glob, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/clang++"

def writeIfChanged(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)

def generate():
    gen = os.path.join(BUILD, "gen")
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\(\s*HELICS\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", top)
    d = re.search(r'set\(HELICS_DATE "([^"]*)"\)', top)
    ver = m.groups() if m else ("3", "7", "0")
    date = d.group(1) if d else ""
    on = {"HELICS_ENABLE_ZMQ_CORE", "HELICS_ENABLE_TCP_CORE", "HELICS_ENABLE_UDP_CORE",
          "HELICS_ENABLE_TEST_CORE", "HELICS_ENABLE_INPROC_CORE", "HELICS_ENABLE_LOGGING",
          "HELICS_ENABLE_TRACE_LOGGING", "HELICS_ENABLE_DEBUG_LOGGING"}
    vals = {"HELICS_VERSION_MAJOR": ver[0], "HELICS_VERSION_MINOR": ver[1],
            "HELICS_VERSION_PATCH": ver[2], "HELICS_VERSION": ".".join(ver),
            "HELICS_VERSION_BUILD": "", "HELICS_DATE": date,
            "HELICS_VERSION_STRING": "%s (%s)" % (".".join(ver), date),
            "HELICS_COMPILER_VERSION": "sim"}
    out = []
    for line in open(os.path.join(REPO, "config/helics-config.h.in")):
        m = re.match(r"#cmakedefine (\w+)", line)
        if m:
            out.append("#define %s\n" % m.group(1) if m.group(1) in on else "/* #undef %s */\n" % m.group(1))
        else:
            out.append(re.sub(r"\$\{(\w+)\}", lambda k: vals.get(k.group(1), ""), line))
    writeIfChanged(os.path.join(gen, "helics/helics-config.h"), "".join(out))
    for h in ("helics.h", "helics_api.h"):
        src = os.path.join(REPO, "src/helics/shared_api_library/backup/helics", h)
        if os.path.exists(src):
            writeIfChanged(os.path.join(gen, "helics", h), open(src).read())
    for base, fname in (("HELICS_CXX", "helics_cxx_export.h"), ("HELICS", "helics_export.h")):
        b = base
        writeIfChanged(os.path.join(gen, fname),
            "#pragma once\n#define %s_EXPORT\n#define %s_NO_EXPORT\n"
            "#define %s_DEPRECATED __attribute__((__deprecated__))\n"
            "#define %s_DEPRECATED_EXPORT %s_DEPRECATED\n"
            "#define %s_DEPRECATED_NO_EXPORT %s_DEPRECATED\n" % (b, b, b, b, b, b, b))
    return gen

EXCLUDE = {
    "network": {"mpi", "ipc"},
}
SKIP_FILES = {
    # executables and the boost-beast web server
    "appMain.cpp", "connectorMain.cpp", "helics-broker-server.cpp", "helics-broker.cpp",
    "playerMain.cpp", "recorderMain.cpp", "helicsWebServer.cpp", "RestApiConnection.cpp",
    "helicsAppsExportNull.cpp",
}
# in the tree but not part of the project's own build
NOT_BUILT = {"core/MessageTimer.cpp"} 

def repoSources():
    src = os.path.join(REPO, "src/helics")
    res = []
    for comp in ("core", "common", "application_api", "apps", "shared_api_library"):
        for f in sorted(glob.glob(os.path.join(src, comp, "*.cpp"))):
            if os.path.basename(f) in SKIP_FILES:
                continue
            res.append(f)
    for f in sorted(glob.glob(os.path.join(src, "network", "*.cpp"))):
        res.append(f)
    for sub in ("test", "inproc", "udp", "tcp", "zmq"):
        for f in sorted(glob.glob(os.path.join(src, "network", sub, "*.cpp"))):
            res.append(f)
    # what the build files leave out stays out
    listed = ""
    for cm in ("core", "common", "application_api", "apps", "network", "shared_api_library"):
        try:
            for line in open(os.path.join(src, cm, "CMakeLists.txt")):
                listed += line.split("#")[0]
        except OSError:
            pass
    names = set(re.findall(r"[\w-]+\.cpp", listed))
    return [f for f in res if os.path.basename(f) in names]

def main(targets):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = generate()
    shim = os.path.join(VERIF, "shim")
    simd = os.path.join(VERIF, "sim")
    inc = " ".join(["-I" + gen, "-I" + os.path.join(REPO, "src"), "-I" + simd, "-I" + shim,
                    "-I" + shim + "/gmlc/containers",
                    "-I" + shim + "/zmq",
                    "-isystem " + os.path.join(REPO, "ThirdParty")])
    warn = "-w"
    base = ("-std=c++20 -O1 -g1 -fno-omit-frame-pointer -fPIC -pthread -DCLI11_HAS_FILESYSTEM=1 -DUSE_STD_OPTIONAL=1 "
            "-DHELICS_STATIC_CORE_LIBRARY -DHELICS_CXX_STATIC_DEFINE -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB " + warn)
    inst = ("-fsanitize=thread -mllvm -tsan-instrument-memory-accesses=0 "
            "-mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-instrument-memintrinsics=0")
    n = []
    n.append("ninja_required_version = 1.5\nbuilddir = %s\n" % BUILD)
    ccache = "/usr/bin/ccache " if os.path.exists("/usr/bin/ccache") else ""
    n.append("rule cxx\n  command = %s%s $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out\n" % (ccache, CXX))
    n.append("rule ar\n  command = rm -f $out && /usr/bin/ar rcs $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = AR $out\n")
    n.append("rule link\n  command = %s -fuse-ld=lld -pthread -rdynamic -o $out $in $libs\n  description = LINK $out\n" % CXX)
    objs = []
    def cc(src, obj, flags):
        n.append("build %s: cxx %s\n  flags = %s\n" % (obj, src, flags))
        return obj
    for f in repoSources():
        o = os.path.join(BUILD, "obj", os.path.relpath(f, REPO)) + ".o"
        objs.append(cc(f, o, " ".join([base, inst, inc])))
    shimObjs = []
    for f in sorted(glob.glob(shim + "/**/*.cpp", recursive=True)):
        o = os.path.join(BUILD, "obj/shim", os.path.relpath(f, shim)) + ".o"
        shimObjs.append(cc(f, o, " ".join([base, inst, inc])))
    simObjs = []
    for f in ("simrt.cpp", "simnet.cpp", "simzmq.cpp"):
        p = os.path.join(simd, f)
        if os.path.exists(p):
            simObjs.append(cc(p, os.path.join(BUILD, "obj/sim", f + ".o"), " ".join([base, inc])))
    lib = os.path.join(BUILD, "libhelicssim.a")
    n.append("build %s: ar %s\n" % (lib, " ".join(objs + shimObjs)))
    libs = "-lspdlog -lfmt -ldl"
    bins = []
    common = []
    for f in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        o = os.path.join(BUILD, "obj/harness", os.path.basename(f) + ".o")
        # harness code runs under the simulator as well, instrumented like HELICS itself
        cc(f, o, " ".join([base, inst, inc, "-I" + VERIF + "/harness"]))
        if os.path.basename(f).startswith("main_"):
            b = os.path.join(BUILD, os.path.basename(f)[5:-4])
            bins.append((b, o))
        else:
            common.append(o)
    for b, o in bins:
        n.append("build %s: link %s %s %s || \n  libs = -Wl,--start-group %s -Wl,--end-group %s\n" %
                 (b, o, " ".join(common), " ".join(simObjs), lib, libs))
        n[-1] = n[-1].replace(" || \n", " | %s\n" % lib)
        n.append("build %s: phony %s\n" % (os.path.basename(b), b))
    n.append("build repo: phony %s\nbuild lib: phony %s\n" % (" ".join(objs), lib))
    n.append("default %s\n" % (" ".join(b for b, _ in bins) if bins else lib))
    writeIfChanged(os.path.join(BUILD, "build.ninja"), "\n".join(n))
    env = dict(os.environ)
    env.setdefault("CCACHE_DIR", os.path.join(BUILD, "ccache"))
    env.setdefault("CCACHE_MAXSIZE", "2G")
    env.pop("CCACHE_DISABLE", None)
    cmd = ["ninja", "-C", BUILD] + os.environ.get("NINJAFLAGS", "").split() + targets
    return subprocess.call(cmd, env=env, stdout=sys.stderr)

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
