#!/usr/bin/env python3
"""build.py DEMO.cpp OUT [component ...]: compiles the HELICS library of the current directory's tree (test and
inproc cores, real threads) with the stand-ins for the absent submodules beside this file, and links DEMO.cpp."""
import glob, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
KIT = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
demo, out = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
comps = sys.argv[3:] or ["core", "common", "application_api", "network", "network/test", "network/inproc"]
work = os.path.dirname(out)
gen = os.path.join(work, "gen")
os.makedirs(os.path.join(gen, "helics"), exist_ok=True)
on = {"HELICS_ENABLE_TEST_CORE", "HELICS_ENABLE_INPROC_CORE", "HELICS_ENABLE_LOGGING"}
vals = {"HELICS_VERSION_MAJOR": "3", "HELICS_VERSION_MINOR": "7", "HELICS_VERSION_PATCH": "0",
        "HELICS_VERSION": "3.7.0", "HELICS_VERSION_STRING": "3.7.0", "HELICS_COMPILER_VERSION": "demo"}
cfg = []
for line in open(os.path.join(REPO, "config/helics-config.h.in")):
    m = re.match(r"#cmakedefine (\w+)", line)
    if m:
        cfg.append("#define %s\n" % m.group(1) if m.group(1) in on else "\n")
    else:
        cfg.append(re.sub(r"\$\{(\w+)\}", lambda k: vals.get(k.group(1), ""), line))
open(os.path.join(gen, "helics/helics-config.h"), "w").write("".join(cfg))
for h in ("helics.h", "helics_api.h"):
    s = os.path.join(REPO, "src/helics/shared_api_library/backup/helics", h)
    if os.path.exists(s):
        open(os.path.join(gen, "helics", h), "w").write(open(s).read())
for b, f in (("HELICS_CXX", "helics_cxx_export.h"), ("HELICS", "helics_export.h")):
    open(os.path.join(gen, f), "w").write("#pragma once\n" + "".join(
        "#define %s_%s\n" % (b, x) for x in ("EXPORT", "NO_EXPORT", "DEPRECATED", "DEPRECATED_EXPORT", "DEPRECATED_NO_EXPORT")))
src = os.path.join(REPO, "src/helics")
skip = {"MessageTimer.cpp", "appMain.cpp", "connectorMain.cpp", "helics-broker-server.cpp", "helics-broker.cpp", "playerMain.cpp",
        "recorderMain.cpp", "helicsWebServer.cpp", "RestApiConnection.cpp", "helicsAppsExportNull.cpp"}
listed = ""
for cm in ("core", "common", "application_api", "apps", "network", "shared_api_library"):
    for line in open(os.path.join(src, cm, "CMakeLists.txt")):
        listed += line.split("#")[0]
names = set(re.findall(r"[\w-]+\.cpp", listed))
files = [demo] + sorted(glob.glob(KIT + "/shim/**/*.cpp", recursive=True))
for c in comps:
    if c.endswith(".cpp"):
        files.append(os.path.join(src, c))
        continue
    for f in sorted(glob.glob(os.path.join(src, c, "*.cpp"))):
        if os.path.basename(f) in names and os.path.basename(f) not in skip:
            files.append(f)
flags = ("-std=c++20 -O0 -w -fPIC -pthread -DCLI11_HAS_FILESYSTEM=1 -DUSE_STD_OPTIONAL=1 -DHELICS_STATIC_CORE_LIBRARY "
         "-DHELICS_CXX_STATIC_DEFINE -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DHELICS_DISABLE_ASIO").split()
flags += os.environ.get("DEMO_FLAGS", "").split()
flags += ["-I" + gen, "-I" + os.path.join(REPO, "src"), "-I" + KIT + "/shim", "-I" + KIT + "/shim/gmlc/containers",
          "-I" + os.path.dirname(demo), "-isystem", os.path.join(REPO, "ThirdParty")]
def cc(f):
    o = os.path.join(work, re.sub(r"\W", "_", os.path.relpath(f, "/")) + ".o")
    r = subprocess.run(["clang++"] + flags + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return o, r
with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    res = list(ex.map(cc, files))
bad = [r.stdout for _, r in res if r.returncode]
if bad:
    print("\n".join(b[-2000:] for b in bad[:3]))
    sys.exit(3)
r = subprocess.run(["clang++", "-fuse-ld=lld", "-pthread", "-o", out] + [o for o, _ in res] + ["-lspdlog", "-lfmt", "-ldl"])
sys.exit(3 if r.returncode else 0)
