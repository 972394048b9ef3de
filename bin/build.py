#!/usr/bin/env python3
"""Builds a simulator flavour from /repo's current working tree.

The build directory is keyed by a hash of every input (repository sources,
simulator sources, flags), so that a stale object can never be used and
time stamps are irrelevant.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

EXCLUDE = re.compile(
    r"/codegen/|/numdiff/cost\.cpp\.in$")
GROUPS = 8
FORMAT = 2

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", 
          "-DCROCODDYL_WITH_IPOPT", "-DHAVE_CSTDDEF", "-w"]
# Float code is reached only by cast(); all flavours but "fl" leave its
# symbols open.
LINK = ["-no-pie", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all"]
FLAVOURS = {
    "st": {
        "repo": ["-O1", "-D_GLIBCXX_ASSERTIONS",
                 "-fsanitize-coverage=trace-pc",
                 "-include", "{sim}/st/assert_override.hpp"],
        "sim": ["-O1", "-D_GLIBCXX_ASSERTIONS",
                "-include", "{sim}/st/assert_override.hpp"],
        "rt": ["-O2"],
        "link": LINK,
        "dirs": ["common", "st"],
        "rtfiles": ["st/rt.cpp"],
    },
    "mt": {
        "repo": ["-O1", "-DNDEBUG", "-fopenmp", "-fsanitize=thread",
                 "-DCROCODDYL_WITH_MULTITHREADING",
                 "-DCROCODDYL_WITH_NTHREADS=4", "-DSIM_MT"],
        "sim": ["-O1", "-DNDEBUG", "-fopenmp", "-fsanitize=thread",
                "-DCROCODDYL_WITH_MULTITHREADING",
                "-DCROCODDYL_WITH_NTHREADS=4", "-DSIM_MT"],
        "rt": ["-O2", "-fno-builtin", "-DSIM_MT"],
        "link": LINK + ["-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove,"
                        "--wrap=memcmp"],
        "dirs": ["common", "mt"],
        "rtfiles": ["mt/rt.cpp", "mt/omp.cpp", "common/main.cpp"],
    },
}
# the single-threaded flavour with the float instantiation of the library
FLAVOURS["fl"] = dict(FLAVOURS["st"], dirs=["common", "fl"],
                      files=["st/rt.cpp"], scalars=("double", "float"),
                      sim=FLAVOURS["st"]["sim"] + ["-DSIM_CAST"])


def walk(root, exts=None):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if exts is None or f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def digest(parts, files):
    h = hashlib.sha256()
    h.update(repr(parts).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def repo_hash(flavour):
    """Everything the objects of the library depend on."""
    files = walk(REPO + "/include", (".hpp", ".hxx", ".h"))
    files += walk(REPO + "/src/core")
    files.append(VERIF + "/sim/st/assert_override.hpp")
    files += walk(VERIF + "/sim/common/stub")
    return digest((flavour, FLAVOURS[flavour], COMMON, GROUPS, FORMAT), files)


def sim_files(flavour):
    out = []
    for d in FLAVOURS[flavour]["dirs"]:
        out += walk(VERIF + "/sim/" + d)
    out += [VERIF + "/sim/" + f for f in FLAVOURS[flavour].get("files", ())]
    return out


def hdr_files(flavour):
    """Simulator files that others include."""
    return [f for f in sim_files(flavour) if f.endswith(".hpp")] + \
        [VERIF + "/sim/st/rt.cpp"]


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def gen(flavour, out):
    cfg = FLAVOURS[flavour]
    sim = VERIF + "/sim"
    inc = out + "/include"
    pch = open(REPO + "/include/crocoddyl/core/pch.hpp").read()
    pch = "".join(l for l in pch.splitlines(True)
                  if not l.startswith("#include <pinocchio/") or
                  "utils/static-if" in l)
    write(inc + "/crocoddyl/core/pch.hpp", pch)
    cfgtxt = ("#ifndef CROCODDYL_CONFIG_HPP\n#define CROCODDYL_CONFIG_HPP\n"
              "#define CROCODDYL_DLLAPI\n"
              "#define CROCODDYL_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI\n"
              "#define CROCODDYL_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI\n"
              "#endif\n")
    if os.path.exists("/opt/vp/harness/config.hpp"):
        cfgtxt = open("/opt/vp/harness/config.hpp").read()
    write(inc + "/crocoddyl/config.hpp", cfgtxt)
    core = REPO + "/src/core"
    templates = [f for f in walk(core) if re.search(r"\.cpp(_fptype)?\.in$", f)
                 and not EXCLUDE.search(f)]
    sources = [f for f in walk(core, (".cpp",))]
    units = []
    for i, t in enumerate(templates):
        for s in cfg.get("scalars", ("double",)):
            txt = open(t).read().replace("@SCALAR_TYPE@", s)
            rel = os.path.relpath(t, core).replace("/", "_")
            p = "%s/gen/%s-%s.ipp" % (out, rel, s)
            write(p, txt)
            units.append(p)
    groups = [[] for _ in range(GROUPS)]
    for i, u in enumerate(units):
        groups[i % GROUPS].append(u)
    tus = []
    for i, g in enumerate(groups):
        p = "%s/gen/group%d.cpp" % (out, i)
        write(p, "".join('#include "%s"\n' % u for u in g))
        tus.append((p, "repo"))
    # long compilations first
    slow = ["intro.cpp", "ddp.cpp"]
    sources.sort(key=lambda f: os.path.basename(f) not in slow)
    tus = [(s, "repo") for s in sources[:2]] + tus
    for s in sources[2:]:
        tus.append((s, "repo"))
    hdr = digest((), hdr_files(flavour))
    for f in sim_files(flavour):
        if f.endswith(".cpp"):
            rel = os.path.relpath(f, sim)
            tus.append((f, "rt" if rel in cfg["rtfiles"] else "sim"))
    incs = ["-I" + inc, "-I" + sim, "-I" + sim + "/common/stub",
            "-I" + REPO + "/include",
            "-I/usr/include/coin", "-I/usr/include/eigen3"]
    n = ["ninja_required_version = 1.3\n"]
    for kind in ("repo", "sim", "rt"):
        fl = COMMON + [a.format(sim=sim) for a in cfg[kind]] + incs
        n.append("rule cxx_%s\n  command = g++ %s -MMD -MF $out.d -c $in -o "
                 "$out\n  depfile = $out.d\n  deps = gcc\n  description = CXX "
                 "$in\n" % (kind, " ".join(fl)))
    # what is referred to (cast) but never run: any address does
    ld = ("g++ $in %%s -o %%s %s -lipopt -lboost_serialization "
          "-lboost_filesystem -lboost_system -ldl -lpthread"
          % " ".join(cfg["link"]))
    n.append("rule link\n  command = " + ld % ("", "$out.t") +
             " && nm -u $out.t | awk '/ U _Z.*9crocoddyl/{print \".data\\n.globl \" "
             "$$2 \"\\n\" $$2 \": .zero 256\"}' > $out.s && rm $out.t && " +
             ld % ("$out.s", "$out") + "\n")
    objs = []
    for i, (src, kind) in enumerate(tus):
        # simulator objects are named after their content
        tag = "%03d" % i if kind == "repo" else digest(hdr, [src])
        o = "%s/obj/%s_%s.o" % (out, tag, os.path.basename(src))
        n.append("build %s: cxx_%s %s" % (o, kind, src))
        objs.append(o)
    n.append("build lib: phony " + " ".join(
        "%s/obj/%03d_%s.o" % (out, i, os.path.basename(src))
        for i, (src, kind) in enumerate(tus) if kind == "repo"))
    exe = "%s/sim-%s" % (out, digest(hdr, sim_files(flavour) + [os.path.abspath(__file__)]))
    n.append("build %s: link %s" % (exe, " ".join(objs)))
    n.append("default %s" % exe)
    write(out + "/build.ninja", "\n".join(n) + "\n")
    return exe


def build(flavour, verbose=False):
    key = repo_hash(flavour)
    os.makedirs(BUILD, exist_ok=True)
    out = "%s/%s-%s" % (BUILD, flavour, key)
    lock = open("%s/%s.lock" % (BUILD, flavour), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hdr = digest((), hdr_files(flavour))
        exe = "%s/sim-%s" % (out, digest(hdr, sim_files(flavour) + [os.path.abspath(__file__)]))
        if os.path.exists(exe + ".ok"):
            os.utime(out)
            return exe
        # only the most recent builds are kept
        keep = int(os.environ.get("VERIF_KEEP_BUILDS", "1"))
        olds = sorted((d for d in os.listdir(BUILD)
                       if d.startswith(flavour + "-") and
                       os.path.join(BUILD, d) != out),
                      key=lambda d: os.path.getmtime(BUILD + "/" + d))
        for old in olds[:max(0, len(olds) - keep + 1)]:
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        if not os.path.exists(out + "/LIB"):
            shutil.rmtree(out, ignore_errors=True)
        exe = gen(flavour, out)
        r = None
        for targets in (["lib", exe], ["lib"], [exe]):
            # the last two only matter when the first one failed
            if r is not None and r.returncode == 0 and targets == [exe]:
                open(out + "/LIB", "w").write(key + "\n")
            r = subprocess.run(["ninja", "-k", "0", "-C", out] + targets,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0 and exe in targets:
                open(out + "/LIB", "w").write(key + "\n")
                break
            if r.returncode != 0 and "lib" not in targets[1:] and \
                    len(targets) == 1:
                sys.stderr.write(r.stdout[-8000:])
                raise SystemExit("build of flavour %s failed (see above)"
                                 % flavour)
        if verbose:
            print(r.stdout[-300:])
        open(exe + ".ok", "w").write("ok\n")
        return exe
    finally:
        lock.close()


if __name__ == "__main__":
    for f in sys.argv[1:] or list(FLAVOURS):
        print(build(f, True))
