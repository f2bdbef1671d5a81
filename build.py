#!/usr/bin/env python3
"""Builds libstxxl and the check binaries from /repo's current working tree with ninja, into /verif/build."""
import os, subprocess, sys, glob, json

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-D_LARGE_FILES", "-w", "-ftemplate-depth=1024", "-fopenmp",
          "-g1", "-fno-omit-frame-pointer"]

# flavours of the library: name -> (compile flags, config.h defines)
FLAVOURS = {
    "asan": (["-O1", "-fsanitize=address"], {}),
    "plain": (["-O1"], {}),
    "asan_ndebug": (["-O1", "-DNDEBUG", "-fsanitize=address"], {}),
    "boost": (["-O1", "-fsanitize=address"], {"BOOST": 1}),
}

CONFIG_DEFS = {
    "STXXL_VERSION_MAJOR": "1", "STXXL_VERSION_MINOR": "4", "STXXL_VERSION_PATCH": "99",
    "STXXL_VERSION_STRING": '"1.4.99"', "STXXL_VERSION_PHASE": '"prerelease/verif"',
    "STXXL_HAVE_MMAP_FILE": "1", "STXXL_HAVE_LINUXAIO_FILE": "1", "STXXL_POSIX_THREADS": "1",
    "STXXL_HAVE_CXX11_RANGE_FOR_LOOP": "1", "STXXL_HAVE_SYNC_ADD_AND_FETCH": "1", "STXXL_PARALLEL": "1",
    "STXXL_WITH_GNU_PARALLEL": "1", "STXXL_HAVE_MALLINFO_PROTO": "1", "STXXL_HAVE_MLOCK_PROTO": "1",
}
BOOST_DEFS = {"STXXL_BOOST_CONFIG": "1", "STXXL_BOOST_FILESYSTEM": "1", "STXXL_BOOST_RANDOM": "1",
              "STXXL_BOOST_THREADS": "1", "STXXL_BOOST_TIMESTAMP": "1"}


def render_config(defs):
    """config.h from the repository's own template, with the switches of this platform."""
    out = []
    for line in open(os.path.join(REPO, "include/stxxl/bits/config.h.in")):
        l = line.rstrip("\n")
        for kind in ("#cmakedefine", "#define"):
            if l.startswith(kind + " "):
                name = l.split()[1]
                if name in defs:
                    l = "#define %s %s" % (name, defs[name])
                elif kind == "#cmakedefine":
                    l = "/* #undef %s */" % name
                break
        out.append(l)
    return "\n".join(out) + "\n"


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def build(props, tag="all", quiet=True):
    """props: {binary name: dict(srcs=[...], flavour=..., flags=[...], ldflags=[...])}; returns {name: path}"""
    os.makedirs(BUILD, exist_ok=True)
    lines = ["ninja_required_version = 1.5", "rule cxx", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out",
             "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
             "rule ar", "  command = rm -f $out && ar rcs $out $in", "rule link",
             "  command = g++ $flags $in -o $out $ldflags", ""]
    used = sorted({p["flavour"] for p in props.values()})
    libsrc = [f for f in glob.glob(REPO + "/lib/**/*.cpp", recursive=True)
              if os.path.basename(f) not in ("malloc_count.cpp",)]
    libs = {}
    for fl in used:
        flags, extra = FLAVOURS[fl]
        inc = os.path.join(BUILD, fl, "include")
        defs = dict(CONFIG_DEFS)
        if "BOOST" in extra:
            defs.update(BOOST_DEFS)
        write_if_changed(os.path.join(inc, "stxxl/bits/config.h"), render_config(defs))
        base = COMMON + flags + ["-I" + REPO + "/include", "-I" + inc]
        objs = []
        for s in sorted(libsrc):
            o = os.path.join(BUILD, fl, "lib", os.path.relpath(s, REPO + "/lib").replace("/", "_") + ".o")
            lines.append("build %s: cxx %s\n  flags = -std=c++11 %s" % (o, s, " ".join(base)))
            objs.append(o)
        lib = os.path.join(BUILD, fl, "libstxxl.a")
        lines.append("build %s: ar %s" % (lib, " ".join(objs)))
        fwo = os.path.join(BUILD, fl, "pbt.o")
        lines.append("build %s: cxx %s\n  flags = -std=gnu++14 %s" % (fwo, VERIF + "/fw/pbt.cpp", " ".join(COMMON + flags)))
        libs[fl] = (lib, fwo, base)
    out = {}
    for name, p in sorted(props.items()):
        lib, fwo, base = libs[p["flavour"]]
        flags, extra = FLAVOURS[p["flavour"]]
        objs = []
        for s in p["srcs"]:
            src, _, define = s.partition(":")
            o = os.path.join(BUILD, p["flavour"], name, os.path.basename(src) + ("." + define.replace("=", "_") if define else "") + ".o")
            fs = ["-std=gnu++14", "-I" + VERIF + "/fw", "-I" + VERIF + "/props"] + base + p.get("flags", [])
            if define:
                fs.append("-D" + define)
            lines.append("build %s: cxx %s\n  flags = %s" % (o, os.path.join(VERIF, "props", src), " ".join(fs)))
            objs.append(o)
        exe = os.path.join(BUILD, "bin_" + name)
        ld = p.get("ldflags", []) + ["-fopenmp", "-lpthread"] + \
            (["-lboost_filesystem", "-lboost_iostreams", "-lboost_system", "-lboost_thread", "-lboost_date_time"] if "BOOST" in extra else [])
        lines.append("build %s: link %s %s %s\n  flags = %s\n  ldflags = %s" % (exe, " ".join(objs), fwo, lib, " ".join(flags), " ".join(ld)))
        out[name] = exe
    nf = os.path.join(BUILD, "build-%s.ninja" % tag)
    with open(nf, "w") as f:
        f.write("builddir = %s/nj\n" % BUILD)
        f.write("\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "-f", nf] + sorted(out.values()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("the build failed")
        sys.exit(2)
    if not quiet:
        sys.stdout.write(r.stdout[-2000:])
    return out
