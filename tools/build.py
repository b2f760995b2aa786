#!/usr/bin/env python3
"""Builds the conformance harnesses from /repo's current working tree.

The sources are mirrored by content into build/src (so that only files whose
content changed are recompiled), the DOTS models are run through the
repository's own code generator, and everything is compiled with
AddressSanitizer into one library plus one executable per harness.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DOTS_REPO", "/repo")
B = os.environ.get("DOTS_BUILD", os.path.join(VERIF, "build"))
DCG = "/opt/vp/dcg-venv/bin/dcg.py"

DEFS = ("-DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_PROGRAM_OPTIONS_NO_LIB -DBOOST_SYSTEM_NO_DEPRECATED "
        "-DDOTS_ENABLE_LOG_DATA -DDOTS_ENABLE_LOG_DEBUG -DDOTS_NO_GLOBAL_TRANSCEIVER -DFMT_HEADER_ONLY=1 "
        "-DHAS_STRING_VIEW=1 -DHAS_UNCAUGHT_EXCEPTIONS -DONLY_C_LOCALE=1 -DUSE_OS_TZDB=1 -D_GLIBCXX_ASSERTIONS")
CXXFLAGS = "-std=gnu++20 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -w"
LIBS = "-lboost_program_options -ldate-tz -lpthread"

# harness name -> (sources under harness/, extra repo sources, model files under harness/models)
HARNESSES = {}
for _f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
    if _f.startswith("h_") and _f.endswith(".cpp"):
        HARNESSES[_f[2:-4]] = [_f]


def mirror(src, dst, exts=None):
    """copies src to dst touching only files whose content differs; removes files that vanished"""
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("_build", ".git", "__pycache__")]
        for f in files:
            if f.endswith((".pyc",)):
                continue
            s = os.path.join(root, f)
            d = os.path.join(dst, os.path.relpath(s, src))
            want.add(d)
            data = open(s, "rb").read()
            try:
                if open(d, "rb").read() == data:
                    continue
            except FileNotFoundError:
                os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(d, "wb") as o:
                o.write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if p not in want:
                os.unlink(p)


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except FileNotFoundError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as o:
        o.write(text)


def codegen(out, models, stamp):
    h = hashlib.sha256()
    for base in ("dots-cg-cpp/src",):
        for root, dirs, files in sorted(os.walk(os.path.join(B, "src", base))):
            for f in sorted(files):
                if not f.endswith(".pyc"):
                    h.update(open(os.path.join(root, f), "rb").read())
    for m in models:
        h.update(m.encode())
        h.update(open(m, "rb").read())
    key = h.hexdigest()
    sp = os.path.join(B, stamp)
    if os.path.exists(sp) and open(sp).read() == key:
        return
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    for m in models:
        subprocess.run([DCG, "--config=" + os.path.join(B, "src/dots-cg-cpp/src/config_cpp.py"),
                        "--templatePath=" + os.path.join(B, "src/dots-cg-cpp/src"), m],
                       cwd=tmp, check=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    mirror(tmp, out)
    shutil.rmtree(tmp)
    with open(sp, "w") as o:
        o.write(key)


def build(names=None):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        S = os.path.join(B, "src")
        for d in ("lib", "external/dots", "dots-cg-cpp", "bin/dotsd"):
            mirror(os.path.join(REPO, d), os.path.join(S, d))
        mirror(os.path.join(VERIF, "harness"), os.path.join(B, "harness"))
        ext = [os.path.join(S, "external/dots/model", f) for f in ("connection.dots", "event.dots", "user.dots", "descriptors.dots")]
        own = [os.path.join(S, "lib/src/model", f) for f in sorted(os.listdir(os.path.join(S, "lib/src/model"))) if f.endswith(".dots")]
        codegen(os.path.join(B, "gen"), ext + own, "gen.stamp")
        md = os.path.join(B, "harness/models")
        hm = [os.path.join(md, f) for f in sorted(os.listdir(md)) if f.endswith(".dots")] if os.path.isdir(md) else []
        codegen(os.path.join(B, "hgen"), hm, "hgen.stamp")
        hdrs = sorted(f for f in os.listdir(os.path.join(B, "hgen")) if f.endswith(".dots.h")) if hm else []
        touch = "".join(f"    {h[:-7]}::_Descriptor();\n" for h in hdrs if "StaticStruct<" in open(os.path.join(B, "hgen", h)).read())
        write_if_changed(os.path.join(B, "hinc", "vt_all.h"), "#pragma once\n" + "".join(f"#include <{h}>\n" for h in hdrs)
                         + "// static types register themselves when their descriptor is first used\ninline void vt_touch()\n{\n" + touch + "}\n")
        ghdrs = sorted(f for f in os.listdir(os.path.join(B, "gen")) if f.endswith(".dots.h"))
        write_if_changed(os.path.join(B, "hinc", "dots_all.h"), "#pragma once\n" + "".join(f"#include <{h}>\n" for h in ghdrs))
        libsrc = []
        for root, dirs, files in os.walk(os.path.join(S, "lib/src")):
            libsrc += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
        for root, dirs, files in os.walk(os.path.join(B, "gen")):
            libsrc += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
        hgensrc = []
        for root, dirs, files in os.walk(os.path.join(B, "hgen")):
            hgensrc += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
        libsrc.sort(); hgensrc.sort()
        inc = (f"-I{S}/lib/include -I{B}/gen -I{B}/hgen -I{B}/hinc -I{B}/harness -isystem {B}/harness/shim "
               f"-isystem {S}/external -isystem /opt/vp/cmake/include")
        n = ["ninja_required_version = 1.5",
             f"cxxflags = {CXXFLAGS} {DEFS} {inc}",
             "rule cxx\n  command = g++ $cxxflags $x -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out",
             "rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out",
             f"rule link\n  command = g++ -fsanitize=address $in -o $out {LIBS}\n  description = LINK $out"]
        def obj(src):
            return os.path.join(B, "obj", os.path.relpath(src, B).replace("/", "_") + ".o")
        objs = []
        for s in libsrc:
            n.append(f"build {obj(s)}: cxx {s}")
            objs.append(obj(s))
        n.append(f"build {B}/libdots.a: ar {' '.join(objs)}")
        hobjs = []
        for s in hgensrc:
            n.append(f"build {obj(s)}: cxx {s}")
            hobjs.append(obj(s))
        for name, srcs in HARNESSES.items():
            o = []
            for s in srcs:
                p = os.path.join(B, "harness", s)
                n.append(f"build {obj(p)}: cxx {p}")
                if name == "daemon":
                    n.append(f"  x = -I{S}/bin/dotsd/src")
                o.append(obj(p))
            if name == "daemon":
                p = os.path.join(S, "bin/dotsd/src/DotsDaemon.cpp")
                n.append(f"build {obj(p)}: cxx {p}")
                n.append(f"  x = -I{S}/bin/dotsd/src")
                o.append(obj(p))
            n.append(f"build {B}/bin/{name}: link {' '.join(o + hobjs)} {B}/libdots.a")
            n.append(f"build {name}: phony {B}/bin/{name}")
        write_if_changed(os.path.join(B, "build.ninja"), "\n".join(n) + "\n")
        targets = list(names) if names else list(HARNESSES)
        r = subprocess.run(["ninja", "-C", B, "-f", "build.ninja"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write("\n".join(l for l in r.stdout.splitlines() if not l.startswith("["))[-6000:] + "\n")
            raise SystemExit(3)
        return {t: os.path.join(B, "bin", t) for t in targets}


if __name__ == "__main__":
    build(sys.argv[1:])
