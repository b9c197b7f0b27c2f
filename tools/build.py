#!/usr/bin/env python3
"""Builds armas library variants and check binaries out of tree, content addressed.

Library objects: /verif/build/obj/<hash>.o where hash covers compiler, flags, the source and all
headers of /repo/src.  Nothing is written to /repo.
"""
import os, re, sys, hashlib, subprocess, concurrent.futures as cf, glob, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 8

DEFS = ["-DFLOAT64=1", "-DCONFIG_ACCELERATORS=1", "-DCONFIG_EXT_PRECISION=1", "-DCONFIG_COMPAT=1",
        "-DCONFIG_SPARSE=1", '-DPACKAGE_NAME="armas"', '-DPACKAGE_VERSION="verif"',
        '-DCOMPILER="cc"', '-DCOMPILE_TIME="now"', '-DCONFIG_SETTINGS="verif"']
FAST = ["-ffast-math", "-fomit-frame-pointer", "-Wno-everything"]
GCCW = ["-w"]
UBSAN = ("signed-integer-overflow,bounds,shift,integer-divide-by-zero,null,vla-bound,"
         "unreachable,return,bool,enum,object-size,alignment,nonnull-attribute,returns-nonnull-attribute,pointer-overflow")
VARIANTS = {
    # the flags the project builds with
    "rel": dict(cc="gcc", cxx="g++", cflags=["-g1", "-O3", "-march=x86-64-v3", "-ffast-math", "-fomit-frame-pointer", "-w", "-pthread"],
                hflags=["-O2", "-g1", "-march=x86-64-v3", "-pthread"], ld=["-pthread"]),
    # scalar/SSE kernels selected by the architecture flags
    "sse": dict(cc="gcc", cxx="g++", cflags=["-g1", "-O2", "-march=x86-64-v2", "-fomit-frame-pointer", "-w", "-pthread"],
                hflags=["-O2", "-g1", "-march=x86-64-v3", "-pthread"], ld=["-pthread"]),
    "avx": dict(cc="gcc", cxx="g++", cflags=["-g1", "-O2", "-march=x86-64-v2", "-mavx", "-ffast-math", "-w", "-pthread"],
                hflags=["-O2", "-g1", "-march=x86-64-v3", "-pthread"], ld=["-pthread"]),
    "asan": dict(cc="clang", cxx="clang++",
                 cflags=["-g", "-O1", "-march=x86-64-v3", "-fno-omit-frame-pointer", "-w", "-pthread",
                         "-fsanitize=address," + UBSAN, "-fno-sanitize-recover=all"],
                 hflags=["-O1", "-g1", "-march=x86-64-v3", "-pthread", "-fsanitize=address"],
                 ld=["-pthread", "-fsanitize=address,undefined"]),
    "msan": dict(cc="clang", cxx="clang++",
                 cflags=["-g", "-O1", "-march=x86-64-v3", "-fno-omit-frame-pointer", "-w", "-pthread",
                         "-fsanitize=memory", "-fno-sanitize-recover=all"],
                 hflags=None, ld=["-pthread", "-fsanitize=memory"]),
    "tsan": dict(cc="clang", cxx="clang++",
                 cflags=["-g", "-O1", "-march=x86-64-v3", "-fno-omit-frame-pointer", "-w", "-pthread",
                         "-fsanitize=thread"],
                 hflags=["-O1", "-g1", "-march=x86-64-v3", "-pthread", "-fsanitize=thread"],
                 ld=["-pthread", "-fsanitize=thread"]),
    # release flags with the library's allocator calls redirected to the harness
    "alloc": dict(cc="gcc", cxx="g++", cflags=["-g1", "-O2", "-march=x86-64-v3", "-ffast-math", "-w", "-pthread"],
                  hflags=["-O2", "-g1", "-march=x86-64-v3", "-pthread"], ld=["-pthread"], redefine=True),
    # coverage guided fuzzing
    "fuzz": dict(cc="clang", cxx="clang++",
                 cflags=["-g", "-O1", "-march=x86-64-v3", "-fno-omit-frame-pointer", "-w", "-pthread",
                         "-fsanitize=fuzzer-no-link,address," + UBSAN, "-fno-sanitize-recover=all"],
                 hflags=["-O1", "-g1", "-march=x86-64-v3", "-pthread", "-fsanitize=fuzzer-no-link,address"],
                 ld=["-pthread", "-fsanitize=fuzzer,address,undefined"]),
}
# sanitizer build with the allocator calls redirected, for the kernels of the two instruction sets
# (adding zero to a null pointer, as empty views do, is not judged)
VARIANTS["asanx"] = dict(VARIANTS["asan"], redefine=True, cflags=[f.replace(",pointer-overflow", "") for f in VARIANTS["asan"]["cflags"]])
VARIANTS["asanx2"] = dict(VARIANTS["asanx"], cflags=[f.replace("x86-64-v3", "x86-64-v2") for f in VARIANTS["asanx"]["cflags"]])
REDEF = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "strdup", "getline"]


class BuildError(Exception):
    pass


def sh(args, **kw):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(args), r.stdout.decode("utf-8", "replace")[-6000:]))
    return r.stdout


def lib_sources():
    text = open(os.path.join(SRC, "Makefile.am")).read()
    seen, out = set(), []
    for m in re.finditer(r"(?<![\w/])((?:[A-Za-z0-9_]+/)+[A-Za-z0-9_]+\.c)\b", text):
        s = m.group(1)
        if s not in seen and os.path.exists(os.path.join(SRC, s)):
            seen.add(s)
            out.append(s)
    return out


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


_hdr = {}


def header_digest(root):
    if root not in _hdr:
        parts = []
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".h", ".inc")):
                    p = os.path.join(d, f)
                    parts += [os.path.relpath(p, root), open(p, "rb").read()]
        _hdr[root] = digest(*parts)
    return _hdr[root]


def included_c():
    """.c files of the library that other .c files include (counted like headers)"""
    out = []
    for s in glob.glob(SRC + "/*/*.c"):
        for m in re.finditer(rb'#\s*include\s+"([^"]+\.c)"', open(s, "rb").read()):
            p = os.path.join(os.path.dirname(s), m.group(1).decode())
            if os.path.exists(p):
                out.append(open(p, "rb").read())
    return digest(*out)


def atomic(cmd, out, post=None):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    sh(cmd + ["-o", tmp])
    if post:
        post(tmp)
    os.replace(tmp, out)


def build_lib(variant):
    """-> path of static archive"""
    v = VARIANTS[variant]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/lib", exist_ok=True)
    hd = header_digest(SRC) + included_c()
    jobs, objs = [], []
    flags = v["cflags"] + DEFS
    for s in lib_sources():
        p = os.path.join(SRC, s)
        key = digest("lib", v["cc"], " ".join(flags), "redef" if v.get("redefine") else "", hd, s, open(p, "rb").read())
        o = "%s/obj/%s.o" % (BUILD, key)
        objs.append((s, o))
        if not os.path.exists(o):
            jobs.append((s, p, o))

    def one(j):
        s, p, o = j
        post = None
        if v.get("redefine"):
            def post(tmp):
                sh(["objcopy"] + ["--redefine-sym=%s=vf_%s" % (r, r) for r in REDEF] + [tmp])
        atomic([v["cc"], "-std=gnu11"] + flags + ["-I" + SRC + "/include", "-I" + os.path.dirname(p), "-c", p], o, post)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    a = "%s/lib/%s-%s.a" % (BUILD, variant, digest(*[x for so in objs for x in so]))
    if not os.path.exists(a):
        tmp = "%s.%d.tmp" % (a, os.getpid())
        if os.path.exists(tmp):
            os.unlink(tmp)
        d = tempfile.mkdtemp(dir=BUILD)
        try:
            names = []
            for s, o in objs:
                n = os.path.join(d, s.replace("/", "_")[:-2] + ".o")
                os.link(o, n)
                names.append(n)
            sh(["ar", "rcs", tmp] + names)
        finally:
            shutil.rmtree(d)
        os.replace(tmp, a)
    return a


def build_bin(name, variant, files, ld=()):
    """link harness files (names in /verif/harness) with the library variant; -> executable"""
    v = VARIANTS[variant]
    lib_f = None
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    hflags = v["hflags"] + DEFS + ["-std=gnu++17", "-w", "-fpermissive"] + ["-DVARIANT_%s=1" % variant.upper(), '-DVARIANT="%s"' % variant]
    if v.get("redefine"):
        hflags.append("-DVF_ALLOC=1")
        files = list(files) + ["alloc.cc"]
    if v["cxx"] == "clang++":
        hflags = [f for f in hflags if f != "-fpermissive"]
    hd = header_digest(SRC) + header_digest(HARN)
    objs, jobs = [], []
    for f in files:
        p = os.path.join(HARN, f)
        key = digest("harn", v["cxx"], " ".join(hflags), hd, f, open(p, "rb").read())
        o = "%s/obj/%s.o" % (BUILD, key)
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((p, o))

    def one(j):
        p, o = j
        if p.endswith(".c"):
            fl = [x for x in hflags if not x.startswith("-std=gnu++") and x not in ("-fpermissive",)]
            atomic([v["cc"]] + fl + ["-I" + SRC + "/include", "-I" + HARN, "-c", p], o)
        else:
            atomic([v["cxx"]] + hflags + ["-I" + SRC + "/include", "-I" + HARN, "-c", p], o)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = ex.submit(build_lib, variant)
        list(ex.map(one, jobs))
        lib_f = fut.result()
    exe = "%s/bin/%s.%s-%s" % (BUILD, name, variant, digest(lib_f, *objs, *ld))
    if not os.path.exists(exe):
        atomic([v["cxx"]] + v["ld"] + list(ld) + objs + [lib_f, "-lm", "-lquadmath" if v["cxx"] == "g++" else "-lm"], exe)
        # keep the cache small: drop older binaries of the same name
        for old in glob.glob("%s/bin/%s.%s-*" % (BUILD, name, variant)):
            if old != exe and not old.endswith(".tmp"):
                try:
                    os.unlink(old)
                except OSError:
                    pass
    return exe


if __name__ == "__main__":
    import time
    for v in sys.argv[1:]:
        t = time.time()
        print(build_lib(v), "%.1fs" % (time.time() - t))
