"""Compiles the code under test (from /repo's working tree) and the harnesses,
to LLVM bitcode for symx and to a sanitizer build for native replay."""
import hashlib, os, subprocess, sys, glob, concurrent.futures, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("H265NAL_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CLANG = "clang++"
DEFS = ["-DFDUMP_DEFINE", "-DRTP_DEFINE", "-DFPRINT_ERRORS", "-D_GLIBCXX_ASSERTIONS"]
SMALL = ["-DSMALL_FOOTPRINT", "-D_GLIBCXX_ASSERTIONS"]
BCFLAGS = ["-std=c++14", "-O1", "-emit-llvm", "-c", "-gline-tables-only", "-w",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-unroll-loops", "-fno-builtin-fprintf", "-fno-builtin-printf",
           "-fno-builtin-snprintf", "-fno-threadsafe-statics", "-fno-rtti" if False else "-frtti",
           "-fno-strict-aliasing"]
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return",
         "-fsanitize-trap=all"]
NATFLAGS = ["-std=c++14", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
            "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DSX_NATIVE"]
# entry points replaced by the element-level stub must not be inlined
NOINLINE = {"rtc_common.cc", "h265_common.cc"}


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def includes():
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "tools")]
    return inc + ["-I" + os.path.join(OUT, "inc")]


def prep_config():
    """config.h is generated by the project's build; regenerate it here."""
    d = os.path.join(OUT, "inc")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "src", "config.h.in")
    txt = ""
    if os.path.exists(src):
        for l in open(src):
            if l.startswith("#cmakedefine"):
                name = l.split()[1]
                if name in ("FDUMP_DEFINE", "RTP_DEFINE", "FPRINT_ERRORS"):
                    txt += "#ifndef %s\n#define %s\n#endif\n" % (name, name)
                else:
                    txt += "/* %s */\n" % l.strip()
            else:
                txt += l
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(txt)
        os.rename(p + ".%d" % os.getpid(), p)


def repo_sources(mode=""):
    """a mode ending in -small is the small footprint build, which has no RTP parsers, dumps or messages"""
    return sorted(s for s in glob.glob(os.path.join(REPO, "src", "*.cc")) if not (mode.endswith("-small") and "_rtp" in os.path.basename(s)))


def defs(mode):
    return (SMALL if mode.endswith("-small") else DEFS) + (["-DSX_BYTE"] if mode.startswith("byte") else [])


def headers():
    return sorted(glob.glob(os.path.join(REPO, "include", "*.h")) + glob.glob(os.path.join(REPO, "src", "*.h")) +
                  glob.glob(os.path.join(REPO, "src", "*.in")) + glob.glob(os.path.join(REPO, "tools", "*")))


def hheaders():
    return sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")) + [os.path.join(VERIF, "engine", "dumpscan.h"), os.path.abspath(__file__)])


def compile_one(src, flags, ext, deps_hash):
    key = hashlib.sha256((src + "\0" + " ".join(flags) + deps_hash + filehash([src])).encode()).hexdigest()[:20]
    out = os.path.join(OUT, "obj", os.path.basename(src) + "." + key + ext)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        sh([CLANG] + flags + includes() + ["-I" + os.path.join(VERIF, "harness"), src, "-o", tmp])
        os.rename(tmp, out)
    return out


def build_engine():
    srcs = [os.path.join(VERIF, "engine", f) for f in ("symx.cc", "expr.h", "dumpscan.h", "build.sh")]
    h = filehash(srcs)
    out = os.path.join(OUT, "symx-" + h)
    if not os.path.exists(out):
        os.makedirs(OUT, exist_ok=True)
        sh([os.path.join(VERIF, "engine", "build.sh"), out])
    return out


def link_bc(files, out, override=None):
    tmp = out + ".%d" % os.getpid()
    cmd = ["llvm-link"] + files
    for o in override or []:
        cmd += ["--override", o]
    sh(cmd + ["-o", tmp])
    os.rename(tmp, out)


def which_llvm_link():
    for n in ("llvm-link", "llvm-link-18"):
        p = shutil.which(n)
        if p:
            return p
    return "/usr/lib/llvm-18/bin/llvm-link"


def build_bc(harnesses, pool):
    """harnesses: list of (file, mode) with mode 'elem' or 'byte', optionally with '-small'. Returns {(file,mode): linked bitcode}."""
    prep_config()
    hh = filehash(headers())
    hv = filehash(hheaders())
    runtime = [os.path.join(VERIF, "harness", f) for f in ("rt.cc", "rtc.cc", "rtio.cc", "stream.cc")]
    parts = {}
    for small in sorted({"-small" if m.endswith("-small") else "" for _, m in harnesses}):
        base = defs(small) + BCFLAGS
        lib = [pool.submit(compile_one, s, base + UBSAN + (["-fno-inline"] if os.path.basename(s) in NOINLINE else []), ".bc", hh) for s in repo_sources(small)]
        lib += [pool.submit(compile_one, s, base, ".bc", hh + hv) for s in runtime]
        parts[small] = lib, pool.submit(compile_one, os.path.join(VERIF, "harness", "stub.cc"), base, ".bc", hh + hv)
    hf = {}
    for f, mode in harnesses:
        hf[(f, mode)] = pool.submit(compile_one, os.path.join(VERIF, "harness", f), defs(mode) + BCFLAGS + (UBSAN if f == "h_tool.cc" else []), ".bc", hh + hv)
    res = {}
    link = which_llvm_link()
    for k, f in hf.items():
        lib, stub = parts["-small" if k[1].endswith("-small") else ""]
        stub_bc = stub.result()
        files = [x.result() for x in lib] + [f.result()]
        key = hashlib.sha256(("|".join(files) + k[1] + stub_bc).encode()).hexdigest()[:20]
        out = os.path.join(OUT, "bc", os.path.basename(k[0]) + "." + k[1] + "." + key + ".bc")
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + ".%d" % os.getpid()
            cmd = [link] + files + (["--override", stub_bc] if k[1].startswith("elem") else []) + ["-o", tmp]
            sh(cmd)
            os.rename(tmp, out)
        res[k] = out
    return res


def build_native(harness, mode, pattern, pool):
    """Sanitizer build of the harness with the real sources."""
    prep_config()
    hh = filehash(headers())
    hv = filehash(hheaders())
    fl = NATFLAGS + [x for x in defs(mode) if x != "-DSX_BYTE"] + ["-ftrivial-auto-var-init=" + pattern]
    fl = ["-std=c++14"] + [x for x in fl if x != "-std=c++14"]
    srcs = repo_sources(mode)
    fs = [pool.submit(compile_one, s, fl + ["-c", "-fsanitize-coverage=trace-pc"], ".o", hh) for s in srcs]
    own = [os.path.join(VERIF, "harness", f) for f in ("native.cc", "stream.cc", harness)]
    fs += [pool.submit(compile_one, s, fl + ["-c"] + (["-DSX_BYTE"] if mode.startswith("byte") else []), ".o", hh + hv) for s in own]
    objs = [f.result() for f in fs]
    key = hashlib.sha256("|".join(objs).encode()).hexdigest()[:20]
    out = os.path.join(OUT, "nat", os.path.basename(harness) + "." + mode + "." + pattern + "." + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        sh([CLANG, "-fsanitize=address,undefined", "-rdynamic"] + objs + ["-o", tmp, "-ldl"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memchr", "__asan_memcpy", "__asan_memmove", "__asan_memset")])
        os.rename(tmp, out)
    return out
