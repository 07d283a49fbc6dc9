#!/usr/bin/env python3
"""mutate.py WORKDIR SEED COUNT|I/N [FILEGLOB [refuse]]: plants small random changes, one at a
time, in a scratch copy of the repository; those that build and pass the tests
are given to the checks of the properties the file is about.  Prints survivors.
With "refuse" the changes are dropped refusals.  Used to look for weaknesses of the checks; no check depends on it."""
import fnmatch, glob, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "h265_aud_parser": "P33 P08 P31 P35", "h265_bitstream_parser": "P05 P06 P34 P31 P35", "h265_bitstream_parser_state": "P08", "h265_common": "P04 P32 P29 P07 P20 P11 P19", "h265_configuration_box": "P28 P31 P35",
    "h265_hrd": "P17 P10 P31 P35", "h265_nal_unit_header": "P07 P31 P35", "h265_nal_unit_parser": "P08 P34 P29 P31 P35", "h265_nal_unit_payload": "P08 P34 P31 P35", "h265_pps_multi": "P26 P10 P31 P35", "h265_pps_parser": "P15 P10 P31 P35",
    "h265_pps_scc": "P26 P10 P31 P35", "h265_pred_weight": "P22 P10 P31 P35", "h265_profile": "P18 P19 P10 P31 P35", "h265_rtp": "P27 P31 P35", "h265_scaling": "P21 P10 P31 P35", "h265_sei": "P25 P10 P31 P35",
    "h265_slice": "P23 P24 P10 P31 P35", "h265_sps_3d": "P26 P10 P31 P35", "h265_sps_multi": "P26 P10 P31 P35", "h265_sps_parser": "P12 P13 P14 P10 P31 P35", "h265_sps_range": "P26 P10 P31 P35", "h265_sps_scc": "P26 P14 P10 P31 P35",
    "h265_st_ref": "P20 P10 P31 P35", "h265_sub_layer": "P17 P10 P31 P35", "h265_utils": "P30 P37", "h265nal": "P36 P37", "h265_vps": "P11 P14 P10 P31 P35", "h265_vui": "P16 P10 P31 P35", "rtc_common": "P01 P02 P03",
}
SIB = [("l0", "l1"), ("luma", "chroma"), ("nal_", "vcl_"), ("min", "max"), ("_x", "_y"), ("cb", "cr"), ("s0", "s1"), ("negative", "positive"), ("width", "height"), ("[i]", "[0]"), ("[j]", "[0]"), ("left", "right"), ("top", "bottom"), ("vps", "sps"), ("sps", "pps"), ("primaries", "transfer")]


def muts(line):
    out = []
    code = line.split("//")[0]
    if not code.strip() or code.lstrip().startswith(("#", "*", "fprintf(stderr", "namespace", "using")):
        return out
    for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), ("++", "--"), (" << ", " >> "), (" >> ", " << "), (" * ", " + "), ("true", "false"), ("false", "true"), (" | ", " & "), ("!", "")):
        for m in re.finditer(re.escape(a), code):
            out.append(code[:m.start()] + b + code[m.end():])
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
        v = int(m.group(1))
        out.append(code[:m.start()] + str(v + 1) + code[m.end():])
        if v > 0:
            out.append(code[:m.start()] + str(v - 1) + code[m.end():])
    for a, b in SIB:
        for x, y in ((a, b), (b, a)):
            for m in re.finditer(re.escape(x), code):
                out.append(code[:m.start()] + y + code[m.end():])
    if code.rstrip().endswith(";") and code.lstrip() == code.lstrip().lstrip("}"):
        ind = code[:len(code) - len(code.lstrip())]
        out.append(ind + ";\n")
    if re.match(r"\s*if \(.*\) \{\s*$", code):
        out.append(re.sub(r"if \((.*)\) \{", r"if (false) {", code))
        out.append(re.sub(r"if \((.*)\) \{", r"if (true) {", code))
    return [o if o.endswith("\n") else o + "\n" for o in out if o.strip() != code.strip()]


def refusals(text):
    """(start, end, replacement): a check that refuses its input never does"""
    out = []
    for m in re.finditer(r"if \(", text):
        i, d = m.end(), 1
        while d:
            d += {"(": 1, ")": -1}.get(text[i], 0)
            i += 1
        cond = text[m.end():i - 1]
        b = text.find("{", i)
        if text[i:b].strip() or "Read" in cond:
            continue
        j, d = b + 1, 1
        while d:
            d += {"{": 1, "}": -1}.get(text[j], 0)
            j += 1
        if not re.search(r"return (nullptr|false|\{\})", text[b:j]):
            continue
        parts, st, d = [], 0, 0
        for k in range(len(cond)):
            d += {"(": 1, ")": -1}.get(cond[k], 0)
            if d == 0 and cond.startswith("||", k):
                parts.append((st, k))
                st = k + 2
        parts.append((st, len(cond)))
        for a, e in parts:
            a += m.end()
            e += m.end()
            out.append((a, e, " false && (%s) " % text[a:e].strip()))
    return out


def sh(c, cwd=None, t=600, env=None):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, env=env)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "", "")


def main():
    w, seed, count = os.path.abspath(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    pat = sys.argv[4] if len(sys.argv) > 4 else "*"
    refuse = sys.argv[5:6] == ["refuse"]
    repo, ver = os.path.join(w, "repo"), os.path.join(w, "verif")
    if not os.path.exists(repo):
        os.makedirs(w)
        sh("git clone -q /repo %s && git clone -q %s %s" % (repo, V, ver))
        sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO='-O1 -g' -DBUILD_H265_TESTS=ON -DBUILD_CLANG_FUZZER=OFF && cmake --build %s/_build" % (repo, repo, repo), t=1200)
    env = dict(os.environ, H265NAL_REPO=repo, VERIF_BUILD=os.path.join(w, "build"))
    rnd = random.Random(seed)
    allm = []
    for f in sorted(glob.glob(repo + "/src/*.cc") + glob.glob(repo + "/tools/h265nal.cc")):
        if not fnmatch.fnmatch(os.path.basename(f), pat):
            continue
        text = open(f).read()
        off = 0
        for l in text.splitlines(True):
            if not refuse:
                for m in muts(l):
                    allm.append((f, (off, off + len(l), m)))
            off += len(l)
        if refuse:
            allm += [(f, m) for m in refusals(text)]
    # every file gets a similar share
    by = {}
    for m in allm:
        by.setdefault(m[0], []).append(m)
    for k in by:
        rnd.shuffle(by[k])
    order, k = [], 0
    while len(order) < len(allm):
        for f in by:
            n = 1 + len(by[f]) // 400
            order += by[f][k * n:(k + 1) * n]
        k += 1
        if k > 100000:
            break
    tests = [t for t in glob.glob(repo + "/_build/**/*unittest*", recursive=True) if os.access(t, os.X_OK) and os.path.isfile(t)]
    assert tests
    st = {"nobuild": 0, "tests": 0, "killed": 0, "survived": 0}
    for f, (a, e, m) in (order[int(count.split('/')[0])::int(count.split('/')[1])] if '/' in count else order[:int(count)]):
        orig = open(f).read()
        i, old = orig[:a].count("\n"), orig[a:e]
        open(f, "w").write(orig[:a] + m + orig[e:])
        try:
            if sh("cmake --build %s/_build" % repo).returncode:
                st["nobuild"] += 1
                continue
            if any(sh("timeout 20 " + t, cwd=os.path.dirname(t)).returncode for t in tests):
                st["tests"] += 1
                continue
            name = os.path.basename(f)
            props = next((v for k2, v in sorted(MAP.items(), key=lambda x: -len(x[0])) if name.startswith(k2)), "P09").split()
            hit, notes = None, ""
            for p in props:
                r = sh("python3 lib/run.py %s quick" % p, cwd=ver, env=env, t=900)
                if "VIOLATION" in r.stdout:
                    hit = p
                    break
                notes += " ".join(l for l in r.stdout.splitlines() if l.startswith(("UNCONFIRMED", "BUILD-FAILED", "ENGINE-ERROR", "UNSUPPORTED")))[:200]
            st["killed" if hit else "survived"] += 1
            print("%s %s:%d\n   - %s\n   + %s   %s %s" % ("killed " + hit if hit else "SURVIVED", name, i + 1, old.strip(), m.strip(), notes, json.dumps(st)), flush=True)
        finally:
            open(f, "w").write(orig)
            sh("rm -rf %s/build/bc %s/build/nat %s/build/run" % (w, w, w))
            sh("find %s/build/obj -newer %s/stamp -delete" % (w, w)) if os.path.exists(w + "/stamp") else open(w + "/stamp", "w").close()
    print("DONE", json.dumps(st))


main()
