#!/usr/bin/env python3
"""Builds the simulator with the library compiled from /repo's working tree.

Objects are cached by the content of everything that goes into them (never by time stamps), so a cached
object is used only when it is what a fresh compile would give."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX, CC = "clang++", "clang"
JOBS = int(os.environ.get("SIM_JOBS", 0)) or os.cpu_count() or 4
UNIT = int(os.environ.get("SIM_UNIT", 60000))
INC = ["-I" + os.path.join(OUT, "cfg"), "-I" + REPO + "/include/lucene++", "-I" + REPO + "/include", "-I" + REPO + "/src/core/include"]
COMMON = ["-O1", os.environ.get("SIM_G", "-g0"), "-DNDEBUG", "-fno-omit-frame-pointer", "-w", "-fno-pie", "-DLPP_BUILDING_LIB", "-DLPP_HAVE_GXXCLASSVISIBILITY", "-fPIC"][:6] + ["-DLPP_BUILDING_LIB"]
COV = ["-fsanitize-coverage=trace-pc-guard"]
STD = ["-std=gnu++17"]
LIBS = ["-lboost_thread", "-lboost_filesystem", "-lboost_regex", "-lboost_iostreams", "-lboost_system", "-lboost_date_time", "-lboost_chrono", "-lz", "-lpthread", "-ldl"]


def sha(b):
    return hashlib.sha256(b).hexdigest()[:24]


_fh = {}


def fhash(path):
    h = _fh.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "absent"
        _fh[path] = h
    return h


def parse_deps(path):
    try:
        t = open(path).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1] if ":" in t else ""
    return [x.replace("\\ ", " ") for x in re.findall(r"(?:\\ |\S)+", t)]


class Obj:
    def __init__(self, src, out, cmd, pch=None):
        self.src, self.out, self.cmd, self.pch = src, out, cmd, pch
        self.size, self.failed = 0, False

    def key(self, deps):
        own = [d for d in deps if not d.startswith("/usr/")]
        return sha(("\0".join(self.cmd + [self.src]) + "\0" + "\0".join(d + "=" + fhash(d) for d in sorted(set(own)))).encode())

    def fresh(self):
        deps = parse_deps(self.out + ".d")
        if deps is None or not os.path.exists(self.out):
            return False
        try:
            k = open(self.out + ".key").read()
        except OSError:
            return False
        return k == self.key(deps + ([self.pch] if self.pch else []))

    def build(self):
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        p = subprocess.run(self.cmd + ["-MD", "-MF", self.out + ".d", "-o", self.out, "-c", self.src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return self.src + "\n" + p.stdout[-4000:]
        deps = parse_deps(self.out + ".d") or []
        with open(self.out + ".key", "w") as f:
            f.write(self.key(deps + ([self.pch] if self.pch else [])))
        return None


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def build(verbose=True):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    cfg = open(REPO + "/include/config_h/Config.h.in").read() if os.path.exists(REPO + "/include/config_h/Config.h.in") else open(find_config()).read()
    for k in ("USE_BOOST_INTEGER", "LPP_SHARED_DLL", "USE_CYCLIC_CHECK"):
        cfg = cfg.replace("@" + k + "@", "undef")
    write_if_changed(os.path.join(OUT, "cfg", "Config.h"), cfg)

    core = []
    for root, dirs, files in os.walk(REPO + "/src/core"):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".c")) and f != "LuceneInc.cpp":
                core.append(os.path.join(root, f))
    pchs = {}
    jobs = []
    for tag, extra in (("cov", COV), ("plain", [])):
        src = os.path.join(OUT, "pch", tag + ".h")
        write_if_changed(src, '#include "%s/src/core/include/LuceneInc.h"\n' % REPO)
        out = os.path.join(OUT, "pch", tag + ".pch")
        jobs.append(Obj(src, out, [CXX, "-x", "c++-header"] + STD + COMMON + extra + INC))
        pchs[tag] = out
    errs = run([j for j in jobs if not j.fresh()])
    if errs:
        return fail(errs)
    for p in pchs.values():
        _fh.pop(p, None)
    def single(s):
        o = os.path.join(OUT, "obj", os.path.relpath(s, REPO + "/src").replace("/", "_") + ".o")
        if s.endswith(".c"):
            return Obj(s, o, [CC] + COMMON + COV + INC)
        return Obj(s, o, [CXX] + STD + COMMON + COV + ["-include-pch", pchs["cov"]] + INC, pchs["cov"])

    # Several sources are compiled as one unit, which halves the build time; a unit that does not compile as one
    # (names of two files clash) is compiled file by file.
    objs, parts = [], {}
    cpp = [s for s in core if s.endswith(".cpp")]
    objs += [single(s) for s in core if not s.endswith(".cpp")]
    groups, cur, size = [], [], 0
    for s in cpp:
        n = os.path.getsize(s) + 1500
        if cur and (size + n > UNIT or os.path.dirname(cur[0]) != os.path.dirname(s)):
            groups.append(cur)
            cur, size = [], 0
        cur.append(s)
        size += n
    if cur:
        groups.append(cur)
    for g in groups:
        if len(g) == 1:
            objs.append(single(g[0]))
            continue
        name = "unit_" + sha("\0".join(os.path.relpath(s, REPO) for s in g).encode())[:12]
        src = os.path.join(OUT, "unit", name + ".cpp")
        write_if_changed(src, "".join('#include "%s"\n' % s for s in g))
        j = Obj(src, os.path.join(OUT, "obj", name + ".o"), [CXX] + STD + COMMON + COV + ["-include-pch", pchs["cov"]] + INC, pchs["cov"])
        j.size = sum(os.path.getsize(s) for s in g)
        parts[j.out] = g
        objs.append(j)
    hobjs = []
    for d, opt in (("core", "-O2"), ("lu", "-O1"), ("props", "-O1")):
        dd = os.path.join(VERIF, "sim", d)
        if not os.path.isdir(dd):
            continue
        for f in sorted(os.listdir(dd)):
            if f.endswith(".cpp"):
                o = os.path.join(OUT, "obj", "sim_" + d + "_" + f + ".o")
                base = [CXX] + STD + COMMON
                if d == "core":
                    hobjs.append(Obj(os.path.join(dd, f), o, base + [opt]))
                else:
                    hobjs.append(Obj(os.path.join(dd, f), o, base + [opt, "-include-pch", pchs["plain"], "-I" + VERIF + "/sim/core", "-I" + VERIF + "/sim/lu"] + INC, pchs["plain"]))
    todo = [j for j in hobjs + objs if not j.fresh()]
    todo.sort(key=lambda j: -(j.size or os.path.getsize(j.src)))
    errs = run(todo, lambda j: j.out in parts)
    if errs:
        return fail(errs)
    split = [j for j in objs if j.failed]
    if split:
        objs = [j for j in objs if not j.failed]
        more = [single(s) for j in split for s in parts[j.out]]
        errs = run([j for j in more if not j.fresh()])
        if errs:
            return fail(errs)
        objs += more
        todo += more
    exe = os.path.join(OUT, "lsim")
    allo = [j.out for j in hobjs] + [j.out for j in objs]
    key = sha("\0".join(open(o + ".key").read() for o in allo).encode())
    kf = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
        rsp = os.path.join(OUT, "link.rsp")
        with open(rsp, "w") as f:
            f.write("\n".join(allo))
        ld = ["-fuse-ld=lld"] if subprocess.run(["which", "ld.lld"], stdout=subprocess.DEVNULL).returncode == 0 else []
        p = subprocess.run([CXX, "-no-pie", "-rdynamic"] + ld + ["-o", exe + ".tmp", "@" + rsp] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return fail([p.stdout[-6000:]])
        os.replace(exe + ".tmp", exe)
        with open(kf, "w") as f:
            f.write(key)
    if verbose:
        print("build: %d of %d objects compiled, %.1f s" % (len(todo), len(allo), time.time() - t0), file=sys.stderr)
    return exe


def run(jobs, may_fail=lambda j: False):
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        for j, e in zip(jobs, ex.map(lambda j: j.build(), jobs)):
            if e and may_fail(j):
                j.failed = True
            elif e:
                errs.append(e)
    return errs


def fail(errs):
    print("build failed:\n" + "\n".join(errs[:5]), file=sys.stderr)
    return None


if __name__ == "__main__":
    exe = build()
    sys.exit(0 if exe else 2)
