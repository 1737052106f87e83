#!/usr/bin/env python3
"""Builds the library from /repo's working tree together with one harness, and runs it.

  check.py <ID> [--tier quick|thorough] [--replay FILE] [--driver NAME] [--limit S]
  check.py --needs [ID...]    recomputes tools/needs.json (library sources used by each harness)
  check.py --setup            builds everything (only a cache warm-up: each check rebuilds what changed)

Objects are cached in /verif/build, keyed by the content of every /repo and /verif file they depend on.
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TVM_REPO", "/repo")
BUILD = os.environ.get("TVM_VERIF_BUILD", os.path.join(HERE, "build"))
CXX = "/usr/bin/g++"
BASE = ["-std=c++17", "-pthread", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS",
        "-DEIGEN_RUNTIME_NO_MALLOC", "-w"]
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "3rd-party"), "-I/usr/include/eigen3",
       "-I" + os.path.join(HERE, "stubs")]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lib_sources():
    """Sources of the library without robot features; solver wrappers are compiled against /verif/stubs."""
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, os.path.join(REPO, "src"))
        for f in files:
            if not f.endswith(".cpp"):
                continue
            p = os.path.normpath(os.path.join(rel, f))
            if p.startswith("robot/") or p in ("Robot.cpp", "utils/sch.cpp"):
                continue
            out.append(p)
    return sorted(out)


_hash_cache = {}


def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def parse_dep(depfile):
    t = open(depfile).read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    deps = re.split(r"(?<!\\)\s+", t.strip())
    return sorted({os.path.normpath(d.replace("\\ ", " ")) for d in deps if d and not d.startswith("/usr/")})


def compile_one(src, obj, flags):
    cmd = [CXX] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key = hashlib.sha1(" ".join(cmd).encode()).hexdigest()
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["key"] == key and all(fhash(d) == h for d, h in m["deps"].items()) and m["obj"] == os.path.getsize(obj):
                return (src, True, "")
        except (ValueError, KeyError, OSError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = sh(cmd)
    if r.returncode != 0:
        return (src, False, r.stdout)
    deps = {d: fhash(d) for d in parse_dep(obj + ".d")}
    with open(meta, "w") as f:
        json.dump({"key": key, "deps": deps, "obj": os.path.getsize(obj)}, f)
    return (src, True, "")


def gen_include():
    """supported_solvers.h as configured with every back-end."""
    inc = os.path.join(BUILD, "include", "tvm")
    os.makedirs(inc, exist_ok=True)
    src = open(os.path.join(REPO, "include/tvm/supported_solvers.in.h")).read()
    src = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", src)
    src = re.sub(r"@(TVM_USE_\w+)@", r"#define \1", src)
    src = re.sub(r"@\w+@", "", src)
    dst = os.path.join(inc, "supported_solvers.h")
    if not os.path.exists(dst) or open(dst).read() != src:
        open(dst, "w").write(src)
    small = {
        "deprecated.hh": "#pragma once\n#define TVM_DEPRECATED [[deprecated]]\n"
                         "#define TVM_DEPRECATED_MESSAGE(message) [[deprecated(#message)]]\n#define TVM_DEPRECATED_HEADER(MSG)\n",
        "warning.hh": "#pragma once\n",
        "config.hh": "#pragma once\n",
    }
    for name, text in small.items():
        p = os.path.join(inc, name)
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
    return os.path.join(BUILD, "include")


def build(ids, full=False):
    """Compiles what the harnesses need (tools/needs.json lists it; everything when that is not enough) and links."""
    genc = gen_include()
    t0 = time.time()
    flags = BASE + INC + ["-I" + genc]
    libflags = flags + ["-fPIC"]
    try:
        table = json.load(open(os.path.join(HERE, "tools", "needs.json")))
    except (OSError, ValueError):
        table = {"needs": {}, "cost": {}}
    cost = table["cost"]
    lib = lib_sources()
    obj = lambda s: os.path.join(BUILD, "lib", s.replace("/", "_") + ".o")
    use = {}
    for i in ids:
        n = table["needs"].get(i)
        use[i] = lib if full or n is None else [s for s in lib if s in n]
    jobs = []
    for s in sorted({s for l in use.values() for s in l}):
        jobs.append((cost.get(s, 5), (os.path.join(REPO, "src", s), obj(s), libflags)))
    hflags = flags + ["-I" + os.path.join(HERE, "harness")]
    common = []
    pipe = False
    per = {}
    for i in ids:
        objs = []
        for p in sorted(glob.glob(os.path.join(HERE, "harness", i + "*.cpp"))):
            o = os.path.join(BUILD, "harness", os.path.basename(p) + ".o")
            objs.append(o)
            jobs.append((40, (p, o, hflags)))
            pipe = pipe or "pipe" in open(p).read()
        per[i] = objs
    for s in ["mc.cpp"] + (["pipe.cpp"] if pipe else []):
        p = os.path.join(HERE, "harness", s)
        o = os.path.join(BUILD, "harness", s + ".o")
        common.append(o)
        jobs.append((20, (p, o, hflags)))
    jobs.sort(key=lambda j: -j[0])
    ok = True
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for src, good, out in ex.map(lambda j: compile_one(*j[1]), jobs):
            if not good:
                if ok:
                    print("COMPILE ERROR", src, "\n", out[:3000])
                else:
                    print("COMPILE ERROR", src)
                ok = False
    if not ok:
        return None
    bins = {}
    for i in ids:
        b = os.path.join(BUILD, "bin", i)
        os.makedirs(os.path.dirname(b), exist_ok=True)
        mine = per[i] + [o for o in common if "pipe.cpp" not in o or any("pipe" in open(p).read() for p in glob.glob(os.path.join(HERE, "harness", i + "*.cpp")))]
        cmd = [CXX, "-fsanitize=address", "-pthread", "-o", b] + mine
        if full or len(use[i]) == len(lib):
            arc = os.path.join(BUILD, "lib", "all.a")
            if os.path.exists(arc):
                os.unlink(arc)
            sh(["ar", "qcs", arc] + [obj(s) for s in lib])
            r = sh(cmd + [arc, "-Wl,-Map," + b + ".map"])
        else:
            r = sh(cmd + [obj(s) for s in use[i]])
            if r.returncode != 0 and len(use[i]) < len(lib):
                print("the sources listed in tools/needs.json are not enough, building everything")
                more = build([i], True)
                if more is None:
                    return None
                bins.update(more)
                continue
        if r.returncode != 0:
            print("LINK ERROR", i, r.stdout[-4000:])
            return None
        bins[i] = b
    print("build: %.1f s" % (time.time() - t0), flush=True)
    return bins


def update_needs(ids):
    """Recomputes tools/needs.json: which library sources each harness pulls in."""
    f = os.path.join(HERE, "tools", "needs.json")
    try:
        table = json.load(open(f))
    except (OSError, ValueError):
        table = {"needs": {}, "cost": {}}
    lib = lib_sources()
    bins = build(ids, True)
    if bins is None:
        return 1
    for i in ids:
        used = set(re.findall(r"all\.a\(([^)]*)\.o\)", open(bins[i] + ".map").read()))
        table["needs"][i] = [s for s in lib if s.replace("/", "_") in used]
        print(i, len(table["needs"][i]), "of", len(lib))
    with open(f, "w") as o:
        json.dump(table, o, indent=1, sort_keys=True)
        o.write("\n")
    return 0


def all_ids():
    return sorted({os.path.basename(p)[:3] for p in glob.glob(os.path.join(HERE, "harness", "C[0-9][0-9]*.cpp"))})


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return 0 if build(all_ids()) is not None else 1
    if a and a[0] == "--needs":
        return update_needs(a[1:] or all_ids())
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    limit = None
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--replay":
            replay = a[i + 1]
        elif a[i] == "--limit":
            limit = a[i + 1]
        else:
            extra += [a[i], a[i + 1]]
        i += 2
    bins = build([pid])
    if bins is None:
        return 2
    out = os.path.join(HERE, "evidence", "replay")
    os.makedirs(out, exist_ok=True)
    cmd = [bins[pid], "--tier", tier, "--out", out, "--known", os.path.join(HERE, "known_findings.txt")]
    if replay:
        cmd += ["--replay", replay]
    else:
        cmd += ["--evidence", os.path.join(HERE, "evidence", pid + ".json")]
        cmd += ["--limit", limit or ("420" if tier == "quick" else "720")]
    return subprocess.run(cmd + extra).returncode


if __name__ == "__main__":
    sys.exit(main())
