"""C20: configurations of the build and layouts of the installation.

A case is a configuration drawn from a seeded generator.  'build' cases compile
the library with one configuration and each translation unit of a consumer with
another one and compare everything the consumer prints for random calls with
the plainest configuration.  'install' cases configure, build and install the
package with CMake and build the consumer against the installation.
A failing configuration is shrunk field by field towards the plainest one.
"""
import concurrent.futures, glob, json, math, os, random, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C20 = os.path.join(HERE, "src", "c20")
REPO = os.environ.get("VERIF_REPO", "/repo")

CXX = ["g++", "clang++"]
STD = ["c++11", "c++14", "c++17", "c++20", "c++2b"]
OPT = ["-O0", "-O1", "-O2", "-O3", "-Os", "-Og"]
EXTRA = [[], [], ["-march=native"], ["-fno-rtti"], ["-flto"], ["-fPIC"], ["-ffp-contract=off"], ["-funroll-loops"], ["-fno-inline"],
         ["-D_GLIBCXX_ASSERTIONS"], ["-fno-math-errno"], ["-fvisibility=hidden"], ["-fpack-struct=8"], ["-D_FORTIFY_SOURCE=2"]]
HEADERS = ["Biquad", "Butterworth", "Cascade", "ChebyshevI", "ChebyshevII", "Common", "Custom", "Layout", "MathSupplement", "PoleFilter", "RBJ", "State", "Types"]
PLAIN_UNIT = {"cxx": "g++", "std": "c++11", "opt": "-O0", "ndebug": False, "extra": []}
LIBDIRS = ["lib", "lib64", "lib/x86_64-linux-gnu", "libs/deep/er", "ABS/lib"]
INCDIRS = ["include", "include/iir1-1.10", "inc", "headers/deep/er", "ABS/include"]
PLAIN_INSTALL = {"kind": "install", "cxx": "g++", "type": "RelWithDebInfo", "libdir": "lib", "incdir": "include", "prefix": "p", "noexc": False,
                 "static": True, "std": "c++17", "generator": "Ninja"}


def units(rng):
    u = dict(PLAIN_UNIT)
    u["cxx"], u["std"], u["opt"] = rng.choice(CXX), rng.choice(STD), rng.choice(OPT)
    u["ndebug"] = rng.random() < 0.5
    u["extra"] = rng.choice(EXTRA)
    if rng.random() < 0.15:
        u["extra"] = u["extra"] + rng.choice(EXTRA)
    return u


def headers(rng):
    r = rng.random()
    if r < 0.4:
        return ["Iir.h"]
    # any subset order of the headers with filters; the other headers are internal and come after them
    hs = ["iir/" + h + ".h" for h in ("Butterworth", "ChebyshevI", "ChebyshevII", "Custom", "RBJ")]
    rng.shuffle(hs)
    rest = ["iir/" + h + ".h" for h in HEADERS if "iir/" + h + ".h" not in hs and rng.random() < 0.5] + (["Iir.h"] if rng.random() < 0.5 else [])
    rng.shuffle(rest)
    return hs + rest


def gen_build(rng):
    lto = None
    c = {"kind": "build", "lib": units(rng), "main": units(rng), "other": units(rng), "headers_main": headers(rng), "headers_other": headers(rng),
         "noexc": rng.random() < 0.25, "shared": rng.random() < 0.4, "link": rng.choice(CXX)}
    if rng.random() < 0.35:  # everything with one compiler and one set of flags, as in a normal project
        for k in ("main", "other"):
            c[k] = dict(c["lib"])
        c["link"] = c["lib"]["cxx"]
    # link time optimisation only where one compiler does everything
    if any("-flto" in c[k]["extra"] for k in ("lib", "main", "other")) and len({c["lib"]["cxx"], c["main"]["cxx"], c["other"]["cxx"]}) > 1:
        for k in ("lib", "main", "other"):
            c[k] = dict(c[k], extra=[e for e in c[k]["extra"] if e != "-flto"])
    if any("-flto" in c[k]["extra"] for k in ("lib", "main", "other")):
        c["link"] = c["lib"]["cxx"]
    return c


def gen_install(rng):
    return {"kind": "install", "cxx": rng.choice(CXX), "type": rng.choice(["Debug", "Release", "RelWithDebInfo", "MinSizeRel", "None"]),
            "libdir": rng.choice(LIBDIRS), "incdir": rng.choice(INCDIRS), "prefix": rng.choice(["p", "a/b/c", "opt.iir-1", "usr/local"]),
            "noexc": rng.random() < 0.4, "static": rng.random() < 0.6, "std": rng.choice(STD[:4]), "generator": rng.choice(["Ninja", "Unix Makefiles"])}


def calls(rng, n):
    lines = ["sizes", "invalid"]
    for _ in range(n):
        fc = round(rng.uniform(0.06, 0.4), 6)
        fw = round(rng.uniform(0.1, 0.9) * 2 * min(fc - 0.01, 0.49 - fc), 6)
        a = [fc, max(fw, 0.01), round(rng.uniform(0.2, 3), 4), rng.choice([-1, 1]) * round(rng.uniform(1, 20), 3)]
        t = rng.randrange(32)
        if t == 31:
            a = [round(rng.uniform(-0.9, 0.9), 4) for _ in range(4)]
        x = [round(rng.uniform(-1, 1), 5) for _ in range(rng.randrange(3, 25))]
        cmd = rng.choice(["here", "there", "both"]) if t != 31 else rng.choice(["here", "there"])
        lines.append("%s %d %d 4 %s %d %s" % (cmd, t, rng.choice([0, 0, 1, 2, 3]), " ".join(map(repr, a)), len(x), " ".join(map(repr, x))))
    return "\n".join(lines) + "\n"


class Broken(Exception):
    pass


def sh(cmd, inp=None, env=None, timeout=300):
    r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=timeout)
    if r.returncode:
        first = [l for l in (r.stderr + r.stdout).splitlines() if "rror" in l or "undefined" in l or "multiple" in l or "cannot" in l]
        raise Broken("%s ends with status %d: %s" % (" ".join(cmd)[:400], r.returncode, " / ".join(first[:3])[:600] or (r.stderr + r.stdout)[-400:]))
    return r.stdout


def uflags(u, noexc):
    f = ["-std=" + u["std"], u["opt"], "-w", "-pthread", *u["extra"]]
    if "-D_FORTIFY_SOURCE=2" in f and u["opt"] in ("-O0",):
        f.remove("-D_FORTIFY_SOURCE=2")
    if u["ndebug"]:
        f.append("-DNDEBUG")
    if noexc:
        f += ["-DIIR1_NO_EXCEPTIONS", "-fno-exceptions"]
    if u["cxx"] == "clang++" and "-flto" in f:
        f.remove("-flto")
    return f


def order_header(d, name, hs):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        for h in hs:
            f.write('#include "%s"\n' % h)
    return ["-DORDER_OF_HEADERS=\"%s\"" % p, "-I" + C20]


def case_build(c, d, inp):
    objs = []
    lf = uflags(c["lib"], c["noexc"]) + (["-fPIC"] if c["shared"] else [])
    lf = [f for f in lf if not (c["shared"] and f == "-fvisibility=hidden")]
    # the same pedantic mode as the project, language extensions are errors
    for f in sorted(glob.glob(REPO + "/iir/*.cpp")):
        o = os.path.join(d, "l_" + os.path.basename(f) + ".o")
        sh([c["lib"]["cxx"], *lf, "-I" + REPO, "-I" + REPO + "/iir", "-c", f, "-o", o])
        objs.append(o)
    mo, oo = os.path.join(d, "main.o"), os.path.join(d, "other.o")
    sh([c["main"]["cxx"], *uflags(c["main"], c["noexc"]), "-I" + REPO, *order_header(d, "hm.h", c["headers_main"]), "-c", C20 + "/main.cpp", "-o", mo])
    sh([c["other"]["cxx"], *uflags(c["other"], c["noexc"]), "-I" + REPO, *order_header(d, "ho.h", c["headers_other"]), "-c", C20 + "/other.cpp", "-o", oo])
    exe = os.path.join(d, "consumer")
    lto = ["-flto"] if any("-flto" in c[k]["extra"] and c[k]["cxx"] == "g++" for k in ("lib", "main", "other")) else []
    if c["shared"]:
        so = os.path.join(d, "libiir.so")
        sh([c["lib"]["cxx"], *lto, "-shared", *objs, "-o", so])
        sh([c["link"], *lto, mo, oo, so, "-Wl,-rpath," + d, "-o", exe])
    else:
        sh([c["link"], *lto, mo, oo, *objs, "-o", exe])
    return [("consumer", sh([exe], inp=inp))]


def case_install(c, d, inp):
    prefix = os.path.join(d, c["prefix"])
    absp = lambda p: os.path.join(prefix, "abs", p[4:]) if p.startswith("ABS/") else p
    b = os.path.join(d, "b")
    # the package is configured from a copy so that the working tree stays as it is
    srcd = os.path.join(d, "src")
    os.makedirs(srcd)
    for n in ("CMakeLists.txt", "Config.cmake.in", "iir.pc.in", "JoinPaths.cmake", "Iir.h"):
        shutil.copy(os.path.join(REPO, n), srcd)
    for n in ("iir", "cmake"):
        if os.path.isdir(os.path.join(REPO, n)):
            shutil.copytree(os.path.join(REPO, n), os.path.join(srcd, n))
    for n in os.listdir(REPO):  # further files a changed CMakeLists.txt may refer to
        p = os.path.join(REPO, n)
        if os.path.isfile(p) and n.endswith((".in", ".cmake", ".h")) and not os.path.exists(os.path.join(srcd, n)):
            shutil.copy(p, srcd)
    args = ["-DCMAKE_INSTALL_PREFIX=" + prefix, "-DCMAKE_INSTALL_LIBDIR=" + absp(c["libdir"]), "-DCMAKE_INSTALL_INCLUDEDIR=" + absp(c["incdir"]),
            "-DCMAKE_CXX_COMPILER=" + c["cxx"], "-DCMAKE_BUILD_TYPE=" + c["type"], "-DIIR1_BUILD_TESTING=OFF", "-DIIR1_BUILD_DEMO=OFF",
            "-DIIR1_NO_EXCEPTIONS=" + ("ON" if c["noexc"] else "OFF"), "-DIIR1_INSTALL_STATIC=" + ("ON" if c["static"] else "OFF")]
    sh(["cmake", "-G", c["generator"], "-S", srcd, "-B", b, *args])
    sh(["cmake", "--build", b, "-j", "3"])
    sh(["cmake", "--install", b])
    shutil.rmtree(srcd)
    shutil.rmtree(b)  # nothing may refer to the build tree any more
    libdir = absp(c["libdir"])
    libdir = libdir if os.path.isabs(libdir) else os.path.join(prefix, libdir)
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = libdir
    env["PKG_CONFIG_PATH"] = os.path.join(libdir, "pkgconfig")
    for k in ("CPATH", "CPLUS_INCLUDE_PATH", "LIBRARY_PATH", "CMAKE_PREFIX_PATH"):
        env.pop(k, None)
    out = []
    noex = ["-fno-exceptions"] if c["noexc"] else []
    hdr = order_header(d, "h.h", ["Iir.h"])
    # pkg-config
    pc = sh(["pkg-config", "--cflags", "iir"], env=env).split()
    pl = sh(["pkg-config", "--libs", "iir"], env=env).split()
    if sh(["pkg-config", "--modversion", "iir"], env=env).strip() == "":
        raise Broken("pkg-config reports no version")
    exe = os.path.join(d, "with_pkgconfig")
    sh([c["cxx"], "-std=" + c["std"], "-w", *noex, *hdr, C20 + "/main.cpp", C20 + "/other.cpp", *pc, *pl, "-o", exe], env=env)
    out.append(("pkg-config consumer", sh([exe], inp=inp, env=env)))
    # find_package: targets and variables
    want = [("iir::iir", "target iir::iir", "target_link_libraries(%s PRIVATE iir::iir)")]
    if c["static"]:
        want.append(("iir::iir_static", "target iir::iir_static", "target_link_libraries(%s PRIVATE iir::iir_static)"))
    want.append(("vars", "iir_LIBRARIES and iir_INCLUDE_DIRS", "target_include_directories(%s PRIVATE ${iir_INCLUDE_DIRS})\ntarget_link_libraries(%s PRIVATE ${iir_LIBRARIES})"))
    cd = os.path.join(d, "consumer")
    os.makedirs(cd)
    with open(os.path.join(cd, "CMakeLists.txt"), "w") as f:
        f.write("cmake_minimum_required(VERSION 3.8)\nproject(consumer CXX)\nset(CMAKE_CXX_STANDARD %s)\nfind_package(iir REQUIRED)\n" % c["std"][3:])
        f.write("if(NOT EXISTS ${iir_INCLUDE_DIRS}/Iir.h)\n  message(FATAL_ERROR \"error: no Iir.h in iir_INCLUDE_DIRS ${iir_INCLUDE_DIRS}\")\nendif()\n")
        for i, (_, _, link) in enumerate(want):
            f.write("add_executable(c%d %s/main.cpp %s/other.cpp)\n" % (i, C20, C20))
            f.write("target_compile_options(c%d PRIVATE -w %s)\n" % (i, " ".join(noex)))
            f.write("target_compile_definitions(c%d PRIVATE \"ORDER_OF_HEADERS=\\\"%s\\\"\")\n" % (i, os.path.join(d, "h.h")))
            f.write("target_include_directories(c%d PRIVATE %s)\n" % (i, C20))
            f.write((link.replace("%s", "c%d") % ((i,) * link.count("%s"))) + "\n")
    cb = os.path.join(d, "cb")
    depth = os.path.join(libdir, "cmake", "iir") if os.path.isabs(absp(c["libdir"])) or c["libdir"] not in ("lib",) else prefix
    sh(["cmake", "-G", c["generator"], "-S", cd, "-B", cb, "-DCMAKE_CXX_COMPILER=" + c["cxx"], "-DCMAKE_BUILD_TYPE=Debug",
        "-Diir_DIR=" + depth if depth != prefix else "-DCMAKE_PREFIX_PATH=" + prefix], env=env)
    sh(["cmake", "--build", cb, "-j", "3"], env=env)
    for i, (_, what, _) in enumerate(want):
        out.append(("find_package consumer, " + what, sh([os.path.join(cb, "c%d" % i)], inp=inp, env=env)))
    return out


def compare(what, got, ref):
    g, r = got.splitlines(), ref.splitlines()
    if len(g) != len(r):
        raise Broken("%s prints %d lines instead of %d%s" % (what, len(g), len(r), ": " + g[0] if g and "differs" in g[0] else ""))
    worst = 0.0
    for i, (a, b) in enumerate(zip(g, r)):
        ta, tb = a.split(), b.split()
        if len(ta) != len(tb) or ta[:1] != tb[:1]:
            raise Broken("%s: line %d is '%s' instead of '%s'" % (what, i, a[:80], b[:80]))
        try:
            va, vb = [float(t) for t in ta[1:]], [float(t) for t in tb[1:]]
        except ValueError:
            if a != b:
                raise Broken("%s: line %d is '%s' instead of '%s'" % (what, i, a[:80], b[:80]))
            continue
        m = max([abs(v) for v in vb if math.isfinite(v)] + [1e-300])
        for x, y in zip(va, vb):
            if math.isfinite(x) != math.isfinite(y) or (math.isfinite(x) and abs(x - y) > 1e-8 * m):
                raise Broken("%s: line %d has %.17g instead of %.17g (plainest configuration)" % (what, i, x, y))
            if math.isfinite(x):
                worst = max(worst, abs(x - y) / m)
    return worst


def execute(c, inp, ref):
    d = tempfile.mkdtemp(prefix="iir_c20_")
    try:
        outs = (case_build if c["kind"] == "build" else case_install)(c, d, inp)
        if ref is None:
            return outs[0][1]
        return max(compare(w, o, ref) for w, o in outs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


PLAIN = {"kind": "build", "lib": PLAIN_UNIT, "main": PLAIN_UNIT, "other": PLAIN_UNIT, "headers_main": ["Iir.h"], "headers_other": ["Iir.h"],
         "noexc": False, "shared": False, "link": "g++"}


def verdict(c, inp, ref):
    try:
        return None, execute(c, inp, ref)
    except Broken as e:
        return str(e), 0
    except subprocess.TimeoutExpired as e:
        return "timeout: " + " ".join(map(str, e.cmd))[:200], 0


def shrink(c, msg, inp, ref):
    base = PLAIN if c["kind"] == "build" else PLAIN_INSTALL
    changed = True
    while changed:
        changed = False
        for k in base:
            cands = []
            if c[k] != base[k]:
                cands.append(base[k])
            if isinstance(c[k], dict):
                cands += [dict(c[k], **{f: PLAIN_UNIT[f]}) for f in PLAIN_UNIT if c[k][f] != PLAIN_UNIT[f]]
            for v in cands:
                t = dict(c, **{k: v})
                m, _ = verdict(t, inp, ref)
                if m:
                    c, msg, changed = t, m, True
                    break
    return c, msg


def run(pid, tier, seed, replay, G):
    t0 = time.time()
    if replay:
        with open(replay) as f:
            r = json.load(f)
        m0, ref = (None, None) if r["case"] == PLAIN else verdict(PLAIN, r["input"], None)
        m, _ = verdict(r["case"], r["input"], ref)
        print(("FAILS: " + (m0 or m)) if (m0 or m) else "passes")
        return 1 if (m0 or m) else 0
    rng = random.Random(seed * 7919 + 20)
    nb, ni = (56, 10) if tier == "quick" else (1200, 160)
    scale = float(os.environ.get("C20_SCALE", "1"))
    nb, ni = max(1, int(nb * scale)), max(1, int(ni * scale))
    cases = [gen_install(rng) for _ in range(ni)] + [gen_build(rng) for _ in range(nb)]
    # every compiler with every standard at least once
    k = 0
    for cx in CXX:
        for st in STD:
            if ni + k < len(cases):
                for u in ("lib", "main", "other"):
                    cases[ni + k][u] = dict(cases[ni + k][u], cxx=cx, std=st, extra=[e for e in cases[ni + k][u]["extra"] if e != "-flto"])
                k += 1
    inp = calls(rng, 150)
    def report(c, msg):
        c, msg = shrink(c, msg, inp, ref)
        p = os.path.join(HERE, "replays", "C20-%d.json" % seed)
        with open(p, "w") as f:
            json.dump({"case": c, "input": inp, "message": msg}, f, indent=1)
        print("minimal configuration: " + json.dumps(c))
        print("  -> " + msg)
        print("VIOLATION property=C20 replay=" + p)
    ref, worst, done, failed, distinct = None, 0.0, 0, None, set()
    m, ref = verdict(PLAIN, inp, None)
    classes = {}
    if m:
        failed = (PLAIN, m)
    else:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = [(c, ex.submit(verdict, c, inp, ref)) for c in cases]
            for c, f in futs:
                if failed:
                    f.cancel()
                    continue
                m, w = f.result()
                done += 1
                distinct.add(json.dumps(c, sort_keys=True))
                worst = max(worst, w)
                for l in labels(c):
                    classes[l] = classes.get(l, 0) + 1
                if m:
                    failed = (c, m)
    if failed:
        report(*failed)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": done, "distinct_nontrivial": sum(1 for d in distinct if d != json.dumps(PLAIN, sort_keys=True)),
                       "rule": "build cases: compiler, language standard, optimisation, NDEBUG and further flags drawn separately for the library and for each of two translation units of a consumer, header order, exceptions, static or shared; install cases: compiler, build type, prefix, library and include directory (relative or absolute), exceptions, static library, generator; each consumer runs 150 random calls over all filter types and is compared value by value (1e-8 of the largest value of the line) with the plainest configuration. Non-trivial: every configuration other than the plainest.",
                       "classes": classes, "worst_observed": {"relative difference": worst}, "calls_per_configuration": 150,
                       "samples": [json.loads(s) for s in sorted(distinct)[:3]] + [c for c in cases[:3]]},
          "assumptions": ["the differences between configurations are rounding only when they stay below 1e-8 of the largest value of an output line"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if failed else 0, "known_findings_still_present": []}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not failed:
        print("C20 %s: held on %d configurations, %.1f s" % (tier, done, time.time() - t0))
    return 1 if failed else 0


def labels(c):
    if c["kind"] == "install":
        return ["install", "install libdir " + c["libdir"], "install includedir " + c["incdir"], "install without exceptions" if c["noexc"] else "install with exceptions"]
    return ["build", "library " + c["lib"]["cxx"] + " " + c["lib"]["std"], "units with different flags" if c["main"] != c["other"] else "units alike",
            "without exceptions" if c["noexc"] else "with exceptions", "shared" if c["shared"] else "static",
            "assertions on" if not c["lib"]["ndebug"] else "NDEBUG"]
