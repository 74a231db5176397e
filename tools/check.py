#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

usage: check.py <property id> [quick|thorough] [--replay FILE] [--scale X] [--only SUBPROPERTY]

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken;
anything else: the check itself could not run.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.path.join(VERIF, "build")
JOBS = 8

from specs import SPECS, VARIANTS  # noqa: E402


def repo_files():
    fs = sorted(glob.glob(REPO + "/iir/**/*", recursive=True)) + [REPO + "/Iir.h"]
    for extra in ("CMakeLists.txt", "Config.cmake.in", "iir.pc.in", "JoinPaths.cmake"):
        fs.append(os.path.join(REPO, extra))
    return [f for f in fs if os.path.isfile(f)]


def tree_hash():
    h = hashlib.sha256()
    for f in repo_files() + sorted(glob.glob(SRC + "/*")) + sorted(glob.glob(VERIF + "/tools/*.py")):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def prune(keep):
    if not os.path.isdir(BUILD):
        return
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    ds = [d for d in ds if os.path.isdir(d) and not os.path.basename(d).startswith(keep)]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-2]:
        shutil.rmtree(d, ignore_errors=True)


ALL_FAMS = ["butter", "cheb1", "cheb2"]


class BuildError(Exception):
    pass


def run_jobs(jobs):
    """jobs: list of (output, cmd); built in parallel when the output is missing."""
    def one(j):
        out, cmd = j
        if os.path.exists(out):
            return None
        tmp = out + ".tmp%d.o" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if os.path.exists(tmp):
                os.unlink(tmp)
            return " ".join(cmd) + "\n" + r.stdout
        os.replace(tmp, out)
        return None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError(errs[0])


def reg_jobs(d, cxx, flags, fams, small):
    jobs = []
    for fam in fams:
        for st in ((1, 0, 2)):
            for s in ((0,) if small else (1, 0)):
                o = "%s/reg_%s_%d_%d.o" % (d, fam, st, s)
                jobs.append((o, [cxx, *flags, "-I" + SRC, "-I" + REPO, "-DREG_" + fam.upper(), "-DREG_ST=%d" % st,
                                 "-DREG_SET=%d" % s, "-DREG_SMALL=%d" % small, "-c", SRC + "/reg_part.cpp"]))
    return jobs


def dso_jobs(d, spec):
    """The filters and the library once more, with other flags, as a shared library."""
    v = VARIANTS[spec["dso"]]
    flags, cxx = v["flags"], v["cxx"]
    dd = os.path.join(os.path.dirname(d), spec["dso"])
    os.makedirs(dd, exist_ok=True)
    jobs = reg_jobs(dd, cxx, flags, ALL_FAMS, 1)
    for f in ("registry.cpp", spec["dso_export"]):
        jobs.append(("%s/%s.o" % (dd, f[:-4]), [cxx, *flags, "-DREG_FAMS=7", "-DREG_SMALL=1", "-I" + SRC, "-I" + REPO, "-c", SRC + "/" + f]))
    for f in sorted(glob.glob(REPO + "/iir/*.cpp")):
        jobs.append(("%s/lib_%s.o" % (dd, os.path.basename(f)[:-4]), [cxx, *flags, "-I" + REPO, "-I" + REPO + "/iir", "-c", f]))
    return jobs, "%s/lib%s.so" % (dd, spec["dso"])


def build(spec, variant, base):
    """Returns the path of the executable."""
    v = VARIANTS[variant]
    cxx, flags = v["cxx"], v["flags"]
    small = 1 if v.get("small") else 0
    d = os.path.join(BUILD, base, variant)
    os.makedirs(d, exist_ok=True)
    fams = spec.get("families", [])
    jobs = []
    # the slow ones first
    jobs += reg_jobs(d, cxx, flags, fams, small)
    defs = ["-DREG_FAMS=" + str(sum({"butter": 1, "cheb1": 2, "cheb2": 4}[f] for f in fams)), "-DREG_SMALL=%d" % small]
    tag = "".join(f[0] + f[-1] for f in fams)
    jobs.append(("%s/registry_%s.o" % (d, tag), [cxx, *flags, *defs, "-I" + SRC, "-I" + REPO, "-c", SRC + "/registry.cpp"]))
    for s in spec["src"]:
        o = "%s/%s.o" % (d, s.replace(".cpp", ""))
        jobs.append((o, [cxx, *flags, "-I" + SRC, "-I" + REPO, "-c", SRC + "/" + s]))
    jobs.append(("%s/pbt.o" % d, [cxx, *v.get("engine_flags", flags), "-I" + SRC, "-c", SRC + "/pbt.cpp"]))
    for f in sorted(glob.glob(REPO + "/iir/*.cpp")):
        o = "%s/lib_%s.o" % (d, os.path.basename(f)[:-4])
        jobs.append((o, [cxx, *flags, "-I" + REPO, "-I" + REPO + "/iir", "-c", f]))
    dso, extra = None, []
    if "dso" in spec:
        extra, dso = dso_jobs(d, spec)
    run_jobs(jobs + extra)
    if dso:
        dv = VARIANTS[spec["dso"]]
        run_jobs([(dso, [dv["cxx"], *dv["flags"], "-shared", "-Wl,-Bsymbolic", *[o for o, _ in extra]])])
    exe = "%s/%s" % (d, spec["exe"])
    link = [cxx, *flags, *[o for o, _ in jobs], *([dso, "-Wl,-rpath," + os.path.dirname(dso)] if dso else []), *v.get("link", []), *spec.get("link", [])]
    run_jobs([(exe, link)])
    return exe


# Properties about the interface itself: which calls, copies, sample types and
# const accesses a program may use.  When the library compiles but a program
# making exactly these no longer does, the property is broken.
INTERFACE = ("C12", "C13", "C15", "C25", "C29")
UNUSABLE = "# the program no longer compiles against the library"


def unusable(pid, err, replay):
    import c28
    d = tempfile.mkdtemp(prefix="iir_")
    try:
        c28.build_lib(d)
    except RuntimeError:
        return 2  # nothing compiles: no answer
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if replay:
        print("FAILS: does not compile")
        return 1
    p = os.path.join(VERIF, "replays", pid + "-build.replay")
    with open(p, "w") as f:
        f.write(UNUSABLE + "\n" + err)
    print("VIOLATION property=%s replay=%s" % (pid, p))
    return 1


def known_entries(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(args) > 1 and args[1] in ("quick", "thorough"):
        tier = args[1]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    scale = args[args.index("--scale") + 1] if "--scale" in args else None
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"\d+", seed):
        seed = "1"
    t0 = time.time()
    spec = SPECS[pid]
    base = tree_hash()
    prune(base)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if "python" in spec:  # checks driven by a Python harness
        mod = __import__(spec["python"])
        return mod.run(pid, tier, int(seed), replay, globals())
    known = known_entries(pid)
    coverage, violations, rc, builds = {}, 0, 0, []
    runs = spec["runs"] if "runs" in spec else [{"variant": "opt"}]
    lines = []
    for run in runs:
        if tier not in run.get("tiers", ("quick", "thorough")):
            continue
        if only and "only" in run and only not in run["only"].split(","):
            continue
        sp = dict(spec)
        sp.update(run)
        tb = time.time()
        try:
            exe = build(sp, run["variant"], base)
        except BuildError as e:
            print("BUILD ERROR\n" + str(e)[:6000])
            return unusable(pid, str(e), replay) if pid in INTERFACE else 2
        builds.append({"variant": run["variant"], "build_s": round(time.time() - tb, 1)})
        env = dict(os.environ)
        env.update(VARIANTS[run["variant"]].get("env", {}))
        if replay:
            with open(replay) as f:
                text = f.read()
            if text.startswith(UNUSABLE):
                continue
            want = re.search(r"^prop (\S+) (\S+)", text, re.M)
            if "only" in run and want and want.group(2) not in run["only"].split(","):
                continue
            return subprocess.run([*VARIANTS[run["variant"]].get("prefix", []), exe, "--replay", replay], env=env).returncode
        out = os.path.join(VERIF, "evidence", ".%s.%s.json" % (pid, run["variant"]))
        cmd = [*VARIANTS[run["variant"]].get("prefix", []), exe, "--check", pid, "--seed", seed, "--tier", tier, "--out", out, "--replay-dir",
               os.path.join(VERIF, "replays"), "--workers", str(JOBS), "--known", ",".join(known)]
        factor = scale or run.get("scale") or (spec.get("quick_scale", 3) if tier == "quick" else 1)
        if factor != 1:
            cmd += ["--scale", str(factor)]
        if only or run.get("only"):
            cmd += ["--only", only or run["only"]]
        tr = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env)
        for line in r.stdout.splitlines():
            if line.startswith("KNOWN "):
                k = line.split()[1]
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, known.get(k, k)))
                print(lines[-1])
            else:
                print(line)
        sys.stdout.flush()
        if os.path.exists(out):
            with open(out) as f:
                cov = json.load(f)
            os.unlink(out)
            violations += cov.pop("violations", 0)
            cov["run_s"] = round(time.time() - tr, 1)
            if not coverage:
                coverage = cov
                coverage["variants"] = {run["variant"]: {"evaluations": cov["evaluations"], "run_s": cov.pop("run_s")}}
            else:
                coverage["evaluations"] += cov["evaluations"]
                coverage["distinct_nontrivial"] += cov["distinct_nontrivial"]
                coverage["variants"][run["variant"]] = {"evaluations": cov["evaluations"], "run_s": cov["run_s"],
                                                        "classes": cov["classes"], "cases_per_subproperty": cov["cases_per_subproperty"]}
                coverage["samples"] += cov["samples"][:6]
        if r.returncode not in (0, 1):
            rc = 2
            print("check engine ended with status %d" % r.returncode)
            break
        if r.returncode == 1:
            rc = 1
            break
    if replay:
        with open(replay) as f:
            if f.read().startswith(UNUSABLE):
                print("passes")
                return 0
        print("replay file does not belong to this check")
        return 2
    if coverage:
        coverage["builds"] = builds
        ev = {"property": pid, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": coverage,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations,
              "known_findings_still_present": lines}
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if rc == 0:
        print("%s %s: held on %d cases (%d distinct non-trivial), %.1f s" %
              (pid, tier, coverage.get("evaluations", 0), coverage.get("distinct_nontrivial", 0), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(2)
