#!/usr/bin/env python3
"""Builds the library from /repo's working tree together with the explorer and
the spaces of one property, explores them, and reports.

    check.py C02 [--tier quick|thorough]      decide a property
    check.py --setup                          prebuild everything (optional)
    check.py C02 --replay FILE                replay one recorded execution

exit 0: the property held on every execution of the bounded space
exit 1: VIOLATION line printed, replay file written
other:  the check itself failed (for example /repo does not compile)
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("INNC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MC = os.path.join(VERIF, "mc")

sys.path.insert(0, MC)
from spaces import PROPS  # property -> title, flavour, translation units, notes

COMMON = ["-std=c++20", "-include", "algorithm", "-D_GLIBCXX_ASSERTIONS=1",
          "-I" + os.path.join(REPO, "include"), "-I" + MC, "-w"]
FLAVOURS = {
    # fast build for the functional oracles
    "og": (["/usr/bin/g++", "-Og"], []),
    # every access, free and leak checked
    "asan": (["/usr/bin/g++", "-O1", "-g1", "-fno-omit-frame-pointer",
              "-fsanitize=address", "-DMC_ASAN=1"], ["-fsanitize=address"]),
}
RUN_ENV = {
    "MALLOC_PERTURB_": "165",  # fresh and freed memory is never accidentally 0
    "ASAN_OPTIONS": "exitcode=86:detect_leaks=0:abort_on_error=0:"
                    "allocator_may_return_null=0:detect_stack_use_after_return=0:"
                    "quarantine_size_mb=64:handle_abort=1",
}


def lib_sources():
    """The library's sources, as its own build file lists them."""
    mb = open(os.path.join(REPO, "meson.build")).read()
    m = re.search(r"library\s*\(\s*'INNC'(.*?)\)", mb, re.S)
    srcs = re.findall(r"'([^']+\.(?:cpp|cc|cxx))'", m.group(1)) if m else []
    srcs = [os.path.join(REPO, s) for s in srcs]
    if not srcs or not all(os.path.exists(s) for s in srcs):
        srcs = []
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            srcs += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(srcs)


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dn, fs in os.walk(root):
        dn.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def build(flavour, units):
    cc, link = FLAVOURS[flavour]
    flags = cc + COMMON
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    # any header of the library or of the harness may matter to any unit
    base = hashlib.sha256((" ".join(flags)).encode())
    base.update(tree_hash(os.path.join(REPO, "include"), ("",)).encode())
    base.update(tree_hash(os.path.join(REPO, "src"), (".hpp", ".h", ".ipp", ".inc", ".tpp")).encode())
    base.update(tree_hash(MC, (".hpp",)).encode())
    base = base.digest()
    srcs = lib_sources() + [os.path.join(MC, u + ".cpp") for u in
                            ["engine", "model"] + units]
    jobs = []
    for s in srcs:
        h = hashlib.sha256(base + s.encode() + open(s, "rb").read()).hexdigest()[:24]
        jobs.append((s, os.path.join(BUILD, "obj", h + ".o")))

    def one(job):
        s, o = job
        if os.path.exists(o):
            os.utime(o)
            return None
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(flags + ["-c", s, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return "%s does not compile:\n%s" % (s, r.stderr[-3000:])
        os.rename(tmp, o)
        return None

    # the template-heavy units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for e in ex.map(one, jobs):
            if e:
                print(e, file=sys.stderr)
                sys.exit(2)
    objs = [o for _, o in jobs]
    exe = os.path.join(BUILD, "mc-" + hashlib.sha256(
        " ".join([flavour] + objs).encode()).hexdigest()[:20])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(cc[:1] + objs + link + ["-o", tmp], capture_output=True, text=True)
        if r.returncode:
            print("link failed:\n" + r.stderr[-3000:], file=sys.stderr)
            sys.exit(2)
        os.rename(tmp, exe)
    prune()
    return exe


def prune(limit=3 << 30):
    """Bound the cache: drop the least recently used build products."""
    fs = []
    for d in (BUILD, os.path.join(BUILD, "obj")):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in fs)
    for m, sz, p in sorted(fs):
        if tot <= limit or m > time.time() - 1800:
            break
        os.unlink(p)
        tot -= sz


def known_findings(prop):
    """key -> text of the findings recorded for this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def run(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    known = known_findings(prop)
    tot = dict(executions=0, states=0, transitions=0, outcomes=0)
    spaces, samples, hits, violation = [], [], set(), None
    for flavour, units in P["runs"]:
        if violation:
            break
        exe = build(flavour, units)
        d = tempfile.mkdtemp(prefix="mc-%s-" % prop)
        try:
            kf = os.path.join(d, "known")
            open(kf, "w").write("".join(k + "\n" for k in known))
            out = os.path.join(d, "out.json")
            env = dict(os.environ)
            env.update(RUN_ENV)
            cmd = [exe, "--tier", tier, "--dir", d, "--known", kf, "--out", out,
                   "--workers", str(os.cpu_count() or 8)]
            r = subprocess.run(cmd, env=env)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print("the explorer ended with %d" % r.returncode, file=sys.stderr)
                sys.exit(3)
            j = json.load(open(out), strict=False)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for k in tot:
            tot[k] += j[k]
        for s in j["spaces"]:
            s["build"] = flavour
            spaces.append(s)
        samples += j["samples"]
        hits |= set(j["known_hit"])
        if j["violation"]:
            violation = dict(j["violation"], flavour=flavour, units=units)
    rc = 0
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if violation:
        rc = 1
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + ".txt")
        with open(path, "w") as f:
            f.write("property %s: %s\n" % (prop, P["title"]))
            f.write("replay with: python3 %s/check.py %s --replay %s\n" % (VERIF, prop, path))
            f.write("build %s %s\n" % (violation["flavour"], " ".join(violation["units"])))
            f.write("space %s\ntier %s\npicks%s\n\n" % (violation["space"], tier, violation["picks"]))
            f.write("what happened: %s\n" % violation["msg"])
            if violation["key"]:
                f.write("key: %s\n" % violation["key"])
            f.write("\nthe execution, step by step:\n%s\n" % violation["log"])
        print("%s: %s" % (violation["space"], violation["msg"][:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"],
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["executions"],
            "distinct_outcomes": tot["outcomes"],
            "exhaustive": not violation,
            "spaces": spaces,
            "samples": samples[:12],
            "known_findings_observed": sorted(hits),
            "rule": "every leaf of the decision tree of every space is one execution "
                    "of the library built from the working tree, run in lock step "
                    "with the reference model; no sampling and no time cap",
        },
        "assumptions": P.get("assumptions", []) + [
            "values, shapes, programs and histories outside the stated bounds are not covered",
            "the library is observed only through its public interface (rendering keeps 6 decimals)",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if rc == 0:
        print("%s holds on %d executions (%d model states, %d transitions, %d distinct outcomes) in %.1f s"
              % (prop, tot["executions"], tot["states"], tot["transitions"],
                 tot["outcomes"], time.time() - t0))
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for p in sorted(PROPS):
            for flavour, units in PROPS[p]["runs"]:
                build(flavour, units)
        print("built")
        return 0
    if a.replay:
        m = re.search(r"^build (\S+) (.*)$", open(a.replay).read(), re.M)
        exe = build(m.group(1), m.group(2).split())
        env = dict(os.environ)
        env.update(RUN_ENV)
        return subprocess.run([exe, "--replay", a.replay], env=env).returncode
    return run(a.prop, a.tier)


if __name__ == "__main__":
    sys.exit(main())
