#!/usr/bin/env python3
"""Driver of all checks:  run.py <property> [--replay FILE]   (tier from VERIF_TIER, default quick)

Compiles the harnesses deciding the property from /repo's current tree, lets them enumerate their
state spaces, merges what they covered into evidence/<property>.json and reports violations.
exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself could not run."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PTL_REPO", "/repo")
INC = os.path.join(REPO, "inc")
HARN = os.path.join(ROOT, "harness")
JOBS = os.cpu_count() or 8
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc,--wrap=posix_memalign"]
BASE = ["-std=c++17", "-Wno-deprecated-declarations", "-I" + INC, "-I" + HARN]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,vptr", "-fno-sanitize-recover=all"]
PLAIN = ["-O1", "-g1"]

sys.path.insert(0, ROOT)
from plan import HARNESSES, PROPS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(os.path.relpath(q, p).encode() + b"\0")
                    h.update(open(q, "rb").read())
        else:
            h.update(open(p, "rb").read())
    return h


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class CompileError(Exception):
    pass


def build(name, scratch):
    """returns the binary of a harness, compiled from the current tree"""
    h = HARNESSES[name]
    src = os.path.join(HARN, h.get("src", name + ".cpp"))
    flags = BASE + (SAN if h.get("san", True) else PLAIN) + h.get("flags", []) + h.get("tier_flags", {}).get(TIER, [])
    key = tree_hash([INC, HARN, os.path.join(ROOT, "frozen")])
    key.update(repr((src, flags, h)).encode())
    cache = os.path.join(ROOT, ".build")
    if os.environ.get("VERIF_CACHE"):  # development only: reuse binaries of an identical tree
        os.makedirs(cache, exist_ok=True)
        out = os.path.join(cache, name + "-" + key.hexdigest()[:24])
        if os.path.exists(out): return out
    else:
        out = os.path.join(scratch, name)
    libs = []
    for m in h.get("modules", []):  # separately built modules (C27)
        so = os.path.join(os.path.dirname(out), "lib" + os.path.basename(out) + "-" + m["name"] + ".so")
        inc = m.get("inc", INC).replace("@ROOT@", ROOT).replace("@INC@", INC)
        cmd = [m["cxx"], "-std=c++17", "-Wno-deprecated-declarations", "-fPIC", "-shared", "-I" + inc, "-I" + HARN] + [f.replace("@HARN@", HARN) for f in m["flags"]] + [os.path.join(HARN, m["src"]), "-o", so]
        r = run(cmd)
        if r.returncode: raise CompileError(" ".join(cmd) + "\n" + r.stdout)
        libs.append(so)
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [h.get("cxx", "g++")] + flags + [src, "-o", tmp] + libs + ["-Wl,-rpath," + os.path.dirname(out)] + (WRAP if h.get("wrap", True) else []) + h.get("libs", [])
    r = run(cmd)
    if r.returncode: raise CompileError(" ".join(cmd) + "\n" + r.stdout)
    os.rename(tmp, out)
    return out


def probe(scratch):
    """do the headers compile at all?"""
    f = os.path.join(scratch, "probe.cpp")
    with open(f, "w") as o:
        for n in sorted(os.listdir(os.path.join(INC, "ptl"))):
            if n.endswith(".hpp"): o.write("#include <ptl/%s>\n" % n)
        o.write("int main() {}\n")
    return run(["g++"] + BASE + ["-fsyntax-only", f])


def known_findings(prop):
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l)
        if m and m.group(1) == prop: r.append((re.compile(m.group(2)), m.group(3)))
    return r


def env(h):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:handle_segv=%d" % h.get("handle_segv", 1)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    e["LC_ALL"] = "C"
    return e


def replay(prop, path):
    with tempfile.TemporaryDirectory(prefix="ptl-mc-") as scratch:
        text = open(path).read()
        m = re.search(r"^harness: (\S+)", text, re.M)
        name = m.group(1)
        tier = re.search(r"^tier: (\S+)", text, re.M).group(1)
        try:
            b = build(name, scratch)
        except CompileError as e:
            log(str(e)); return 1
        r = subprocess.run([b, "--prop", prop, "--tier", tier, "--scratch", scratch, "--replay", path], env=env(HARNESSES[name]))
        return 1 if r.returncode else 0


def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == "--setup":
        with tempfile.TemporaryDirectory(prefix="ptl-mc-") as s:
            for c in ("g++", "clang++"):
                r = run([c, "--version"])
                if r.returncode: log(c + " missing"); return 2
            r = probe(s)
            if r.returncode: log(r.stdout); return 2
        log("toolchain present, headers compile"); return 0
    prop = sys.argv[1]
    if "--replay" in sys.argv: return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    names = PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="ptl-mc-")
    try:
        return check(prop, names, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, names, scratch, t0):
    replay_dir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    total = {"quick": 420.0, "thorough": 3000.0}[TIER]
    budget = float(os.environ.get("VERIF_BUDGET", total))
    violations, known, errors, models = [], [], [], []
    bins = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=JOBS) as ex:
        futs = {n: ex.submit(build, n, scratch) for n in names}
        for n, f in futs.items():
            try:
                bins[n] = f.result()
            except CompileError as e:
                p = probe(scratch)
                if p.returncode:
                    log("the headers do not compile:\n" + p.stdout[:4000]); return 2
                path = os.path.join(replay_dir, "%s-%s-compile.txt" % (prop, n))
                with open(path, "w") as o: o.write("harness: %s\ntier: %s\nThe headers compile, but operations the property is about no longer do:\n%s" % (n, TIER, e))
                errs = [l for l in str(e).splitlines() if "error" in l][:3]
                violations.append((path, "uses of the public interface no longer compile: " + " / ".join(errs)[:600]))
    findings = known_findings(prop)
    left = len(bins)
    run_start = time.time()
    for n, b in bins.items():
        out = os.path.join(scratch, n + ".json")
        sd = os.path.join(scratch, n + ".d")
        os.makedirs(sd)
        share = max(20.0, (budget - (time.time() - run_start)) / left)
        left -= 1
        try:
            r = run([b, "--prop", prop, "--tier", TIER, "--jobs", str(JOBS), "--budget", "%.0f" % share, "--scratch", sd, "--out", out], env=env(HARNESSES[n]), timeout=share + 300)
            code, text = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            errors.append("%s did not finish" % n); continue
        if code not in (0, 1) or not os.path.exists(out):
            errors.append("%s ended with %d: %s" % (n, code, text[-3000:])); continue
        d = json.load(open(out))
        for m in d["models"]:
            m["harness"] = n
            models.append(m)
            f = m.get("failure")
            if not f: continue
            if f["kind"] in ("unreproducible", "diverged"):
                errors.append("%s / %s: %s\n%s" % (n, m["model"], f["msg"], f["log"][-2000:])); continue
            what = "%s: %s (operation: %s)" % (m["model"], f["msg"], f["label"])
            hit = [k for k in findings if k[0].search(what)]
            if hit: known.append(hit[0][1]); continue
            path = os.path.join(replay_dir, "%s-%s.txt" % (prop, n))
            with open(path, "w") as o:
                o.write("property: %s\nharness: %s\ntier: %s\nmodel: %s\n" % (prop, n, TIER, m["model"]))
                for c in f["choices"]: o.write("choices: %s\n" % c)
                o.write("# replay: python3 %s/run.py %s --replay <this file>\n# what: %s\n# log:\n" % (ROOT, prop, what.replace("\n", " ")))
                o.write("".join("# " + l + "\n" for l in f["log"].splitlines()))
            violations.append((path, what))
    for w in known: log("KNOWN-FINDING: property=%s %s" % (prop, w))
    write_evidence(prop, models, violations, time.time() - t0)
    for m in models:
        log("%-9s %-52s states=%d transitions=%d executions=%d faults=%d depth=%d %s%.1fs" % (m["harness"], m["model"], m["states"], m["transitions"], m["executions"], m["faults"], m["depth"], ("[" + m["cap"] + "] ") if m["cap"] else "", m["wall"]))
    for p, w in violations:
        log("  " + w)
        log("VIOLATION property=%s replay=%s" % (prop, p))
    if violations: return 1
    if errors:
        for e in errors: log("ERROR " + e)
        return 2
    log("%s held on everything explored (%.1fs)" % (prop, time.time() - t0))
    return 0


def write_evidence(prop, models, violations, wall):
    samples = []
    for m in models:
        for s in m["samples"][:3]: samples.append({"model": m["model"], "execution": s})
    if not samples: samples = [{"model": "-", "execution": "no execution completed"}]
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in models),
            "transitions": sum(m["transitions"] for m in models),
            "traces_validated_against_impl": sum(m["executions"] for m in models),
            "faults_injected": sum(m["faults"] for m in models),
            "exhaustive": all(m["complete"] for m in models),
            "models": [{k: m[k] for k in ("harness", "model", "states", "transitions", "executions", "faults", "depth", "complete", "cap", "foreign", "labels", "wall")} for m in models],
            "rule": "Every choice list (operation, overload, position, count, source, fault point) of every reached state is executed on the real headers in lock-step with the reference model; states = distinct canonical states (histories where states are not merged), transitions = distinct (state, operation, successor), traces = executions of the implementation compared with the reference step by step.",
            "samples": samples[:24],
        },
        "assumptions": ["bounded: object sizes, value alphabet and depth as stated in DESIGN.md", "x86-64, libstdc++, g++ 13 (and clang 18 where stated)", "merging states by canonical key: characters/element values do not influence control flow of the operations (values are made distinct before each operation)"],
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as o: json.dump(ev, o, indent=1)
    os.rename(tmp, os.path.join(ROOT, "evidence", prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
