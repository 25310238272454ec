#!/usr/bin/env python3
"""Runs the check of one property: run.py PROPERTY quick|thorough

Builds the variants of the monitor which the property needs from the current /repo, runs them, confirms crashes and
hangs in isolation, and writes evidence/PROPERTY.json. Exit: 0 held, 1 violated, 2 no answer."""
import concurrent.futures as cf
import hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TMF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
HARNESS = os.path.join(HERE, "harness")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
FINDINGS = os.path.join(HERE, "known_findings.txt")
TARGET = "x86_64-unknown-linux-gnu"
GB = 1 << 30
CFG = "--cfg tmf_monitor"

# name -> features of the harness, flags of rustc, toolchain, further options of cargo
VARIANTS = {
    "base": dict(),
    "tri": dict(features="triangulation"),
    "byte": dict(features="byte_rw"),
    "fast": dict(features="fast_trig,byte_rw,triangulation"),
    "wide": dict(features="wide"),
    "narrow": dict(features="narrow"),
    "mon": dict(flags=CFG),
    "tokio": dict(features="tokio_rt", flags=CFG),
    "mix1": dict(features="double,narrow,triangulation,tokio_rt,byte_rw"),
    "mix2": dict(features="long,fast_trig,triangulation"),
    "release": dict(profile="release"),
    "asan": dict(features="triangulation", flags="-Zsanitizer=address", nightly=True),
    "asanfast": dict(features="fast_trig,byte_rw,tokio_rt", flags="-Zsanitizer=address", nightly=True),
    "msan": dict(flags="--cfg tmf_nofill -Zsanitizer=memory -Zsanitizer-memory-track-origins", nightly=True, std=True),
    "tsan": dict(features="tokio_rt", flags=CFG + " -Zsanitizer=thread", nightly=True, std=True),
    "miri": dict(features="tokio_rt,triangulation,fast_trig", nightly=True, miri=True),
}
SANITIZED = {"asan", "asanfast", "msan", "tsan", "miri"}

# property -> tier -> [(variant, seconds, options)]
Q, T = "quick", "thorough"
def plan(quick, thorough=None):
    return {Q: quick, T: thorough or [(v, s * 12, *r) for v, s, *r in quick]}
PLANS = {
    "C01": plan([("base", 9), ("wide", 5), ("narrow", 5), ("tokio", 3)], [("base", 150), ("wide", 70), ("narrow", 70), ("fast", 60), ("tokio", 60), ("release", 60)]),
    "C02": plan([("base", 10), ("wide", 6), ("narrow", 4)], [("base", 240), ("wide", 120), ("narrow", 60), ("release", 60)]),
    "C03": plan([("base", 9), ("wide", 5), ("fast", 5)], [("base", 200), ("wide", 120), ("fast", 120)]),
    "C04": plan([("base", 9), ("wide", 5), ("fast", 5)], [("base", 200), ("wide", 120), ("fast", 120)]),
    "C05": plan([("base", 9), ("wide", 6), ("narrow", 4)], [("base", 200), ("wide", 120), ("narrow", 60)]),
    "C06": plan([("base", 9), ("wide", 6), ("narrow", 6)], [("base", 180), ("wide", 120), ("narrow", 120), ("byte", 60)]),
    "C07": plan([("base", 12), ("wide", 6), ("narrow", 5), ("tokio", 4)], [("base", 120), ("wide", 60), ("narrow", 50), ("tokio", 60), ("fast", 60), ("release", 40), ("asan", 90)]),
    "C08": plan([("base", 10), ("tokio", 6)], [("base", 240), ("tokio", 120), ("byte", 60)]),
    "C09": plan([("base", 10), ("wide", 5), ("narrow", 5)], [("base", 240), ("wide", 60), ("narrow", 60)]),
    "C10": plan([("base", 9), ("wide", 5), ("narrow", 5), ("byte", 4), ("tokio", 3)], [("base", 160), ("wide", 80), ("narrow", 80), ("fast", 80), ("tokio", 60)]),
    "C11": plan([("base", 9), ("wide", 5), ("narrow", 4)], [("base", 180), ("wide", 90), ("narrow", 60)]),
    "C12": plan([("base", 9), ("wide", 5), ("narrow", 4), ("fast", 3)], [("base", 160), ("wide", 80), ("narrow", 60), ("fast", 60)]),
    "C13": plan([("base", 9), ("narrow", 5), ("wide", 4)], [("base", 180), ("narrow", 90), ("wide", 60)]),
    "C14": plan([("base", 9), ("narrow", 5), ("wide", 4)], [("base", 180), ("narrow", 90), ("wide", 60)]),
    "C15": plan([("base", 10), ("wide", 5), ("narrow", 4)], [("base", 180), ("narrow", 90), ("wide", 60)]),
    "C16": plan([("base", 9), ("tri", 5), ("wide", 4), ("narrow", 4)], [("base", 160), ("tri", 80), ("wide", 80), ("narrow", 60)]),
    "C17": plan([("base", 9), ("wide", 5), ("narrow", 5)], [("base", 160), ("tri", 80), ("wide", 80), ("narrow", 80)]),
    "C18": plan([("base", 9), ("tri", 6), ("narrow", 4)], [("base", 130), ("tri", 100), ("wide", 50), ("narrow", 50), ("release", 40), ("asan", 80)]),
    "C19": plan([("tri", 13), ("mix1", 5)], [("tri", 300), ("fast", 100)]),
    "C20": plan([("mon", 8), ("tokio", 8), ("base", 20, "digest=2500"), ("tokio", 20, "digest=2500"), ("byte", 20, "digest=2500")],
                [("mon", 120), ("tokio", 120), ("base", 90, "digest=20000"), ("tokio", 90, "digest=20000"), ("byte", 90, "digest=20000"), ("tsan", 120)]),
    "C21": plan([("base", 8), ("wide", 4), ("base", 20, "digest=4000"), ("base", 20, "digest=4000,threads=3")],
                [("base", 120), ("wide", 60), ("narrow", 60), ("base", 90, "digest=40000"), ("base", 90, "digest=40000,threads=3"), ("byte", 90, "digest=40000"), ("release", 90, "digest=40000")]),
    "C22": plan([("base", 9), ("byte", 8), ("wide", 3)], [("base", 180), ("byte", 180), ("wide", 60), ("release", 60)]),
    "C23": plan([("base", 10), ("wide", 4), ("narrow", 4)], [("base", 240), ("wide", 60), ("narrow", 60)]),
    "C24": plan([("base", 9), ("wide", 6), ("fast", 4)], [("base", 200), ("wide", 120)]),
    "C25": plan([("base", 10), ("tokio", 5), ("wide", 4)], [("base", 200), ("tokio", 100), ("wide", 60)]),
    "C26": plan([("base", 8), ("asan", 8)], [("base", 80), ("wide", 40), ("asan", 100), ("asanfast", 80), ("msan", 90), ("miri", 100, "procs=8")]),
    "C27": plan([("base", 10), ("wide", 5), ("narrow", 4)], [("base", 240), ("wide", 60), ("narrow", 60)]),
    "C29": plan([("base", 10), ("wide", 5), ("tri", 5)], [("base", 160), ("wide", 80), ("tri", 60), ("narrow", 60), ("tokio", 60), ("asan", 60)]),
    "C30": plan([("base", 16), ("wide", 6), ("tri", 8)], [("base", 200), ("wide", 80), ("narrow", 60), ("tri", 80), ("fast", 60), ("release", 60)]),
}
# Mixtures of features which no other variant has.
for _p, _t in PLANS.items():
    if _p not in ("C26", "C30"):
        _t[T] += [("mix1", 40), ("mix2", 30)]
LEVEL = {"C08": "fault_enumeration"}
HANG = 60
CONFIRM = 120

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as x:
            h.update(x.read())
    return h.hexdigest()

def build(name, use_hook=True):
    """Builds a variant; returns (program or None, description)."""
    v = VARIANTS[name]
    tdir = os.path.join(BUILD, name)
    os.makedirs(tdir, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    flags = v.get("flags", "")
    if not use_hook:
        flags = flags.replace(CFG, "").strip()
    if flags:
        env["RUSTFLAGS"] = flags
    cargo = ["cargo"] + (["+nightly"] if v.get("nightly") else [])
    target = ["--target", TARGET] if v.get("nightly") else []
    profile = v.get("profile", "dev")
    if v.get("miri"):
        # Interpreted: built when it runs, through a script that stands for the program.
        p = os.path.join(tdir, "tmfmon-miri")
        stamp = os.path.join(tdir, "repo.sha256")
        if not os.path.exists(stamp) or open(stamp).read() != repo_hash():
            shutil.rmtree(os.path.join(tdir, "miri"), ignore_errors=True)
        open(stamp, "w").write(repo_hash())
        with open(p, "w") as f:
            f.write("#!/bin/sh\ncd %s || exit 2\nexport CARGO_TARGET_DIR=%s CARGO_NET_OFFLINE=true MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-deterministic-floats'\n"
                    "exec cargo +nightly miri run --offline -q --features %s -- \"$@\"\n" % (HARNESS, tdir, v["features"]))
        os.chmod(p, 0o755)
        if subprocess.run(["sh", "-c", "cargo +nightly miri --version"], cwd=HARNESS, env=env, capture_output=True).returncode != 0:
            return None, "Miri does not run"
        r = subprocess.run([p, "none"], cwd=HARNESS, env=env, capture_output=True, text=True)
        if "usage: tmfmon" not in r.stderr:
            return None, "variant miri does not build: %s" % r.stderr[-2000:]
        return p, "Miri"
    # A stamp of the sources, since cargo goes by modification times alone.
    stamp, want = os.path.join(tdir, "repo.sha256"), repo_hash() + str(use_hook)
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have is not None and have != want:
        subprocess.run(cargo + ["clean", "--offline", "-p", "tmf", "--profile", profile] + target, cwd=HARNESS, env=env, capture_output=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    cmd = cargo + ["build", "--offline", "--profile", profile] + target
    if v.get("features"):
        cmd += ["--features", v["features"]]
    if v.get("std"):
        cmd += ["-Zbuild-std"]
    try:
        r = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "the build of variant %s took over 600 s" % name
    if r.returncode != 0:
        if use_hook and CFG in v.get("flags", ""):
            p, d = build(name, False)
            return p, d + " (without the hook, with which it does not build)" if p else d
        return None, "variant %s does not build: %s" % (name, r.stderr[-3000:])
    open(stamp, "w").write(want)
    p = os.path.join(tdir, *([TARGET] if target else []), "debug" if profile == "dev" else profile, "tmfmon")
    return p, " ".join(x for x in (v.get("features", ""), flags, profile) if x)

def limits(sanitized):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not sanitized:
            resource.setrlimit(resource.RLIMIT_AS, (14 * GB, 14 * GB))
        os.setsid()
    return f

def execute(args, variant, timeout):
    """Runs a program in a session of its own; returns (code or None when out of time, stdout, stderr tail)."""
    env = dict(os.environ)
    env.update(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=8192:exitcode=99", MSAN_OPTIONS="exitcode=99", TSAN_OPTIONS="exitcode=99:halt_on_error=1", RUST_BACKTRACE="0")
    with tempfile.TemporaryFile() as so, tempfile.TemporaryFile() as se:
        p = subprocess.Popen(args, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=env, cwd=BUILD, preexec_fn=limits(variant in SANITIZED))
        try:
            code = p.wait(timeout)
        except subprocess.TimeoutExpired:
            code = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        def text(f, n):
            size = f.seek(0, 2)
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
        return code, text(so, 100000), text(se, 12000)

def run_stage(prop, tier, seed, index, variant, prog, secs, opts, problems):
    """Runs the monitor; returns (report, violations)."""
    journal = os.path.join(BUILD, "journal-%s-%d" % (prop, index))
    outf = os.path.join(BUILD, "report-%s-%d.json" % (prop, index))
    sseed = seed if "digest" in opts else seed * 1000 + index
    common = ["--seed", str(sseed), "--tier", tier]
    threads = opts.get("threads", "8")
    skip = []
    violations = []
    hang = 500 if variant == "miri" else HANG
    for attempt in range(3):
        if os.path.exists(outf):
            os.unlink(outf)
        args = [prog, "run", prop, *common, "--secs", str(secs), "--threads", threads, "--journal", journal, "--hang", str(hang), "--out", outf]
        if "digest" in opts:
            args += ["--digest", "--cases", opts["digest"]]
        if skip:
            args += ["--skip", ",".join(map(str, skip))]
        code, out, err = execute(args, variant, secs + 2 * hang + 60)
        if code == 0 and os.path.exists(outf):
            with open(outf) as f:
                rep = json.load(f)
            rep["seed"] = sseed
            return rep, violations
        # Crashed or hung: which case was it?
        cases = []
        for l in out.splitlines():
            if l.startswith("HANG "):
                cases.append(int(l.split()[1]))
        if not cases and os.path.exists(journal):
            raw = open(journal, "rb").read()
            cases = [c for c in struct.unpack("<%dQ" % (len(raw) // 8), raw[: len(raw) // 8 * 8]) if c != (1 << 64) - 1]
        confirmed = None
        for c in sorted(set(cases))[:9]:
            o2 = outf + ".only"
            if os.path.exists(o2):
                os.unlink(o2)
            k2, out2, err2 = execute([prog, "run", prop, *common, "--only", str(c), "--hang", str(CONFIRM - 20), "--out", o2], variant, CONFIRM)
            if k2 != 0 or not os.path.exists(o2):
                hang = k2 is None or k2 == 3
                what = "did not finish within %d s" % (CONFIRM - 20) if hang else "ended the process (%s)" % ("signal %d" % -k2 if k2 < 0 else "exit code %d" % k2)
                confirmed = dict(case=c, sig="hang" if hang else "crash", msg="case %d %s on its own. %s" % (c, what, summary(err2)))
                break
            with open(o2) as f:
                for v in json.load(f)["violations"]:
                    violations.append(v)
            if violations:
                confirmed = violations.pop()
                break
        if confirmed is None:
            problems.append("stage %s ended with %s, which no case repeats on its own: %s" % (variant, code, summary(err)))
            if attempt == 0 and code is not None:
                continue
            return None, violations
        violations.append(confirmed)
        return None, violations
    return None, violations

def run_many(prop, tier, seed, index, variant, prog, secs, opts, problems):
    """Runs a stage as several processes of one thread each, with a seed each; returns one report."""
    n = int(opts["procs"])
    opts = dict(opts, threads="1")
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda k: run_stage(prop, tier, seed, index * 10 + 100 + k, variant, prog, secs, opts, problems), range(n)))
    vs = [dict(v, seed=seed * 1000 + index * 10 + 100 + k) for k, (_, l) in enumerate(res) for v in l]
    reps = [r for r, _ in res if r is not None]
    if not reps:
        return None, vs
    out = dict(reps[0])
    for r in reps:
        vs += [dict(v, seed=r["seed"]) for v in r["violations"]]
    for k in ("evaluations", "distinct", "orders"):
        out[k] = sum(r[k] for r in reps)
    out["stats"] = {k: sum(r["stats"].get(k, 0) for r in reps) for r in reps for k in r["stats"]}
    out["harness"] = [h for r in reps for h in r["harness"]]
    out["violations"] = []
    return out, vs

def summary(err):
    lines = [l for l in err.splitlines() if l.strip()]
    for i, l in enumerate(lines):
        if "Sanitizer" in l or "Undefined Behavior" in l or "memory allocation of" in l or "overflowed its stack" in l:
            return " | ".join(x.strip() for x in lines[i:i + 14])[:1800]
    return " | ".join(x.strip() for x in lines[-4:])[:800]

def known_keys(prop):
    keys, fixed = {}, 0
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                keys[key[len("key="):]] = what
    return keys

def main():
    if len(sys.argv) != 3 or sys.argv[1] not in PLANS or sys.argv[2] not in (Q, T):
        log("usage: run.py PROPERTY quick|thorough")
        return 2
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) & 0xFFFFFFFF
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    stages = [(s[0], s[1], dict(x.split("=") for x in s[2].split(",")) if len(s) > 2 else {}) for s in PLANS[prop][tier]]
    names = list(dict.fromkeys(s[0] for s in stages))
    problems, built = [], {}
    with cf.ThreadPoolExecutor(5) as ex:
        for n, (p, d) in zip(names, ex.map(build, names)):
            built[n] = (p, d)
            if p is None:
                problems.append(d)
    main_variant = names[0]
    if built[main_variant][0] is None:
        print("no answer: %s" % built[main_variant][1])
        return 2
    build_s = time.time() - t0
    evals = distinct = orders = 0
    stats, maxi, samples, rule = {}, {}, [], ""
    known, all_v, harness, per, digests = {}, [], [], [], []
    for i, (variant, secs, opts) in enumerate(stages):
        prog, desc = built[variant]
        if prog is None:
            continue
        if "procs" in opts:
            rep, vs = run_many(prop, tier, seed, i, variant, prog, secs, opts, problems)
        else:
            rep, vs = run_stage(prop, tier, seed, i, variant, prog, secs, opts, problems)
        for v in vs:
            all_v.append((variant, v.pop("seed", seed * 1000 + i if "digest" not in opts else seed), v))
        if rep is None:
            per.append(dict(variant=variant, options=desc, complete=False))
            continue
        rule = rep["rule"]
        again = "digest" in opts and any(d[0] for d in digests)
        if not again:
            evals += rep["evaluations"]
            distinct += rep["distinct"]
            samples += rep["samples"]
        orders += rep["orders"]
        for k, n in rep["stats"].items():
            stats[k] = stats.get(k, 0) + n
        for k, n in rep["max"].items():
            maxi[k] = max(n, maxi.get(k, n))
        for k, d in rep["known"].items():
            e = known.setdefault(k, [0, d["example"]])
            e[0] += d["count"]
        for v in rep["violations"]:
            all_v.append((variant, rep["seed"], v))
        harness += ["%s: %s" % (variant, h) for h in rep["harness"]]
        per.append(dict(variant=variant, options=desc, evaluations=rep["evaluations"], distinct_nontrivial=rep["distinct"], orders=rep["orders"], seed=rep["seed"], wall_s=rep["wall"]))
        if "digest" in opts:
            digests.append((variant + ("/" + opts["threads"] if "threads" in opts else ""), {c: d for c, d in rep["digests"]}))
        if len(all_v) > 60:
            break
    # The same cases, run in different processes and builds, must have the same results.
    compared = 0
    if digests:
        n0, d0 = digests[0]
        for n, d in digests[1:]:
            for c in sorted(set(d0) & set(d)):
                compared += 1
                if d0[c] != d[c]:
                    all_v.append((n, seed, dict(case=c, sig="builds", msg="case %d has the result %s in %s and %s in %s" % (c, d0[c], n0, d[c], n))))
                    break
        stats["results compared between processes"] = compared
    keys = known_keys(prop)
    for k, (n, ex) in known.items():
        if k in keys:
            print("KNOWN-FINDING: property=%s key=%s %s (%d times; for example: %s)" % (prop, k, keys[k], n, ex[:300]))
        else:
            all_v.append((main_variant, seed * 1000, dict(case=-1, sig="known:" + k, msg=ex)))
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=rule, samples=samples[:8], observed=stats, highest=maxi,
                            known_findings={k: n for k, (n, _) in known.items()}, stages=per, build_s=round(build_s, 1), problems=problems + harness[:10]),
              wall_s=round(time.time() - t0, 1), violations=len(all_v))
    if orders:
        ev["coverage"]["distinct_interleavings"] = orders
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in problems + harness[:5]:
        log("problem:", p)
    if all_v:
        seen = set()
        for variant, s, v in all_v:
            if v["sig"] in seen:
                continue
            seen.add(v["sig"])
            path = os.path.join(REPLAYS, "%s-%d.json" % (prop, len(seen)))
            prog = built.get(variant.split("/")[0], (None, ""))[0]
            with open(path, "w") as f:
                json.dump(dict(property=prop, variant=variant, options=built.get(variant.split("/")[0], ("", ""))[1], seed=s, case=v["case"], kind=v["sig"], what=v["msg"],
                               replay="%s run %s --seed %d --tier %s --only %d" % (prog, prop, s, tier, v["case"])), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s: %s" % (variant, v["sig"], v["msg"][:700].replace("\n", " ")))
            if len(seen) >= 5:
                break
        return 1
    if harness or any("no case repeats" in p for p in problems) or evals == 0:
        print("no answer: %s" % "; ".join((harness + problems)[:3]))
        return 2
    print("held: property=%s %d evaluations, %d distinct and non-trivial, %.0f s" % (prop, evals, distinct, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
