#!/usr/bin/env python3
"""Run the check of one property: build what it needs from /repo, search for a
counterexample with generated inputs, write the evidence file.

  check.py <id>             quick or thorough by VERIF_TIER, seeded by VERIF_SEED
  check.py --replay FILE    run a saved counterexample again
  check.py --setup          build everything once
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "target", "out")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")

try:
    HAS_AVX2 = " avx2 " in open("/proc/cpuinfo").read().replace("\n", " \n ")
except OSError:
    HAS_AVX2 = False

AVX2_FLAGS = "-C target-cpu=x86-64 -C target-feature=+avx2"
SSE2_FLAGS = "-C target-cpu=x86-64"
# name: (cargo features, RUSTFLAGS, profile)
CONFIGS = {
    "avx2": ("simd", AVX2_FLAGS, "dev"),
    "sse2": ("simd", SSE2_FLAGS, "dev"),
    "scalar": ("", SSE2_FLAGS, "dev"),
    "avx2-release": ("simd", AVX2_FLAGS, "release"),
    "sse2-release": ("simd", SSE2_FLAGS, "release"),
    # The aarch64 parser with its intrinsics emulated: see prepare_neon.
    "neon": ("simd", SSE2_FLAGS, "dev"),
    "net": ("simd,net", AVX2_FLAGS if HAS_AVX2 else SSE2_FLAGS, "dev"),
    "net-release": ("simd,net", AVX2_FLAGS if HAS_AVX2 else SSE2_FLAGS, "release"),
}
if not HAS_AVX2:
    del CONFIGS["avx2"], CONFIGS["avx2-release"]

# property: {config: (quick cases, thorough cases)}
CORE = {"avx2": (1_500_000, 30_000_000)}
TRIPLE = {"avx2": (1_500_000, 30_000_000), "sse2": (600_000, 10_000_000), "scalar": (600_000, 10_000_000)}
MORE = {"avx2": (4_000_000, 60_000_000)}
PLAN = {
    "C01": {"avx2": (250_000, 4_000_000), "sse2": (100_000, 2_000_000), "scalar": (100_000, 2_000_000), "avx2-release": (250_000, 4_000_000)},
    "C02": dict(TRIPLE, neon=(300_000, 5_000_000)),
    "C03": {"avx2": (5_000_000, 60_000_000), "sse2": (1_500_000, 20_000_000), "scalar": (1_500_000, 20_000_000)},
    "C04": {"avx2": (200_000, 4_000_000)},
    "C05": {"avx2": (600_000, 15_000_000), "sse2": (200_000, 5_000_000), "scalar": (200_000, 5_000_000)},
    "C06": {"avx2": (2_000_000, 30_000_000), "scalar": (500_000, 5_000_000)},
    "C07": {"avx2": (6_000_000, 60_000_000)},
    "C33": {"avx2": (240_000, 6_000_000), "sse2": (120_000, 3_000_000), "scalar": (120_000, 3_000_000)},
    "C18": {"avx2": (500_000, 10_000_000)},
    "C19": {"avx2": (500_000, 10_000_000)},
    "C20": {"avx2": (600_000, 10_000_000)},
    "C35": {"avx2": (1_000_000, 10_000_000)},
    "C37": {"avx2": (1_500_000, 30_000_000)},
    "C38": {"avx2": (100_000, 3_000_000)},
}
for n in list(range(8, 18)) + [21, 22]:
    PLAN["C%02d" % n] = CORE
for n in (9, 14, 15, 17):
    PLAN["C%02d" % n] = MORE
PLAN["C21"] = PLAN["C22"] = PLAN["C11"] = PLAN["C10"] = {"avx2": (900_000, 20_000_000)}
NET = {
    "C23": (80_000, 2_000_000), "C24": (60_000, 1_500_000), "C25": (60_000, 1_500_000), "C26": (80_000, 2_000_000),
    "C27": (80_000, 2_000_000), "C28": (80_000, 2_000_000), "C29": (80_000, 2_000_000), "C30": (50_000, 1_000_000),
    "C31": (80_000, 2_000_000), "C32": (200_000, 4_000_000), "C34": (80_000, 2_000_000), "C36": (80_000, 2_000_000),
    "C39": (6_000, 200_000),
    "C40": (20_000, 800_000),
}
# A quarter more in the build users have, where debug assertions are not evaluated.
PLAN.update({k: {"net": (a, b), "net-release": (a // 4, b // 4)} for k, (a, b) in NET.items()})

PEERS = {"C04": ["sse2", "scalar", "avx2-release", "neon"]}
# Builds which a property can do without.
OPTIONAL = {"neon"}
ASSUMPTIONS = {
    "*": ["The x86-64 code paths are checked, and the NEON parser with emulated intrinsics (C02, C04); the AVX-512 file is not part of the crate."],
}


def fail(msg):
    print("error: " + msg, file=sys.stderr)
    sys.exit(2)


def plan(prop):
    p = dict(PLAN[prop])
    if not HAS_AVX2:
        for a, b in (("avx2", "sse2"), ("avx2-release", "sse2-release")):
            if a in p:
                v = p.pop(a)
                p[b] = max(v, p.get(b, (0, 0)))
    return p


def peers(prop, there=None):
    return [c for c in PEERS.get(prop, []) if c in CONFIGS and (there is None or c in there)]


def binary(config):
    prof = CONFIGS[config][2]
    return os.path.join(TARGET, config, "debug" if prof == "dev" else "release", "vh")


def put(path, data):
    """Write a file unless it has that content (cargo goes by modification times)."""
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def prepare_neon():
    """A copy of /repo in which every cfg for aarch64 and NEON holds, none for
    x86-64 does, and core::arch::aarch64 is an emulation."""
    root = os.path.join(TARGET, "neon-src")
    repo = os.path.normpath(os.path.join(VERIF, "..", "repo"))
    here = os.path.join(root, "v", "harness")
    wanted = set()
    for d, dirs, files in os.walk(repo):
        dirs[:] = [x for x in dirs if x not in (".git", "target")]
        for f in files:
            path = os.path.join(d, f)
            rel = os.path.relpath(path, repo)
            if os.path.islink(path) or f.endswith(".snap") or rel.startswith("benches/data"):
                continue
            data = open(path, "rb").read()
            if rel.startswith("src/") and f.endswith(".rs"):
                t = data.decode()
                for x in ('target_arch = "aarch64"', 'target_feature = "neon"'):
                    t = t.replace(x, "all()")
                for x in ('target_arch = "x86_64"', 'target_feature = "sse2"', 'target_feature = "avx2"'):
                    t = t.replace(x, "any()")
                t = t.replace("core::arch::aarch64", "crate::neon_emu").replace("std::arch::aarch64", "crate::neon_emu")
                if rel == "src/lib.rs":
                    t += "\nmod neon_emu;\n"
                data = t.encode()
            wanted.add(rel)
            put(os.path.join(root, "repo", rel), data)
    put(os.path.join(root, "repo", "src", "neon_emu.rs"), open(os.path.join(HARNESS, "neon", "emu.rs"), "rb").read())
    wanted.add("src/neon_emu.rs")
    for d, _, files in os.walk(os.path.join(root, "repo")):
        for f in files:
            path = os.path.join(d, f)
            if os.path.relpath(path, os.path.join(root, "repo")) not in wanted:
                os.remove(path)
    for f in ("Cargo.toml", "Cargo.lock"):
        put(os.path.join(here, f), open(os.path.join(HARNESS, f), "rb").read())
    link = os.path.join(here, "src")
    if not os.path.islink(link):
        os.symlink(os.path.join(HARNESS, "src"), link)
    return here


def build(configs):
    """Build these; the result names those which are there."""
    procs = []
    for c in configs:
        features, flags, prof = CONFIGS[c]
        cwd = HARNESS
        if c == "neon":
            try:
                cwd = prepare_neon()
            except (OSError, UnicodeDecodeError) as e:
                print("note: no neon build: %s" % e)
                continue
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", os.path.join(TARGET, c)]
        if features:
            cmd += ["--features", features]
        if prof == "release":
            cmd.append("--release")
        env = dict(os.environ, RUSTFLAGS=flags + " -A warnings", CARGO_TERM_COLOR="never")
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        env.pop("CARGO_TARGET_DIR", None)
        procs.append((c, subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    there, failed = set(), []
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode == 0:
            there.add(c)
        elif c in OPTIONAL:
            print("note: no %s build:\n%s" % (c, out[-1000:]))
        else:
            failed.append("building %s failed:\n%s" % (c, out))
    if failed:
        fail(failed[0])
    return there


def known_lines(prop):
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return []
    r = []
    for l in lines:
        if l.startswith("known: property=%s " % prop):
            r.append(l[len("known: "):])
    return r


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    p = plan(prop)
    there = build(dict.fromkeys(list(p) + peers(prop)))
    p = {c: v for c, v in p.items() if c in there}
    asked = peers(prop, there)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    threads = os.cpu_count() or 8
    results, violation = {}, None
    evidence_path = os.path.join(EVIDENCE, prop + ".json")
    if os.path.exists(evidence_path):
        os.remove(evidence_path)
    budget = 600 if tier == "quick" else 6 * 3600
    for config, (quick, thorough) in p.items():
        out = os.path.join(OUT, "%s-%s.json" % (prop, config))
        cases = quick if tier == "quick" else thorough
        left = max(30, int(budget - (time.time() - t0)))
        cmd = [binary(config), "run", "--prop", prop, "--seed", str(seed), "--config", config, "--cases", str(cases),
               "--threads", str(threads), "--out", out, "--replay-dir", REPLAYS, "--known", KNOWN, "--max-seconds", str(left)]
        if asked:
            cmd += ["--peers"] + [binary(c) for c in asked]
        r = subprocess.run(cmd, cwd=VERIF)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            fail("%s in %s gave no answer (exit %d)" % (prop, config, r.returncode))
        res = json.load(open(out))
        results[config] = res
        if r.returncode == 1:
            violation = (config, res["failure"])
            break
    any_bin = binary(next(iter(p)))
    hashes = [os.path.join(OUT, "%s-%s.json.hashes" % (prop, c)) for c in results]
    distinct = int(subprocess.run([any_bin, "distinct"] + hashes, capture_output=True, text=True, check=True).stdout)
    rule = subprocess.run([any_bin, "rule", "--prop", prop], capture_output=True, text=True, check=True).stdout.strip()
    samples = []
    for c, r in results.items():
        samples += [dict(x, configuration=c) for x in r.get("samples", [])][:6]
    labels = {}
    known = {}
    for r in results.values():
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r.get("known", {}).items():
            known[k] = known.get(k, 0) + v
    coverage = {
        "evaluations": sum(r["evaluations"] for r in results.values()),
        "distinct_nontrivial": distinct,
        "rule": rule,
        "samples": samples[:12] or ["(the search ended before a sample was taken)"],
        "labels": labels,
        "configurations": {c: {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct"], "streams": r.get("streams", {})} for c, r in results.items()},
    }
    if peers(prop):
        coverage["compared_with"] = asked
    if known:
        coverage["known_findings_met"] = known
    if violation:
        coverage["violation"] = dict(violation[1], configuration=violation[0])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": ASSUMPTIONS.get(prop, []) + ASSUMPTIONS["*"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    tmp = evidence_path + ".tmp"
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=True)
    os.replace(tmp, evidence_path)
    for l in known_lines(prop):
        print("KNOWN-FINDING: " + l)
    if violation:
        f = violation[1]
        print("%s fails in build %s, stream %s: %s" % (prop, violation[0], f["stream"], f["message"]))
        for l in f["case"]:
            print("  " + (l if len(l) < 2000 else l[:2000] + "..."))
        print("VIOLATION property=%s replay=%s" % (prop, f["replay"]))
        sys.exit(1)
    print("%s held on %d cases (%d distinct non-trivial), %s, seed %d, %.1f s" % (prop, coverage["evaluations"], distinct, tier, seed, time.time() - t0))


def replay(path):
    j = json.load(open(path))
    config, prop = j["config"], j["property"]
    if config not in CONFIGS:
        fail("this machine cannot build %s" % config)
    there = build(dict.fromkeys([config] + peers(prop)))
    if config not in there:
        fail("%s cannot be built" % config)
    cmd = [binary(config), "replay", path]
    asked = peers(prop, there)
    if asked:
        cmd += ["--peers"] + [binary(c) for c in asked]
    sys.exit(subprocess.run(cmd, cwd=VERIF).returncode)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        used = {c for p in PLAN for c in list(plan(p)) + peers(p)}
        build(sorted(used))
    elif len(a) == 2 and a[0] == "--replay":
        replay(os.path.abspath(a[1]))
    elif len(a) == 1 and a[0] in PLAN:
        check(a[0])
    else:
        fail("usage: check.py <property> | --replay FILE | --setup")


if __name__ == "__main__":
    main()
