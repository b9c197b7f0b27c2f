#!/usr/bin/env python3
"""check.py <property id>: builds from /repo, runs the generated-input search, writes evidence.

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; exit 2: the check itself failed
"""
import os, sys, json, time, subprocess, shutil, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build, props

LEVEL = "exploration"


def known_findings(pid):
    """KNOWN property=<id> key=<key> <text>"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def rules():
    import ruletext
    return ruletext.RULE


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("--quick", "--thorough"):
            tier = a[2:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    spec = props.ALL[pid]
    t0 = time.time()
    known = known_findings(pid)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("ARMAS_"):
            del env[k]
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:symbolize=1:max_allocation_size_mb=4096"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1"
    outroot = os.path.join(VERIF, "replays", pid)
    shutil.rmtree(outroot, ignore_errors=True)
    os.makedirs(outroot)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    violations, reports = [], []
    workers = os.cpu_count() or 8
    for i, r in enumerate(spec["runs"]):
        if tier == "quick" and r.get("only") == "thorough":
            continue
        try:
            exe = build.build_bin(pid, r["variant"], r["files"], r.get("ld", ()))
        except build.BuildError as e:
            print("check %s: build failed\n%s" % (pid, e))
            return 2
        out = os.path.join(outroot, "run%d" % i)
        total = r["total"] * (r["thorough"] if tier == "thorough" else 1)
        cmd = [exe, "--prop", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--total", str(int(total)),
               "--mode", r["mode"], "--workers", str(r.get("workers", workers)), "--known", ",".join(known),
               "--cap", str(r.get("cap", 240) * (15 if tier == "thorough" else 1)), "--case-s", str(r.get("case_s", 60))]
        if r.get("maxdim"):
            cmd += ["--maxdim", str(r["maxdim"])]
        if r.get("chunk"):
            cmd += ["--chunk", str(r["chunk"])]
        for g in r["groups"]:
            cmd += ["--group", g]
        e2 = dict(env)
        e2.update(r.get("env", {}))
        p = subprocess.run(cmd, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=out if os.path.isdir(out) else outroot)
        text = p.stdout.decode("utf-8", "replace")
        for line in text.splitlines():
            if not line.startswith("VIOLATION"):
                print(line)
        try:
            rep = json.load(open(os.path.join(out, "report.json")))
        except Exception as ex:
            print("check %s: run %d gave no report (exit %s): %s" % (pid, i, p.returncode, ex))
            return 2
        rep["mode"] = r["mode"]
        rep["run"] = i
        reports.append(rep)
        if p.returncode == 1:
            m = re.search(r"^REPLAYFILE (.*)$", text, re.M)
            path = m.group(1) if m else out
            with open(path, "a") as f:
                f.write("# rerun: cd /verif && python3 replay.py %s %s\n# run %d\n" % (pid, path, i))
            violations.append(path)
            break
        if p.returncode != 0:
            print("check %s: run %d ended with %d" % (pid, i, p.returncode))
            return 2
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL, wall_s=round(wall, 2), violations=len(violations))
    samples = []
    for rep in reports:
        samples += rep["samples"][: max(4, 24 // max(1, len(reports)))]
    ev["coverage"] = dict(
        evaluations=sum(r["evaluations"] for r in reports),
        distinct_nontrivial=sum(r["distinct_nontrivial"] for r in reports),
        discarded=sum(r["discarded"] for r in reports),
        known_finding_hits=sum(r["known_hits"] for r in reports),
        rule=spec.get("rule", "a case is the sequence of choices drawn by the structured generator of a target (operation, shapes, "
             "views, flags, scalars, data class and seed, configuration); it is non-trivial when its operands are non-degenerate "
             "(more than one element, target specific); distinct = distinct choice sequences, counted by hash"),
        samples=samples,
        runs=[dict(variant=r["variant"], mode=r["mode"], evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"],
                   wall_s=r["wall_s"], time_capped=r["time_capped"], notes=r["notes"][:5],
                   targets={k: [v["evaluations"], v["nontrivial"], v["labels"]] for k, v in r["targets"].items()}) for r in reports])
    ev["assumptions"] = spec.get("assumptions", ["IEEE double arithmetic, x86-64 with AVX2/FMA as configured by the project build",
                                                 "reference results in 64-bit-mantissa long double are accurate to well below the compared bounds"])
    tmp = os.path.join(VERIF, "evidence", pid + ".json")
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        ev["coverage"]["samples"] = [s[:160] for s in samples[:8]]
        for r in ev["coverage"]["runs"]:
            r["targets"] = {k: v[:2] for k, v in r["targets"].items()}
        txt = json.dumps(ev)
    with open(tmp, "w") as f:
        f.write(txt)
    for k, t in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall))
    if violations:
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (pid, v))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
