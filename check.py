#!/usr/bin/env python3
"""Runs the check of one property:  check.py ID quick|thorough     (VERIF_SEED selects the workload)
Replays a recorded violation:       check.py --replay FILE

Every check builds the library from /repo's working tree with the instrumentation it needs, runs its
harness in parallel worker processes, and judges what the oracles, monitors and sanitizers reported.
Exit 0: held on everything observed.  1: violated.  2: the check itself could not run."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{VERIF}/native")
import build as B
from checks import CHECKS

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:handle_abort=1:malloc_context_size=12:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
           TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4",
           ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18" if os.path.exists("/usr/bin/llvm-symbolizer-18") else "")
if not ENV["ASAN_SYMBOLIZER_PATH"]:
    del ENV["ASAN_SYMBOLIZER_PATH"]


def known(pid):
    """finding keys of this property that are recorded as known (never written here)"""
    r = {}
    for l in open(f"{VERIF}/known_findings.txt"):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid:
            r[m.group(2)] = m.group(3)
    return r


def crash_key(log):
    """names a sanitizer report by its kind and the first library function on its stack"""
    kind = "crash"
    m = re.search(r"ERROR: (?:Address|Leak)Sanitizer:? (?:attempting )?([\w-]+)", log)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: (.{0,70})", log)
    if m2 and not m:
        kind = "ub:" + re.sub(r"[^a-zA-Z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d+", "", m2.group(1))).strip("-")[:40]
    m3 = re.search(r"WARNING: ThreadSanitizer: ([\w ()-]+?) \(pid", log)
    if m3:
        kind = "tsan:" + m3.group(1).replace(" ", "-")
    fn = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S.*?) (/\S+)", log):
        if "/CEX/" in m.group(2) and "/harness/" not in m.group(2):
            fn = re.sub(r"\(.*|<.*", "", m.group(1)).strip()
            break
    if fn == "?":
        m = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(CEX::[\w:~]+)", log)
        if m:
            fn = m.group(1)
    return f"{kind}:{fn}"


def workers(exe, run, out, seed, tier, deadline, nproc):
    """runs one harness in worker processes; returns (failures, evidence, notes)"""
    os.makedirs(out, exist_ok=True)
    base = [exe, "--seed", str(seed), "--tier", tier, "--scale", str(run.get("scale", 1)), "--part", run.get("part", ""),
            "--limit", str(run.get("limit", 150)), "--out", out]
    fails, notes, procs, nworker = [], [], [], 0
    ev = {"cases": 0, "evals": 0, "counts": {}, "samples": [], "sigs": set()}
    restarts = 0

    def start():
        nonlocal nworker
        w = str(nworker)
        nworker += 1
        f = open(f"{out}/log.{w}", "wb")
        pre = run.get("wrap", [])
        procs.append((subprocess.Popen(pre + base + ["--worker", w], stdout=f, stderr=f, stdin=subprocess.DEVNULL, env=ENV, cwd=out), w))
        f.close()

    for _ in range(run.get("workers", nproc)):
        start()
    stopped = False
    while procs:
        time.sleep(0.05)
        if time.time() > deadline and not stopped:
            stopped = True
            notes.append("time budget reached: the remaining cases were not run")
            with open(f"{out}/shared", "r+b") as f:
                f.seek(8)
                f.write(b"\1")
        if time.time() > deadline + 170:
            for p, w in procs:
                p.kill()
                p.wait()
            notes.append("workers stopped at the end of the time allowed: inconclusive for their last cases")
            break
        for p, w in list(procs):
            if p.poll() is None:
                continue
            procs.remove((p, w))
            log = open(f"{out}/log.{w}", errors="replace").read()
            for l in log.splitlines():
                if l.startswith("FAIL\t"):
                    _, key, case, det = (l.split("\t") + ["", "", ""])[:4]
                    fails.append((key, case, det))
            if "WARNING: ThreadSanitizer" in log:
                for rep in re.split(r"(?==+\nWARNING: ThreadSanitizer)", log):
                    if "WARNING: ThreadSanitizer" in rep:
                        fails.append((crash_key(rep), current(out, w), rep[:3000]))
            if "\nDONE " in "\n" + log and p.returncode in (0, 1, 66):
                continue
            case = current(out, w)
            if p.returncode == 98 or "\nHANG" in log:
                # run it again by itself before believing it; one such case of a kind is enough
                kind = "hang:" + case.split("#")[0]
                if any(f[0] == kind for f in fails):
                    again = True
                else:
                    try:
                        r = subprocess.run(run.get("wrap", []) + base[:-2] + ["--only", case], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=out, timeout=run.get("limit", 150) + 30)
                        again = r.returncode == 98
                    except subprocess.TimeoutExpired:
                        again = True
                if again and not stopped:
                    # every further case of the kind would take as long
                    stopped = True
                    with open(f"{out}/shared", "r+b") as f:
                        f.seek(8)
                        f.write(b"\1")
                if again:
                    fails.append((kind, case, "the case does not end"))
                else:
                    notes.append(f"case {case} did not end in time once and ended when run again: inconclusive")
            else:
                k = crash_key(log)
                fails.append((k, case, f"exit {p.returncode}: " + log[-6000:]))
            restarts += 1
            if restarts <= 40 and not stopped:
                start()
    for f in glob.glob(f"{out}/evid.*"):
        for l in open(f, errors="replace"):
            t = l.rstrip("\n").split("\t")
            if t[0] == "s":
                ev["sigs"].add(t[1])
            elif t[0] in ("cases", "evals"):
                ev[t[0]] += int(t[1])
            elif t[0] == "count":
                ev["counts"][t[1]] = ev["counts"].get(t[1], 0) + int(t[2])
            elif t[0] == "sample" and len(ev["samples"]) < 6:
                ev["samples"].append(t[1])
    return fails, ev, notes


def current(out, w):
    try:
        return open(f"{out}/current.{w}", "rb").read().split(b"\0")[0].decode(errors="replace")
    except OSError:
        return ""


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        exe, = B.build(r["variant"], [r["harness"]])
        c = [exe, "--seed", str(r["seed"]), "--tier", r["tier"], "--scale", str(r["scale"]), "--part", r["part"], "--only", r["case"]]
        print(" ".join(c))
        return subprocess.run(r.get("wrap", []) + c, env=ENV).returncode
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    chk = CHECKS[pid]
    t0 = time.time()
    budget = 620 if tier == "quick" else 3300
    kn = known(pid)
    nproc = os.cpu_count() or 4
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    fails, notes, cov, samples, sigs, evals, cases = [], [], {}, [], set(), 0, 0
    runs = [r for r in chk["runs"] if tier == "thorough" or not r.get("thorough_only")]
    try:
        seeds = [SEED] if tier == "quick" else [SEED, SEED + 1000003]
        for i, run in enumerate(runs):
            if tier == "quick" and time.time() - t0 > 330 and any(x[0] not in kn for x in fails):
                notes.append("a violation was found: the remaining runs were left out")
                break
            exe, = B.build(run["variant"], [run["harness"]])
            tb = time.time() - t0
            for sd in seeds:
                left = t0 + budget - time.time()
                dl = time.time() + max(5, left / ((len(runs) - i) * 1.0) / (len(seeds) if sd == seeds[0] else 1))
                f, ev, n = workers(exe, run, f"{scratch}/{i}-{sd}", sd, tier, dl, nproc)
                fails += [(k, c, d, run, sd) for k, c, d in f]
                notes += n
                name = run["harness"] + (":" + run["part"] if run.get("part") else "") + "/" + run["variant"]
                cov.setdefault(name, {}).update({k: cov.get(name, {}).get(k, 0) + v for k, v in ev["counts"].items()})
                samples += [s for s in ev["samples"] if len(samples) < 10]
                sigs |= {name + s for s in ev["sigs"]} if len(runs) > 1 else ev["sigs"]
                evals += ev["evals"]
                cases += ev["cases"]
    finally:
        keep = scratch
    bad = [x for x in fails if x[0] not in kn]
    seenk = {x[0] for x in fails if x[0] in kn}
    for k in sorted(seenk):
        print(f"KNOWN-FINDING: property={pid} {kn[k]}")
    rc = 0
    viol = []
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    if bad:
        os.makedirs(f"{VERIF}/replay", exist_ok=True)
        done = set()
        for k, c, d, run, sd in bad:
            if k in done:
                continue
            done.add(k)
            if len(done) > 12:
                break
            p = f"{VERIF}/replay/{pid}-{hashlib.sha1(k.encode()).hexdigest()[:10]}.json"
            json.dump({"property": pid, "key": k, "case": c, "details": d[:8000], "harness": run["harness"], "variant": run["variant"], "part": run.get("part", ""),
                       "scale": run.get("scale", 1), "seed": sd, "tier": tier, "wrap": run.get("wrap", []), "rerun": f"python3 {VERIF}/check.py --replay {p}"}, open(p, "w"), indent=1)
            viol.append({"key": k, "case": c, "replay": p})
            print(f"  {k}  case {c}: {d[:600]}")
            print(f"VIOLATION property={pid} replay={p}")
        rc = 1
    elif evals < chk.get("min_evals", 50):
        print(f"check {pid}: only {evals} observations, the check is not meaningful")
        rc = 2
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": chk["rule"], "cases": cases,
           "samples": samples, "observed": cov, "notes": notes, "known_findings_seen": sorted(seenk)}
    json.dump({"property": pid, "tier": tier, "seed": SEED, "level": chk.get("level", "exploration"), "coverage": cov, "wall_s": round(time.time() - t0, 2),
               "assumptions": chk.get("assumptions", []) + ASSUME, "violations": len(viol), "violation_list": viol}, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    shutil.rmtree(keep, ignore_errors=True)
    print(f"{pid} {tier}: {'VIOLATED' if rc == 1 else 'held' if rc == 0 else 'no answer'} on {evals} observations ({len(sigs)} distinct) in {cases} cases, {time.time() - t0:.0f} s" + ("; " + "; ".join(sorted(set(notes))) if notes else ""))
    return rc


ASSUME = ["the library is compiled natively by clang from /repo's working tree in the configuration its own build uses (MSVC code paths, AVX2, no OpenMP), with a POSIX stand-in for the Win32 calls",
          "says nothing about paths and inputs the workload did not drive"]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
