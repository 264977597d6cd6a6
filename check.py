#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]     run one check
check.py <PROPERTY> --replay <file>         re-run the execution a violation was seen on

Builds /verif/harness against /repo's working tree, runs the monitors of one
property in parallel shards, decides, and rewrites evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import array, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
SHARDS = max(2, min(8, os.cpu_count() or 8))
LEVEL = {"C16": "fault_enumeration"}

# flavours of the build the same monitors run in
FLAVOURS = {
    # debug assertions, overflow checks and std's UB checks on
    "debug": dict(tool=STABLE, dir="", sub="debug", args=[], flags=None),
    # as shipped: optimised, overflow wraps silently
    "release": dict(tool=STABLE, dir="", sub="release", args=["--release"], flags=None),
    # address sanitizer + std's UB checks, debug assertions of the library off,
    # so that they cannot mask what comes after them
    "asan": dict(tool=NIGHTLY, dir="asan", sub=TRIPLE + "/debug", args=["--target", TRIPLE],
                 flags="-Zsanitizer=address -Zub-checks=yes -Cdebug-assertions=off"),
    # data-race detector, the standard library instrumented as well
    "tsan": dict(tool=NIGHTLY, dir="tsan", sub=TRIPLE + "/debug", args=["--target", TRIPLE, "-Zbuild-std"], flags="-Zsanitizer=thread"),
    "miri": dict(tool=NIGHTLY, dir="miri", sub=None, args=[], flags=None),
}

def say(*a):
    print(*a, flush=True)

def env_for(fl):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    f = FLAVOURS[fl]
    e["RUSTUP_TOOLCHAIN"] = f["tool"]
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, f["dir"]) if f["dir"] else TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    if f["flags"]: e["RUSTFLAGS"] = f["flags"]
    if fl == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"  # bitvec (a dependency) casts integers to pointers
    if fl == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:handle_abort=0:allocator_may_return_null=0"
    if fl == "tsan":
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
        e["VP_THREADS"] = "1"
    return e

class NoAnswer(Exception):
    pass

def run(cmd, env, cwd=HARNESS, timeout=700):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")

def build(fl):
    """Build this flavour from /repo's working tree; returns the command prefix to run it."""
    e, f = env_for(fl), FLAVOURS[fl]
    # never trust time stamps of a copied tree: the library is always recompiled
    subprocess.run(["cargo", "clean", "--locked", "-p", "graphbench"] + [a for a in f["args"] if not a.startswith("-Z")], env=e, cwd=HARNESS, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if fl == "miri":
        shutil.rmtree(e["CARGO_TARGET_DIR"], ignore_errors=True)
        r = run(["cargo", "miri", "setup"], e)
        if r.returncode:
            e["XDG_CACHE_HOME"] = os.path.join(TARGET, "xdg")
            r = run(["cargo", "miri", "setup"], e)
        if r.returncode: say(r.stdout[-4000:]); raise NoAnswer("miri sysroot")
        return ["cargo", "miri", "run", "--locked", "-q", "--"], e
    r = run(["cargo", "build", "--locked"] + f["args"], e)
    if r.returncode:
        say(r.stdout[-6000:])
        raise NoAnswer("the harness does not build against /repo (%s)" % fl)
    return [os.path.join(e["CARGO_TARGET_DIR"], f["sub"], "vpharness")], e

def head():
    try:
        return subprocess.run(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
    except OSError:
        return "?"

def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            w = l.split()
            if len(w) >= 3 and w[0] == "known:" and w[1].startswith("property=") and w[2].startswith("key="):
                out[(w[1][9:], w[2][4:])] = " ".join(w[3:])
    return out

def classify(fl, rc, err):
    """What a worker that wrote no result died of: a description, or None for a harness error."""
    if "HARNESS ERROR" in err: return None
    if fl == "miri":
        if "Undefined Behavior" in err: return "Miri: " + next(l for l in err.splitlines() if "Undefined Behavior" in l).strip()
        return None
    if fl == "asan" and (rc == 66 or "ERROR: AddressSanitizer" in err):
        l = [x for x in err.splitlines() if "ERROR: AddressSanitizer" in x]
        return (l[0].strip() if l else "AddressSanitizer report")
    if fl == "tsan" and (rc == 66 or "WARNING: ThreadSanitizer" in err):
        l = [x.strip() for x in err.splitlines() if "WARNING: ThreadSanitizer" in x or "graphbench::" in x]
        return " ".join(l[:3]) or "ThreadSanitizer report"
    if rc == 97: return "the call does not return within its CPU budget"
    if rc == 98: return "the call allocates without bound"
    if rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        l = [x for x in err.splitlines() if "unsafe precondition" in x or "overflowed its stack" in x or "panicked at" in x]
        return "process died of %s%s" % (signal.Signals(-rc).name, ": " + l[0].strip() if l else "")
    return None

def shard_cmd(base, prop, tier, seed, first, step, out, scr, extra=()):
    return base + [prop, tier, str(seed), str(first), str(step), out, scr] + list(extra)

def one_case(fl, base, e, prop, tier, seed, case, work, timeout=300):
    """Run one case alone; returns (description or None, stdout+stderr)."""
    scr = tempfile.mkdtemp(dir=work); out = os.path.join(work, "one%d" % case)
    try:
        p = subprocess.run(shard_cmd(base, prop, tier, seed, case, 1, out, scr, ["--one", "--verbose"]), env=e, cwd=HARNESS,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "timed out"
    finally:
        shutil.rmtree(scr, ignore_errors=True)
    txt = p.stdout + p.stderr
    if p.returncode == 1 and os.path.exists(out + ".json"):
        v = json.load(open(out + ".json"))["violations"]
        return (v[0]["message"] if v else None), txt
    if p.returncode == 0: return None, txt
    return classify(fl, p.returncode, txt), txt

def explore(prop, tier, seed, fl, wall, work, first=0, step=1, shards=SHARDS):
    """All shards of one flavour. Returns merged results."""
    t0 = time.time()
    base, e = build(fl)
    t1 = time.time()
    e["VP_WALL"] = str(wall)
    e.setdefault("VP_CASE_CPU", "60")
    procs = []
    for i in range(shards):
        scr = os.path.join(work, "%s-scr%d" % (fl, i)); os.mkdir(scr)
        out = os.path.join(work, "%s-out%d" % (fl, i))
        se = open(out + ".err", "w")
        procs.append((i, out, scr, subprocess.Popen(shard_cmd(base, prop, tier, seed, first + i * step, shards * step, out, scr), env=e, cwd=HARNESS, stdout=se, stderr=se)))
    res = dict(evaluations=0, cases=0, complete=True, counters={}, maxima={}, samples=[], findings={}, violations=[], hashes=set())
    deadline, unsure = time.time() + wall + 200, []
    for i, out, scr, p in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = None
        err = open(out + ".err", errors="replace").read()
        shutil.rmtree(scr, ignore_errors=True)
        if rc in (0, 1) and os.path.exists(out + ".json"):
            d = json.load(open(out + ".json"))
            res["evaluations"] += d["evaluations"]; res["cases"] += d["cases"]
            res["complete"] &= d["complete"]
            for k, v in d["counters"].items(): res["counters"][k] = res["counters"].get(k, 0) + v
            for k, v in d["maxima"].items(): res["maxima"][k] = max(res["maxima"].get(k, 0), v)
            if len(res["samples"]) < 6: res["samples"] += d["samples"][:2]
            for k, v in d["findings"].items(): res["findings"].setdefault(k, v)
            for v in d["violations"]: res["violations"].append((v["case"], v["message"], v["input"]))
            a = array.array("Q"); a.frombytes(open(out + ".hashes", "rb").read()); res["hashes"].update(a)
            continue
        res["complete"] = False
        try: case = int(open(out + ".progress").read().strip())
        except (OSError, ValueError): case = None
        why = classify(fl, rc, err) if rc is not None else None
        if why is None and rc is None and case is not None and prop == "C39":
            res["violations"].append((case, "a thread waits for ever: the case neither returns nor uses its CPU budget", "")); continue
        if why is None and rc is None and case is not None:
            raise NoAnswer("worker %d hung in case %s (wall clock)" % (i, case))
        if why is None or case is None:
            say(err[-3000:])
            raise NoAnswer("worker %d of %s ended with status %s" % (i, fl, rc))
        # a crash must happen again with that case alone before it is believed
        again, txt = one_case(fl, base, e, prop, tier, seed, case, work)
        if again is None and prop == "C39":
            # schedules differ between runs: a race report, or a crash of code
            # that has no business crashing, needs no second run to be believed
            again = why + " (on this schedule; not met again when the case runs alone)"
        if again is None:
            unsure.append((i, case, why, txt)); continue
        inp = [l for l in txt.splitlines() if l.startswith("INPUT ")]
        res["violations"].append((case, again, inp[-1][6:] if inp else ""))
    if unsure and not res["violations"]:
        say(unsure[0][3][-2000:])
        raise NoAnswer("worker %d died in case %d (%s), not repeatable alone" % unsure[0][:3])
    res["build_s"], res["run_s"] = t1 - t0, time.time() - t1
    return res

def rule_of(prop):
    out = subprocess.run([os.path.join(TARGET, "debug", "vpharness"), "--list"], stdout=subprocess.PIPE, text=True).stdout
    for l in out.splitlines():
        w = l.split("\t")
        if w[0] == prop: return w[3]
    raise NoAnswer("unknown property " + prop)

def replay(prop, path):
    r = json.load(open(path))
    os.makedirs(TARGET, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    try:
        base, e = build(r["flavour"])
        d, txt = one_case(r["flavour"], base, e, prop, r["tier"], r["seed"], r["case"], work)
        say(txt[-6000:])
        say("REPRODUCED: " + d if d else "not reproduced")
        return 1 if d else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay": return replay(prop, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    try:
        quick = tier == "quick"
        plan = [("debug", 150 if quick else 420, 0, 1, SHARDS)]
        if prop == "C38":
            plan = [("debug", 60 if quick else 120, 0, 1, SHARDS), ("asan", 100 if quick else 240, 0, 1, SHARDS),
                    ("miri", 40 if quick else 240, 0, 1, SHARDS)]
        elif prop == "C39":
            plan = [("debug", 100 if quick else 360, 0, 1, SHARDS), ("tsan", 40 if quick else 240, 0, 1, SHARDS)]
            if not quick: plan.append(("release", 100, 0, 1, SHARDS))
        elif not quick:
            plan.append(("release", 200, 0, 1, SHARDS))
        parts, bad = [], []
        for fl, wall, first, step, sh in plan:
            r = explore(prop, tier, seed, fl, wall, work, first, step, sh)
            parts.append((fl, r))
            bad += [(fl,) + v for v in r["violations"]]
            say("%s %s: %d cases, %d executions judged, %d violations (build %.1fs, run %.1fs)" % (prop, fl, r["cases"], r["evaluations"], len(r["violations"]), r["build_s"], r["run_s"]))
            if bad: break
        kn, shown = known(), set()
        for fl, r in parts:
            for k, m in r["findings"].items():
                if k in shown: continue
                shown.add(k)
                if (prop, k) in kn: say("KNOWN-FINDING: property=%s %s: %s" % (prop, k, m))
                else: bad.append((fl, -1, "%s: %s" % (k, m), m))
        hashes = set()
        for _, r in parts: hashes |= r["hashes"]
        cov = dict(evaluations=sum(r["evaluations"] for _, r in parts), distinct_nontrivial=len(hashes), rule=rule_of(prop),
                   samples=[s for _, r in parts for s in r["samples"]][:8] or ["-"])
        for fl, r in parts:
            cov[fl] = dict(cases=r["cases"], executions_judged=r["evaluations"], planned_range_completed=r["complete"], observed=dict(sorted(r["counters"].items())), largest_seen=r["maxima"],
                           build_s=round(r["build_s"], 1), run_s=round(r["run_s"], 1))
        cov["known_findings_seen"] = sorted(k for k in shown if (prop, k) in kn)
        ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "exploration"), coverage=cov, wall_s=round(time.time() - t0, 2),
                  repo_head=head(), violations=len(bad))
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        if bad:
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            fl, case, msg, inp = min(bad, key=lambda b: len(b[3]) if b[3] else 1 << 30)
            path = os.path.join(HERE, "replay", "%s-%d-%s-%s.json" % (prop, seed, fl, case))
            json.dump(dict(property=prop, tier=tier, seed=seed, flavour=fl, case=case, message=msg, input=inp), open(path, "w"), indent=1)
            say("what failed: " + msg[:2000]); say("input: " + inp[:2000])
            say("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    except NoAnswer as x:
        say("NO ANSWER: %s" % x)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
