#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property by seeded search.

usage: run.py PROPERTY [--tier quick|thorough] [--seconds S] [--runs N]
       run.py --build            only build (setup)
       run.py --replay FILE      re-run a recorded violation

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import argparse
import fcntl
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WG_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
JOBS = os.cpu_count() or 4

INSTRUMENTED = ("-std=c++17 -O1 -DNDEBUG -g1 -fsanitize=thread "
                "--param tsan-distinguish-volatile=0 "
                "--param tsan-instrument-func-entry-exit=0 -w -fno-pie").split()
PLAIN = "-std=c++17 -O1 -g -Wall -Wextra -fno-pie".split()
LINK = "-no-pie -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -ldl -lpthread".split()
HANDLES = "M Q A T U t p r w s".split()
HARNESS = "rt exec gen main".split()

REAL = ["all of wave_geometry's headers, as in /repo (static and dynamic expressions, evaluators, "
        "Jacobian evaluators, leaves, block maps, factors, random elements)",
        "Eigen", "libstdc++ containers, shared_ptr, mutex wrappers, exceptions"]
STUBS = ["heap: address placement, exhaustion and reuse decided by the seed",
         "thread scheduler: real threads, one runs at a time, switches decided by the seed",
         "pthread mutexes, condition variables, rwlocks, static-initialisation guards",
         "entropy: random_device and rand() decided by the seed"]

# wall-clock bound of the search (8 workers); the rest of a check is the build
QUICK_SECONDS = 30
THOROUGH_SECONDS = 600


def die(msg):
    print("NO-ANSWER " + msg)
    sys.exit(2)


class NoBuild(Exception):
    pass


def files_under(top):
    out = []
    for d, _, fs in os.walk(top):
        for f in fs:
            out.append(os.path.join(d, f))
    return sorted(out)


def tree_key():
    h = hashlib.sha256()
    tops = [os.path.join(REPO, "include"), os.path.join(REPO, "3rd-party"), SIM]
    for top in tops:
        for f in files_under(top):
            h.update(os.path.relpath(f, top).encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    h.update(repr((INSTRUMENTED, PLAIN, LINK, REPO, 2)).encode())
    return h.hexdigest()[:24]


def build():
    """Returns the directory with wgsim and how long the build took."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_key()
        out = os.path.join(BUILD, key)
        if os.path.exists(os.path.join(out, "wgsim")):
            os.utime(out)
            return out, 0.0
        for d in sorted(os.listdir(BUILD), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))[:-2]:
            p = os.path.join(BUILD, d)
            if os.path.isdir(p) and re.fullmatch(r"[0-9a-f]{24}(\.tmp)?", d):
                shutil.rmtree(p, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "3rd-party/Tick"),
               "-I/usr/include/eigen3", "-I" + SIM]
        jobs = []
        for f in sorted(os.listdir(SIM)):
            if not (f.startswith("wl_") and f.endswith(".cc")):
                continue
            src = os.path.join(SIM, f)
            if f == "wl_handle.cc":
                for h in HANDLES:
                    jobs.append((os.path.join(tmp, "h_%s.o" % h),
                                 ["g++"] + INSTRUMENTED + inc + ["-DHL=" + h, "-c", src]))
            else:
                jobs.append((os.path.join(tmp, f[:-3] + ".o"), ["g++"] + INSTRUMENTED + inc + ["-c", src]))
        # the instrumented objects are linked first: their copies of inline functions are kept
        objs = [o for o, _ in jobs]
        for f in HARNESS:
            o = os.path.join(tmp, f + ".o")
            objs.append(o)
            jobs.append((o, ["g++"] + PLAIN + inc[-2:] + ["-c", os.path.join(SIM, f + ".cc")]))
        jobs.sort(key=lambda j: -os.path.getsize(j[1][-1]))
        jobs.sort(key=lambda j: 0 if "/h_" in j[0] else 1)
        running, todo, failed, dropped = [], list(jobs), None, []
        while (todo or running) and failed is None:
            while todo and len(running) < JOBS:
                o, cmd = todo.pop(0)
                err = open(o + ".err", "wb")
                running.append((o, subprocess.Popen(cmd + ["-o", o], stderr=err, stdout=err), err))
            time.sleep(0.05)
            for r in list(running):
                if r[1].poll() is not None:
                    running.remove(r)
                    r[2].close()
                    if not r[1].returncode:
                        continue
                    # expressions which this tree cannot compile are left out
                    if re.match(r"wl_(stat|dyn|block|factor)", os.path.basename(r[0])):
                        dropped.append(r[0])
                    else:
                        failed = r[0]
        for r in running:
            r[1].kill()
            r[1].wait()
        if failed is not None:
            with open(failed + ".err", errors="replace") as fh:
                lines = [l[:300] for l in fh if "error" in l][:6]
            print("".join(lines))
            raise NoBuild("the simulator does not compile against %s (%s)" % (REPO, os.path.basename(failed)))
        objs = [o for o in objs if o not in dropped]
        with open(os.path.join(tmp, "left_out"), "w") as fh:
            fh.write("".join(os.path.basename(o)[:-2] + "\n" for o in sorted(dropped)))
        r = subprocess.run(["g++", "-o", os.path.join(tmp, "wgsim")] + objs + LINK,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-1500:])
            raise NoBuild("the simulator does not link")
        for f in os.listdir(tmp):
            if f not in ("wgsim", "left_out"):
                os.unlink(os.path.join(tmp, f))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out, time.time() - t0


def left_out(exe):
    p = os.path.join(os.path.dirname(exe), "left_out")
    return open(p).read().split() if os.path.exists(p) else []


def compiles(src):
    """Does a user's program compile? (A syntax check; nothing runs.)"""
    r = subprocess.run(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I" + os.path.join(SIM, "probe"),
                        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "3rd-party/Tick"),
                        "-I/usr/include/eigen3", "-x", "c++", src],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return r.returncode == 0, "".join(l[:300] for l in r.stderr.splitlines(True) if "error" in l)[:400]


def probes(prop):
    """Programs which must compile if the control of the property does: [(source, errors)]"""
    d = os.path.join(SIM, "probe")
    control = os.path.join(d, prop + "-control.cc")
    if not os.path.exists(control) or not compiles(control)[0]:
        return []
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith(prop + "-") and f != prop + "-control.cc":
            ok, err = compiles(os.path.join(d, f))
            if not ok:
                out.append((os.path.join(d, f), err))
    return out


def keep_probe(p):
    path = os.path.join(REPLAYS, os.path.basename(p[0]))
    os.makedirs(REPLAYS, exist_ok=True)
    shutil.copyfile(p[0], path)
    return path, "does-not-compile", p[1].replace("\n", " ")


def known_findings(prop):
    """Lines "known: property=<id> match=<regular expression over class and detail> <what>"."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def replay_of(exe, path):
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    cls = re.search(r"^class (.*)$", r.stdout, re.M)
    hsh = re.search(r"^hash (.*)$", r.stdout, re.M)
    det = re.search(r"^detail (.*)$", r.stdout, re.M)
    return (r.returncode, cls.group(1) if cls else "", hsh.group(1) if hsh else "",
            det.group(1) if det else "")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int, default=10 ** 9)
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay and a.replay.endswith(".cc"):
        ok, err = compiles(a.replay)
        print("compiles" if ok else "class does-not-compile\n" + err)
        return 0 if ok else 1
    try:
        out, build_s = build()
    except NoBuild as e:
        if a.build:
            # a check may still find out why: see probes()
            print("NOT BUILT: %s" % e)
            return 2
        if a.prop:
            found = [keep_probe(p) for p in probes(a.prop)]
            for path, cls, det in found:
                print("%s: %s" % (cls, det))
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
            if found:
                return 1
        die(str(e))
    exe = os.path.join(out, "wgsim")
    if a.build:
        print("built %s in %.0f s" % (out, build_s))
        return 0
    if a.replay:
        code, cls, hsh, det = replay_of(exe, a.replay)
        print("class %s\ndetail %s\nhash %s" % (cls, det, hsh))
        return 1 if code == 42 else (0 if code == 0 else 2)
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    seconds = a.seconds or (QUICK_SECONDS if tier == "quick" else THOROUGH_SECONDS)
    known = known_findings(prop)

    work = tempfile.mkdtemp(prefix="wgsim-")
    try:
        return check(exe, prop, tier, seed, seconds, a.runs, known, work, t0, build_s)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(exe, prop, tier, seed, seconds, runs, known, work, t0, build_s):
    if prop == "C10" and "wl_factor" in left_out(exe):
        found = [keep_probe(p) for p in probes(prop)]
        for path, cls, det in found:
            print("%s: %s" % (cls, det))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if found:
            return 1
        die("no factor compiles against this tree")
    self_test = subprocess.Popen([exe, "selftest", "0"], stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True)
    base = (seed & 0xffff) * 1_000_000_000 + (500_000_000 if tier == "thorough" else 0)
    workers = []
    s0 = time.time()
    for w in range(JOBS):
        outf = open(os.path.join(work, "out%d" % w), "w")
        cmd = [exe, "batch", prop, "--from", str(base + w), "--step", str(JOBS),
               "--count", str(max(1, runs // JOBS)), "--time", str(seconds), "--twice", "25",
               "--max-bad", "1" if not known else "40",
               "--hashes", os.path.join(work, "h%d" % w)]
        workers.append((subprocess.Popen(cmd, stdout=outf, stderr=subprocess.DEVNULL), outf))
    text = [""] * JOBS
    first_bad = None
    while any(p.poll() is None for p, _ in workers):
        time.sleep(0.1)
        if first_bad is None and any(p.poll() == 42 for p, _ in workers) and not known:
            first_bad = time.time()
        if first_bad is not None and time.time() - first_bad > 3:
            for p, _ in workers:
                if p.poll() is None:
                    p.terminate()
        if time.time() - s0 > seconds + 280:
            for p, _ in workers:
                p.kill()
            die("a worker does not finish")
    for w, (p, f) in enumerate(workers):
        f.close()
        text[w] = open(os.path.join(work, "out%d" % w)).read()
    search_s = time.time() - s0
    try:
        st_out, _ = self_test.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        self_test.kill()
        die("self-test of the simulator does not finish")
    if self_test.returncode != 0:
        print(st_out[-500:])
        die("self-test of the simulator failed")
    for w, (p, _) in enumerate(workers):
        m = re.search(r"^HARNESS-ERROR.*$", text[w], re.M)
        if m:
            print(m.group(0)[:400])
            die("harness error")
        if p.returncode not in (0, 42) and not (first_bad and p.returncode == -15):
            print(text[w][-400:])
            die("worker ended with %d" % p.returncode)

    stat, count, bad = {}, {}, []
    for t in text:
        for m in re.finditer(r"^STAT (\S+) (\d+)$", t, re.M):
            stat[m.group(1)] = stat.get(m.group(1), 0) + int(m.group(2))
        for m in re.finditer(r"^COUNT (\S+) (\d+)$", t, re.M):
            k, v = m.group(1), int(m.group(2))
            count[k] = max(count.get(k, 0), v) if k == "peak_bytes" else count.get(k, 0) + v
        for m in re.finditer(r"^BAD (\d+) (\S+) (.*)$", t, re.M):
            bad.append((int(m.group(1)), m.group(2), m.group(3)))
    distinct, inter = set(), set()
    for w in range(JOBS):
        p = os.path.join(work, "h%d" % w)
        if os.path.exists(p):
            b = open(p, "rb").read()
            if len(b) >= 8:
                n = struct.unpack_from("<Q", b)[0]
                v = struct.unpack_from("<%dQ" % (len(b) // 8 - 1), b, 8)
                distinct.update(v[:n])
                inter.update(v[n:])

    new, hit = [], {}
    for b in sorted(bad):
        for rx, what in known:
            if rx.search(b[1] + " " + b[2]):
                hit[what] = hit.get(what, 0) + 1
                break
        else:
            new.append(b)
    for rx, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    reports = []
    seen = set()
    for sd, cls, det in new:
        if cls in seen or len(reports) >= 2:
            continue
        seen.add(cls)
        reports.append(report(exe, prop, sd, cls, det, work, 100 if not reports else 40))
    unrepeatable = [r for r in reports if r is None]
    reports = [r for r in reports if r]
    reports += [keep_probe(p) for p in probes(prop)]
    if left_out(exe):
        print("left out, as they do not compile against this tree: " + " ".join(left_out(exe)))

    sample = []
    for sd in (base, base + 1):
        g = subprocess.run([exe, "gen", prop, str(sd)], stdout=subprocess.PIPE, text=True).stdout
        sample.append({"seed": sd, "plan": g.splitlines()[:60]})
    nruns = stat.get("runs", 0)
    faults = {k[6:]: v for k, v in count.items() if k.startswith("fault.")}
    checks = {k[6:]: v for k, v in count.items() if k.startswith("check.")}
    rest = {k: v for k, v in count.items() if not k.startswith(("fault.", "check."))}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": len(distinct),
            "rule": "One evaluation is one simulated run: a plan of operations, faults and a schedule "
                    "that are a pure function of (profile, seed). It counts as non-trivial if the "
                    "oracle made at least three comparisons (or compared digests of all variants), if "
                    "at least two preemptions happened when it has concurrent phases, and if at least "
                    "one injected fault made an operation fail when the property is about failures. "
                    "Distinct: by a 64-bit hash over every scheduling decision, allocation, fault "
                    "and result of the run.",
            "samples": sample,
            "seeds_from": base, "seeds_used": nruns,
            "runs_per_hour": int(nruns / max(search_s, 1e-9) * 3600),
            "search_wall_s": round(search_s, 2), "build_wall_s": round(build_s, 1),
            "plan_operations": stat.get("plan_ops", 0),
            "simulated_time_steps": stat.get("steps", 0),
            "simulated_time_note": "the library has no clocks or timers; simulated time is counted in "
                                   "scheduling steps (memory accesses, atomics, locks and heap calls of "
                                   "code under test)",
            "runs_checked_twice_for_exact_repetition": stat.get("repeated_identically", 0),
            "runs_by_max_threads": {k[8:]: v for k, v in stat.items() if k.startswith("threads_")},
            "runs_by_heap_placement": {k[10:]: v for k, v in stat.items() if k.startswith("heap_mode_")},
            "distinct_interleavings": len(inter),
            "distinct_interleavings_measure": "64-bit hash over the (phase, thread, operation, step) of "
                                              "every switch in runs with concurrent phases",
            "runs_with_preemptions": stat.get("switched", 0),
            "faults_injected": faults,
            "oracle_comparisons": checks,
            "events": rest,
            "real_code": REAL, "stubbed": STUBS,
            "simulator_selftest": st_out.strip(),
            "expression_files_left_out": left_out(exe),
            "known_findings_seen": hit,
        },
        "assumptions": [
            "threads interleave sequentially consistently (one runs at a time); weaker memory orders "
            "are covered only as data races reported by happens-before",
            "accesses made inside Eigen and libstdc++ templates are instrumented because they are "
            "compiled here; accesses inside precompiled libraries are seen through memcpy/memmove/memset",
            "x86-64, g++ -O1, the installed Eigen and libstdc++",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reports),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs (%d distinct non-trivial, %d interleavings), %d steps, faults %s, %.0f s"
          % (prop, tier, nruns, len(distinct), len(inter), stat.get("steps", 0),
             sum(v for k, v in faults.items() if k != "op_failed"), time.time() - t0))
    if reports:
        for path, cls, det in reports:
            print("%s: %s" % (cls, det[:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unrepeatable:
        die("a violation could not be repeated")
    if nruns == 0 or len(distinct) == 0:
        die("nothing was explored")
    return 0


def report(exe, prop, seed, cls, det, work, seconds):
    """Minimises the failing run and proves that the replay file reproduces it exactly."""
    os.makedirs(REPLAYS, exist_ok=True)
    raw = os.path.join(work, "raw.plan")
    with open(raw, "w") as f:
        f.write(subprocess.run([exe, "gen", prop, str(seed)], stdout=subprocess.PIPE, text=True).stdout)
    path = os.path.join(REPLAYS, "%s-seed%d-%s.plan" % (prop, seed, re.sub(r"[^a-z-]", "", cls)))
    try:
        r = subprocess.run([exe, "minimize", raw, path, "--time", str(seconds)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=seconds + 120)
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    if ok:
        a, b = replay_of(exe, path), replay_of(exe, path)
        if a[0] == 42 and a == b and a[1] == cls:
            return path, cls, a[3]
    # not minimised: the generated plan itself
    shutil.copyfile(raw, path)
    a, b = replay_of(exe, path), replay_of(exe, path)
    if a[0] == 42 and a == b:
        return path, a[1], a[3]
    print("seed %d: %s %s" % (seed, cls, det[:300]))
    return None


if __name__ == "__main__":
    sys.exit(main())
