#!/usr/bin/env python3
"""Runs the check of one property:  python3 vf/check.py <property> [--tier T]

Builds the needed instrumented variants from /repo's working tree, runs the
property's jobs (each a deterministic function of VERIF_SEED), gathers what the
monitors observed, writes evidence/<id>.json, and exits 0 (held on everything
explored), 1 (VIOLATION line printed) or 2 (the check itself failed).
"""
import json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS

VERIF = B.VERIF
EVID = os.environ.get("VF_EV", os.path.join(B.VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")

ASAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=0:exitcode=86",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=0",
}


class Run:
    __slots__ = ("job", "seed", "cmd", "rc", "out", "err", "wall", "timeout", "tries")


def parse_known(prop):
    """Lines 'finding: property=<id> key=/regex/ <description>'."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+key=/(.*?)/\s+(.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def reap_shm():
    """Remove private shared memory segments whose creator died."""
    try:
        for line in open("/proc/sysvipc/shm").read().splitlines()[1:]:
            f = line.split()
            if f[0] == "0" and f[6] == "0" and not os.path.exists("/proc/" + f[4]):
                subprocess.run(["ipcrm", "-m", f[1]], stderr=subprocess.DEVNULL)
    except OSError:
        pass


def execute(exe, args, seed, timeout, scratch, env_extra):
    d = tempfile.mkdtemp(dir=scratch)
    cmd = [exe, "--seed", str(seed), "--dir", d] + args
    env = dict(os.environ)
    env.update(ASAN_ENV)
    env.update(env_extra)
    of = open(os.path.join(d, "stdout.log"), "wb+")
    ef = open(os.path.join(d, "stderr.log"), "wb+")
    t = time.time()
    p = subprocess.Popen(cmd, stdout=of, stderr=ef, stdin=subprocess.DEVNULL,
                         env=env, cwd=d, start_new_session=True)
    timed = False
    stacks = ""
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        timed = True
        try:
            stacks = subprocess.run(
                ["gdb", "-p", str(p.pid), "-batch", "-ex", "thread apply all bt 12"],
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                errors="replace", timeout=30).stdout[-6000:]
        except Exception:
            pass
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    reap_shm()
    of.seek(0)
    out = of.read().decode("utf-8", "replace")
    ef.seek(0, 2)
    n = ef.tell()
    ef.seek(max(0, n - 40000))
    err = ef.read().decode("utf-8", "replace")
    of.close()
    ef.close()
    shutil.rmtree(d, ignore_errors=True)
    r = Run()
    r.seed, r.cmd, r.rc, r.out, r.err = seed, cmd, p.returncode, out, err + stacks
    r.wall, r.timeout = time.time() - t, timed
    return r


def crash_key(r):
    txt = r.err + "\n" + r.out
    m = re.search(r"ERROR: (AddressSanitizer|ThreadSanitizer|LeakSanitizer)[: ]+([\w-]+)", txt)
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) (?!\S*/rt/)", txt)
        return "%s %s in %s" % (m.group(1), m.group(2), "<".join(fr[:3]))
    m = re.search(r"(\S+?):(\d+):(\d+): runtime error: (.*)", txt)
    if m:
        return "undefined behaviour %s: %s" % (os.path.basename(m.group(1)), m.group(4)[:160])
    m = re.search(r"Assertion failed at (\S+?):(\d+):(\w+)\(\): \"?(.*)", txt)
    if m:
        return "assertion in %s: %s" % (m.group(3), m.group(4)[:200])
    return ""


def symbolize(exe, txt):
    """Function names for the raw stack the runtime prints when it dies."""
    offs = re.findall(r"^\S*%s\(\+(0x[0-9a-f]+)\)" % re.escape(os.path.basename(exe)), txt, re.M)
    if not offs:
        return ""
    try:
        o = subprocess.run(["addr2line", "-f", "-e", exe] + [hex(int(x, 16) - 1) for x in offs[:30]],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout.split("\n")
    except Exception:
        return ""
    return "\n".join("%s %s" % (a, b) for a, b in zip(o[0::2], o[1::2]))


def verdict(r, job):
    """-> ('ok'|'violation'|'error'|'hang'|'killed', key)"""
    v = re.findall(r"^VF-VIOLATION (.*)$", r.out, re.M)
    if v:
        return "violation", v[0]
    if r.timeout:
        return "hang", "no progress: run did not finish within %ds (normally seconds)" % job["timeout"]
    if r.rc == 0 and "VF-DONE" in r.out:
        return "ok", ""
    m = re.search(r"^VF-HARNESS-ERROR (.*)$", r.out, re.M)
    if m or r.rc == 4:
        return "error", m.group(1) if m else "harness error"
    if r.rc == -signal.SIGKILL:
        return "killed", "killed (out of memory?)"
    ck = crash_key(r)
    if r.rc < 0:
        try:
            sn = signal.Signals(-r.rc).name
        except ValueError:
            sn = str(-r.rc)
        return "violation", "process died with %s%s" % (sn, " (" + ck + ")" if ck else "")
    if ck:
        return "violation", ck
    if r.rc == 0:
        return "violation", "process exited early with status 0"
    return "error", "unexpected exit status %d" % r.rc


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    keep_going = "--keep-going" in sys.argv
    spec = PROPS[prop]
    t0 = time.time()
    jobs = []
    for j in spec["jobs"]:
        j = dict(j)
        if "only" in j and j["only"] != tier:
            continue
        j.setdefault("timeout", 180)
        if tier == "thorough":
            j["timeout"] *= 2
        j["n"] = j["quick"] if tier == "quick" else j.get("thorough", j["quick"] * 8)
        jobs.append(j)
    # ---- build
    try:
        for var, har in sorted({(j["variant"], j["harness"]) for j in jobs if j["n"]}):
            exe = B.build(var, har)
            for j in jobs:
                if (j["variant"], j["harness"]) == (var, har):
                    j["exe"] = exe
    except B.BuildError as e:
        print("check %s: build failed\n%s" % (prop, e))
        sys.exit(2)
    t_build = time.time() - t0
    # ---- run
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    todo = queue.Queue()
    maxn = max(j["n"] for j in jobs)
    # interleave jobs so that a bounded prefix covers all of them
    order = []
    for j in jobs:
        for i in range(j["n"]):
            order.append(((i + 0.5) / j["n"], j, i))
    order.sort(key=lambda x: x[0])
    for _, j, i in order:
        todo.put((j, seed * 100003 + j.get("base", 0) * 1009 + i, 0))
    known = parse_known(prop)
    known_hit = {}
    stop = threading.Event()
    lock = threading.Lock()
    viol, errors, done, exhausted = [], [], [], []
    stats, statmax, dist, samples, dcls = {}, {}, set(), [], {}
    outcomes = {}
    par = spec.get("parallel", 8)

    def absorb(r):
        for line in r.out.splitlines():
            if not line.startswith("VF-"):
                continue
            f = line.split(" ", 2)
            if f[0] == "VF-STAT" and len(f) == 3:
                stats[f[1]] = stats.get(f[1], 0) + int(f[2])
            elif f[0] == "VF-STATMAX" and len(f) == 3:
                statmax[f[1]] = max(statmax.get(f[1], 0), int(f[2]))
            elif f[0] == "VF-D":
                dist.add(f[1])
            elif f[0] == "VF-DCLS":
                dcls[f[1]] = dcls.get(f[1], 0) + int(f[2])
            elif f[0] == "VF-SAMPLE" and len(samples) < 12:
                samples.append(line[10:])

    def worker():
        while not stop.is_set():
            if time.time() - t0 > (700 if tier == "quick" else 7200):
                return
            try:
                j, s, tries = todo.get_nowait()
            except queue.Empty:
                return
            r = execute(j["exe"], j["args"], s, j["timeout"], scratch, j.get("env", {}))
            if stop.is_set() and r.rc == -9:
                return
            v, key = verdict(r, j)
            if v == "violation" and j.get("tiny_cache") and "assertion in clockcache_get_free_page" in key:
                # the cache gave up looking for a free page: with a cache this
                # small now and then legitimate, judged by its frequency below
                v = "exhausted"
            if v in ("hang", "killed") and tries == 0:
                # inconclusive: look again before judging
                todo.put((j, s, 1))
                continue
            with lock:
                absorb(r)
                outcomes[v] = outcomes.get(v, 0) + 1
                done.append((j["name"], s, round(r.wall, 2)))
                if v == "hang":
                    v = "violation"
                if v == "exhausted":
                    exhausted.append((j, s, key, r))
                if v == "violation":
                    hit = None
                    for rx, desc in known:
                        if rx.search(key):
                            hit = desc
                    if hit:
                        known_hit[hit] = known_hit.get(hit, 0) + 1
                    else:
                        viol.append((j, s, key, r))
                        if not keep_going:
                            stop.set()
                elif v in ("error", "killed"):
                    errors.append((j, s, key, r))

    ths = [threading.Thread(target=worker) for _ in range(par)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    shutil.rmtree(scratch, ignore_errors=True)
    if len(exhausted) > max(3, len(done) // 8):
        viol += exhausted
    # ---- report
    wall = time.time() - t0
    evals = sum(stats.get(k, 0) for k in spec["eval_stats"])
    missing = [k for k in spec.get("must_observe", spec["eval_stats"][:1]) if not stats.get(k, statmax.get(k, 0))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(dist),
            "rule": spec["rule"],
            "samples": samples or ["(none)"],
            "runs": len(done),
            "run_outcomes": outcomes,
            "known_findings_hit": known_hit,
            "observed": dict(sorted(stats.items())),
            "observed_max": dict(sorted(statmax.items())),
            "distinct_by_class": dcls,
            "jobs": [{"name": j["name"], "build": j["variant"], "harness": j["harness"],
                      "args": j["args"], "runs": j["n"]} for j in jobs],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for _, d in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if viol:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (j, s, key, r) in enumerate(viol[:10]):
            rp = os.path.join(rd, "%s-%d.txt" % (prop, n))
            with open(rp, "w") as f:
                f.write("property %s\nwhat: %s\n" % (prop, key))
                f.write("replay: cd /verif && python3 vf/replay.py %s %s %d %s\n" %
                        (j["variant"], j["harness"], s, " ".join(j["args"])))
                f.write("exit status %s, %.1fs\n---- stdout tail\n%s\n---- stderr tail\n%s\n" %
                        (r.rc, r.wall, "\n".join(l for l in r.out.splitlines() if not l.startswith("VF-D "))[-8000:], r.err[-12000:]))
                f.write("---- stack\n%s\n" % symbolize(j["exe"], r.err))
            print("violated (%s seed %d): %s" % (j["name"], s, key))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if errors:
        j, s, key, r = errors[0]
        print("check %s could not decide: job %s seed %d: %s" % (prop, j["name"], s, key))
        print(r.out[-1500:], r.err[-1500:])
        sys.exit(2)
    if missing:
        print("check %s observed nothing for: %s" % (prop, missing))
        sys.exit(2)
    slow = sorted(done, key=lambda x: -x[2])[:3]
    print("%s held: %d runs, %d evaluations, %d distinct, %.0fs (build %.0fs) slowest %s" %
          (prop, len(done), evals, len(dist), wall, t_build, slow))
    sys.exit(0)


if __name__ == "__main__":
    main()
