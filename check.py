#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] | --setup | --manifest

Decides one property on the current tree of /repo.  Exit 0: held on everything
explored; 1: violated (with a VIOLATION line); 2: the check could not answer."""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vf import build as B
from vf.registry import CHECKS, ROUNDS

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:check_initialization_order=0:handle_abort=0:"
                    "allow_user_segv_handler=0:malloc_context_size=12:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1",
    "MSAN_OPTIONS": "exitcode=99:allocator_may_return_null=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4:"
                    "die_after_fork=0:report_signal_unsafe=0",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def child_env():
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "TMPDIR", "VERIF_SEED", "VERIF_TIER")}
    env.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
    env["HOME"] = "/nonexistent-home"
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    env.update(SAN_ENV)
    return env


def known_findings(pid):
    """Entries 'known: property=<id> key=<key> ...' of known_findings.txt."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s*(.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


ENDED_EARLY = 1000


def classify(rc, err):
    """-> (kind, key, message) ; kind: ok, violation, hang, broken"""
    if rc == 0:
        return ("ok", None, None)
    m = None
    for m in re.finditer(r"^ORACLE key=(\S+) case=\d+ : (.*)$", err, re.M):
        pass
    if m and rc == 98:
        return ("violation", m.group(1), m.group(2)[:600])
    if rc == 97:
        return ("hang", "hang", "a case did not finish in time")
    if "ERROR: AddressSanitizer: out of memory" in err or \
            "failed to allocate" in re.sub(r"(?m)^.*WARNING: .*$", "", err) or "ThreadSanitizer: unexpected memory mapping" in err:
        return ("broken", None, "sanitizer environment trouble")
    frames = re.findall(r"^\s*#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err, re.M)
    fn = next((f for f, where in frames if "/src/libcork/" in where or "/include/libcork/" in where), None)
    if fn is None:
        fr2 = re.findall(r"^\s*#\d+ (\S+) (\S+)", err, re.M)      # TSan
        fn = next((f for f, where in fr2 if "/src/libcork/" in where or "/include/libcork/" in where), "?")
    s = re.search(r"(?:ERROR|WARNING): (\w+Sanitizer): ([\w-]+)", err)
    if s:
        return ("violation", "san:%s:%s" % (s.group(2), fn), "%s: %s in %s" % (s.group(1), s.group(2), fn))
    u = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M)
    if u:
        return ("violation", "ub:%s:%s" % (os.path.basename(u.group(1)), fn),
                "undefined behaviour at %s:%s: %s" % (u.group(1), u.group(2), u.group(3)))
    a = re.search(r"^.*Assertion .* failed.*$", err, re.M)
    if a and rc < 0:
        return ("violation", "assert", a.group(0)[:400])
    if rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        return ("violation", "crash:%s" % signal.Signals(-rc).name, "died of %s" % signal.Signals(-rc).name)
    if rc == 99:
        # a sanitizer ended the process and its report did not get through
        # (the error stream itself was damaged)
        return ("violation", "san:unreported", "a sanitizer ended the run")
    if rc > 0 and rc not in (3, 126, 127):
        # no part of the machinery ends a run like this: the library did
        return ("violation", "exit-status", "the run was ended with exit status %d from inside the library" % (0 if rc == ENDED_EARLY else rc))
    return ("broken", None, "exit status %s" % rc)


class Runner:
    def __init__(self, pid, spec, tier, seed):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % pid, dir="/tmp")
        os.chmod(self.dir, 0o755)
        self.n = 0
        self.mu = threading.Lock()
        self.known = known_findings(pid)
        self.known_seen = {}
        self.violation = None
        self.broken = None
        self.unconfirmed = 0
        self.totals = {"cases": 0, "nontrivial": 0, "evals": 0}
        self.counters = {}
        self.per_run = {}
        self.samples = []
        self.sigs = set()
        self.procs = set()
        self.stop = False

    def cleanup(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.dir], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)

    def _one(self, exe, args, limit, tag):
        with self.mu:
            self.n += 1
            k = self.n
        scratch = os.path.join(self.dir, "s%d" % k)
        os.mkdir(scratch)
        stats = os.path.join(self.dir, "stats%d" % k)
        status = os.path.join(self.dir, "status%d" % k)
        err = open(os.path.join(self.dir, "err%d" % k), "w+b")
        cmd = [exe] + args + ["--stats", stats, "--status", status, "--scratch", scratch,
                              "--exe-dir", os.path.join(B.BUILD, "bin"),
                              "--tier", "1" if self.tier == "thorough" else "0"]
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                             env=child_env(), cwd=scratch, start_new_session=True,
                             close_fds=True)
        with self.mu:
            self.procs.add(p)
        t0 = time.time()
        timed_out = False
        while True:
            try:
                rc = p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                if self.stop or time.time() - t0 > limit:
                    timed_out = not self.stop
                    self._kill(p)
                    rc = p.wait()
                    break
        self._kill(p)
        with self.mu:
            self.procs.discard(p)
        err.seek(0, 2)
        size = err.tell()
        err.seek(max(0, size - 400000))
        text = err.read().decode(errors="replace")
        err.close()
        cur = 0
        phase = 0
        try:
            with open(status, "rb") as f:
                a = array.array("Q")
                a.frombytes(f.read(16))
                cur, phase = a[0], a[1]
        except Exception:
            pass
        st = None
        if rc == 0 and not (os.path.exists(stats) and os.path.getsize(stats)):
            rc = ENDED_EARLY            # exit(0), but not by the harness
        if rc == 0:
            try:
                st = json.load(open(stats))
                a = array.array("Q")
                with open(stats + ".sig", "rb") as f:
                    a.frombytes(f.read())
                st["_sigs"] = a
            except Exception as e:
                text += "\nstats unreadable: %s" % e
                rc = 3
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, text, cur, phase, st, timed_out

    @staticmethod
    def _kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def merge(self, tag, st):
        with self.mu:
            for k in self.totals:
                self.totals[k] += st[k]
            pr = self.per_run.setdefault(tag, {"cases": 0, "nontrivial": 0})
            pr["cases"] += st["cases"]
            pr["nontrivial"] += st["nontrivial"]
            for k, v in st["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            if len(self.samples) < 8:
                self.samples += st["samples"][:2]
            self.sigs.update(st["_sigs"])

    def shard(self, run, exe, seed, start, count):
        tag = "%s/%s" % (run["h"], run["v"])
        end = start + count
        limit = run.get("limit", 700 if self.tier == "quick" else 5400)
        while start < end and not self.stop:
            rc, text, cur, phase, st, to = self._one(
                exe, ["--seed", str(seed), "--start", str(start), "--count", str(end - start)], limit, tag)
            if self.stop:
                return
            if to:
                kind, key, msg = ("hang", "hang", "shard exceeded %d s at case %d" % (limit, cur))
            else:
                kind, key, msg = classify(rc, text)
            if kind == "ok":
                self.merge(tag, st)
                return
            cur = max(start, min(cur, end - 1))
            # judge the failing case again, alone
            single = ["--seed", str(seed), "--start", str(cur), "--count", "1"]
            if kind == "hang":
                again = False
                t0 = time.time()
                for _ in range(40):
                    rc2, t2, _, _, _, to2 = self._one(exe, single, limit, tag)
                    if self.stop:
                        return
                    k2 = "hang" if to2 else classify(rc2, t2)[0]
                    if k2 in ("hang", "violation"):
                        again = True
                        break
                    if time.time() - t0 > 60:
                        break
                if not again:
                    # an overloaded machine, or a deadlock that needs rare timing
                    with self.mu:
                        self.unconfirmed += 1
                        n = self.unconfirmed
                    if n < 3:
                        print("note: %s: case %d timed out once but finishes when run alone" % (tag, cur))
                        if cur > start:
                            rc3, t3, _, _, st3, to3 = self._one(
                                exe, ["--seed", str(seed), "--start", str(start), "--count", str(cur - start)], limit, tag)
                            if rc3 == 0:
                                self.merge(tag, st3)
                        start = cur + 1
                        continue
                    msg += " (this happened to %d cases, but to none of them when run alone)" % n
                repro = single
            elif kind == "violation":
                rc2, t2, _, _, _, to2 = self._one(exe, single, limit, tag)
                k2, key2, msg2 = ("hang", "hang", "") if to2 else classify(rc2, t2)
                if k2 == "violation":
                    repro = single
                    text = t2
                    key, msg = key2, msg2
                else:
                    repro = ["--seed", str(seed), "--start", str(start), "--count", str(cur - start + 1)]
            else:
                self.fail_broken("%s: case %d: %s\n%s" % (tag, cur, msg, text[-6000:]))
                return
            if key in self.known:
                with self.mu:
                    self.known_seen[key] = self.known_seen.get(key, 0) + 1
                    many = self.known_seen[key] > 2000
                if many:
                    self.fail_broken("known finding %s met too often" % key)
                    return
                # cases before the failing one were fine: count them again without it
                if cur > start:
                    rc3, t3, _, _, st3, to3 = self._one(
                        exe, ["--seed", str(seed), "--start", str(start), "--count", str(cur - start)], limit, tag)
                    if rc3 == 0:
                        self.merge(tag, st3)
                start = cur + 1
                continue
            self.report(run, tag, exe, repro, key, msg, text)
            return

    def fail_broken(self, why):
        with self.mu:
            if self.broken is None:
                self.broken = why
            self.stop = True

    def report(self, run, tag, exe, repro, key, msg, text):
        with self.mu:
            if self.violation is not None:
                return
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (self.pid, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:60]))
            json.dump({"property": self.pid, "harness": run["h"], "variant": run["v"],
                       "args": repro, "key": key, "message": msg, "tier": self.tier,
                       "how": "python3 /verif/check.py %s --replay %s" % (self.pid, path),
                       "output": text[-20000:]}, open(path, "w"), indent=1)
            self.violation = {"key": key, "msg": msg, "replay": path, "tag": tag}
            self.stop = True


ROUNDS_SECONDS = 240        # no new round is begun after this


def build_run(b, run):
    for hname in run.get("helpers", ()):
        b.helper(hname)
    for t in run.get("tools", ()):
        b.tool(run["v"], t)
    return b.harness(run["v"], run["h"], wrap=run.get("wrap", ()), extra=run.get("cflags", ()),
                     sources=run.get("sources", ()))


def shards_for(run, tier, seed):
    n = run["t"] if tier == "thorough" else run["q"]
    k = min(run.get("shards", B.JOBS), max(1, n))
    base, rem = divmod(n, k)
    start = run.get("first", 0)
    out = []
    for i in range(k):
        c = base + (1 if i < rem else 0)
        out.append((seed, start, c))
        start += c
    return out


def fuzz_stage(r, run, exe, seconds):
    """Coverage-guided search: the same cases, with libFuzzer choosing the
    random decisions."""
    d = os.path.join(r.dir, "fuzz-" + run["h"])
    os.makedirs(d + "/corpus")
    scratch = d + "/scratch"
    os.mkdir(scratch)
    env = child_env()
    env["VH_SCRATCH"] = scratch
    env["VH_EXE_DIR"] = os.path.join(B.BUILD, "bin")
    cmd = [exe, "-seed=%d" % r.seed, "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=0",
           "-jobs=%d" % B.JOBS, "-workers=%d" % B.JOBS, "-timeout=60", "-rss_limit_mb=3000",
           "-artifact_prefix=%s/crash-" % d, "-print_final_stats=1", d + "/corpus"]
    p = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=seconds + 600)
    units = 0
    text = ""
    for f in os.listdir(d):
        if f.startswith("fuzz-") and f.endswith(".log"):
            t = open(os.path.join(d, f), errors="replace").read()
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
            units += int(m.group(1)) if m else 0
            text += t[-20000:]
    r.counters["libfuzzer executions (%s)" % run["h"]] = units
    r.counters["libfuzzer corpus (%s)" % run["h"]] = len(os.listdir(d + "/corpus"))
    r.totals["evals"] += units
    crashes = [f for f in os.listdir(d) if f.startswith("crash-")]
    if crashes:
        keep = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(keep, exist_ok=True)
        src = os.path.join(d, sorted(crashes)[0])
        dst = os.path.join(keep, "%s-fuzz-%s" % (r.pid, sorted(crashes)[0]))
        shutil.copy(src, dst)
        pr = subprocess.run([exe, dst], env=env, cwd=scratch, stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        t = pr.stdout.decode(errors="replace")
        kind, key, msg = classify(pr.returncode if pr.returncode in (97, 98) else (99 if pr.returncode else 0), t)
        if kind == "violation" and key not in r.known:
            r.report(run, run["h"] + "/fuzz", exe, [dst], key, msg, t)
        elif kind == "ok":
            r.counters["libfuzzer artifacts that did not reproduce"] = len(crashes)


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        return setup()
    if args == ["--manifest"]:
        return manifest()
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    replay = None
    only = None
    scale = 1.0
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]
        elif args[i] == "--seed": seed = args[i + 1]
        elif args[i] == "--replay": replay = args[i + 1]
        elif args[i] == "--only": only = args[i + 1]          # variant, for debugging
        elif args[i] == "--scale": scale = float(args[i + 1])
        i += 2
    try:
        seed = int(seed) & 0x7fffffffffffffff
    except ValueError:
        import zlib
        seed = zlib.crc32(seed.encode())
    spec = CHECKS[pid]
    t0 = time.time()
    runs = [r for r in spec["runs"] if tier == "thorough" or r.get("q", 0) > 0]
    if only:
        runs = [r for r in runs if r["v"] == only or r["h"] == only]
    b = B.Builder()
    try:
        if replay:
            rj = json.load(open(replay))
            run = [r for r in spec["runs"] if r["h"] == rj["harness"] and r["v"] == rj["variant"]][0]
            exe = build_run(b, run)
        else:
            exes = [build_run(b, run) for run in runs]
            fuzzruns = []
            if tier == "thorough" and spec.get("fuzz"):
                for run in runs:
                    if run["v"] == "asan" and run.get("fuzz"):
                        fr = dict(run, v="fuzz")
                        fuzzruns.append((fr, build_run(b, fr)))
    except B.BuildError as e:
        log("BUILD FAILED\n%s" % e)
        return 2
    finally:
        b.close()
    r = Runner(pid, spec, tier, seed)
    try:
        if replay:
            rc, text, cur, ph, st, to = r._one(exe, rj["args"], 900, "replay")
            print(text[-8000:])
            kind, key, msg = classify(rc, text)
            print("replay: %s key=%s %s" % (kind, key, msg))
            return 1 if kind in ("violation", "hang") else (0 if kind == "ok" else 2)
        tb = time.time() - t0
        # The quick tier goes round several times, with new cases; a slow machine
        # does fewer rounds, but always one.
        rounds = ROUNDS.get(pid, 1) if tier != "thorough" else 1
        jobs = []
        # spread the shards of all runs over the cores, biggest first within a run
        for rnd in range(rounds):
            for idx, (run, exe) in enumerate(zip(runs, exes)):
                run = dict(run)
                run.setdefault("first", idx * 100000000)    # different cases per build
                run["q"] = max(1, int(run.get("q", 0) * scale))
                run["t"] = max(1, int(run.get("t", run["q"]) * scale))
                run["first"] += rnd * run["q"]
                for sh in shards_for(run, tier, seed):
                    jobs.append((rnd, (run, exe) + sh))
        slots = threading.Semaphore(spec.get("parallel", B.JOBS))
        threads = []

        def go(j):
            try:
                r.shard(*j)
            except Exception as e:
                r.fail_broken("driver: %r" % e)
            finally:
                slots.release()
        done_rounds = 0
        for rnd, j in jobs:
            slots.acquire()
            if r.stop or (rnd > 0 and time.time() - t0 > ROUNDS_SECONDS):
                slots.release()
                break
            done_rounds = rnd + 1
            t = threading.Thread(target=go, args=(j,))
            t.start()
            threads.append(t)
        for t in threads:
            t.join()
        if not r.stop and tier == "thorough":
            for fr, exe in fuzzruns:
                fuzz_stage(r, fr, exe, spec["fuzz"])
                if r.stop:
                    break
    finally:
        r.cleanup()
    # required observations: otherwise the run proves nothing
    missing = []
    unreached = []   # faults that no call of the library met: it may as well
                     # use other system calls than the ones interposed
    if not r.violation and not r.broken and not only and scale == 1.0:
        for k in spec.get("required", ()):
            if r.counters.get(k, 0) == 0:
                (unreached if " injected" in k or "substituted" in k else missing).append(k)
    known_notes = []
    for k in r.known_seen:
        known_notes.append("%s: %s" % (k, r.known[k]))
    cov = {"evaluations": r.totals["cases"],
           "distinct_nontrivial": len(r.sigs),
           "rule": spec["rule"],
           "samples": r.samples[:8] or ["(no case finished)"],
           "oracle_checks_inside_cases": r.totals["evals"],
           "observed": dict(sorted(r.counters.items())),
           "runs": r.per_run,
           "rounds": "%d of %d" % (done_rounds, rounds),
           "build_s": round(tb, 2)}
    if unreached:
        cov["faults_not_reached"] = unreached
        log("NOTE: not reached in this run: %s" % unreached)
    if known_notes:
        cov["known_findings_met"] = known_notes
    if spec.get("exhaustive_note"):
        cov["exhaustive_part"] = spec["exhaustive_note"]
    ev = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed,
          "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2),
          "violations": 1 if r.violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in r.known_seen:
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, r.known[k]))
    if r.violation:
        v = r.violation
        print("%s [%s] %s" % (v["key"], v["tag"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if r.broken:
        log("CHECK BROKEN: %s" % r.broken)
        return 2
    if missing:
        log("VACUOUS: required observations missing: %s" % missing)
        return 2
    print("%s held: %d cases (%d distinct non-trivial), %d oracle checks inside, %.1f s (build %.1f s)" % (
        pid, r.totals["cases"], len(r.sigs), r.totals["evals"], time.time() - t0, tb))
    return 0


def setup():
    b = B.Builder()
    try:
        for pid, spec in sorted(CHECKS.items()):
            for run in spec["runs"]:
                if run.get("q", 0) > 0:
                    build_run(b, run)
    finally:
        b.close()
    return 0


def manifest():
    from vf.registry import NOT_APPLICABLE
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": []}
    for pid in sorted(CHECKS):
        s = CHECKS[pid]
        m["checks"].append({
            "property": pid,
            "quick_cmd": "python3 check.py %s" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": s["technique"],
            "level": s.get("level", "exploration"),
            "level_note": s["note"],
        })
    m["not_applicable"] = [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())]
    m["notes"] = ("Runtime monitoring and sanitizers. No hooks in /repo are needed: monitors attach "
                  "through the library's own callbacks, its pluggable allocator, link-time wrapping of "
                  "libc calls and sanitizer instrumentation of the sources.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
