#!/usr/bin/env python3
"""check.py ID quick|thorough   decide one property on /repo's working tree
   check.py replay FILE         repeat the case a violation was reported for
   check.py setup               build everything once

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: no answer."""
import codecs, json, os, resource, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(ROOT, "harness")
TARGET = os.path.join(H, "target")
REPO = "/repo"
GUARD = "--cfg lang_pt_verif"
sys.path.insert(0, os.path.join(ROOT, "tools"))
from rules import RULES, ASSUME  # noqa: E402

STALL = 40        # seconds without a new case before a worker is looked at
CPU_LIMIT = 90    # CPU seconds one isolated case may take; a case takes milliseconds
AS_LIMIT = 3500 << 20
# A case that is looked into alone may use more, so that only a runaway is reported.
ALONE = 9 << 30


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO_", "MIRI"))}
    e.setdefault("HOME", "/root")
    if os.environ.get("CARGO_HOME"):
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    if os.environ.get("RUSTUP_HOME"):
        e["RUSTUP_HOME"] = os.environ["RUSTUP_HOME"]
    e.update(CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e.update(kw)
    return e


def forget(d):
    """Cargo compares mtimes; a file put back with an old one would be missed."""
    for base, dirs, _ in os.walk(d):
        if os.path.basename(base) == ".fingerprint":
            for x in list(dirs):
                if x.startswith(("lang_pt-", "vh-")):
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)
            dirs[:] = []


def cargo(args, target, flags=GUARD, timeout=800, **kw):
    e = env(RUSTFLAGS=flags, CARGO_TARGET_DIR=target, **kw)
    r = subprocess.run(["cargo"] + args, cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    if r.returncode != 0:
        raise RuntimeError("build failed: cargo %s\n%s" % (" ".join(args), r.stdout.decode("utf8", "replace")[-4000:]))


def build(want):
    """Builds the harness against /repo in the wanted flavours, side by side."""
    jobs = {
        "debug": lambda: cargo(["build", "--offline"], os.path.join(TARGET, "d")),
        "release": lambda: cargo(["build", "--offline", "--release"], os.path.join(TARGET, "r")),
        "asan": lambda: cargo(["build", "--offline", "--target", "x86_64-unknown-linux-gnu"],
                              os.path.join(TARGET, "asan"), GUARD + " --cfg vh_exact -Zsanitizer=address",
                              RUSTUP_TOOLCHAIN="nightly"),
    }
    paths = {
        "debug": os.path.join(TARGET, "d/debug/vh"),
        "release": os.path.join(TARGET, "r/release/vh"),
        "asan": os.path.join(TARGET, "asan/x86_64-unknown-linux-gnu/debug/vh"),
    }
    forget(TARGET)
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(jobs[w]) for w in want]:
            f.result()
    return {w: paths[w] for w in want}


def limits(cpu=None, mem=AS_LIMIT):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


class Worker:
    """One process exploring one slice of the seeds."""

    def __init__(self, run, binary, profile, i, of, secs, skip=0, part=0, extra=()):
        self.__dict__.update(run=run, binary=binary, profile=profile, i=i, of=of, secs=secs, part=part)
        self.extra = list(extra)
        self.out = os.path.join(run.work, "w%d.%s.%d.json" % (i, profile, part))
        self.prog = self.out + ".progress"
        cmd = [binary, run.prop, "--worker", str(i), "--of", str(of), "--secs", str(int(secs)), "--base", str(run.seed),
               "--skip", str(skip), "--out", self.out, "--progress", self.prog] + self.extra
        if run.tier == "thorough":
            cmd.append("--thorough")
        self.asan = profile == "asan"
        capture = run.prop == "C17" and not self.asan
        e = env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:log_path=%s.asan" % self.out)
        self.p = subprocess.Popen(cmd, env=e, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.PIPE if capture else subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, preexec_fn=limits(mem=0 if self.asan else AS_LIMIT))
        self.last, self.since = None, time.time()
        self.done = False
        self.reader = None
        if capture:
            self.reader = threading.Thread(target=self.read, daemon=True)
            self.reader.start()

    def read(self):
        """C17: what the library prints must be UTF-8."""
        dec = codecs.getincrementaldecoder("utf8")()
        case, tail, bad = "?", b"", 0
        while True:
            b = self.p.stdout.read1(1 << 16)
            self.run.add("bytes of log output checked", len(b))
            k = (tail + b).rfind(b"@@case ")
            if k >= 0:
                case = (tail + b)[k + 7:].split(b"\n")[0].decode("ascii", "replace")
            try:
                dec.decode(b, final=not b)
            except UnicodeDecodeError as x:
                # The case is that of the last mark before the bad byte.
                whole = tail + b
                at = len(tail) + x.start
                k = whole.rfind(b"@@case ", 0, max(at, 0))
                if k >= 0:
                    case = whole[k + 7:].split(b"\n")[0].decode("ascii", "replace")
                if bad == 0:
                    self.run.found(case, self.profile, "log output is not UTF-8",
                                   repr(whole[max(0, at - 200):at + 100]), confirm=False)
                bad += 1
                dec.reset()
            tail = (tail + b)[-4000:]
            if not b:
                return

    def progress(self):
        try:
            a = open(self.prog).read().split()
            return int(a[0]), int(a[1])
        except (OSError, ValueError, IndexError):
            return None

    def poll(self):
        """None while running, else 'ended' / 'stalled'."""
        if self.p.poll() is not None:
            if self.reader:
                self.reader.join(20)
            return "ended"
        q = self.progress()
        if q != self.last:
            self.last, self.since = q, time.time()
        if time.time() - self.since > STALL * (4 if self.asan else 1):
            self.p.kill()
            self.p.wait()
            return "stalled"
        return None


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(ROOT, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.counts, self.maxs, self.samples, self.known, self.keys = {}, {}, [], {}, []
        self.evals = self.cases = self.total = 0
        self.viols, self.notes, self.digests = [], [], {}
        self.profiles = {}

    def add(self, k, n):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def found(self, seed, profile, what, detail, confirm=True, extra=None):
        with self.lock:
            self.viols.append(dict(seed=str(seed), profile=profile, what=what, detail=detail, confirm=confirm, extra=extra or []))

    def merge(self, path, profile):
        try:
            d = json.load(open(path))
        except (OSError, ValueError):
            return False
        with self.lock:
            self.cases += d["cases"]
            self.evals += d["evals"]
            self.total += d["viol_total"]
            p = self.profiles.setdefault(profile, [0, 0])
            p[0] += d["cases"]
            p[1] += d["evals"]
            for k, v in d["counts"].items():
                self.counts[k] = self.counts.get(k, 0) + v
            for k, v in d["maxs"].items():
                self.maxs[k] = max(self.maxs.get(k, 0), v)
            self.samples += d["samples"]
            self.known.update(d["known"])
            self.keys.append(path + ".keys")
            if d["digest"]:
                self.digests.setdefault(profile, {}).update({a: b for a, b in d["digest"]})
        for v in d["viols"]:
            self.found(v["seed"], profile, v["what"], v["detail"])
        return True

    def single(self, binary, profile, seed, cpu=CPU_LIMIT):
        """One case alone: (result or None, how it ended)."""
        out = os.path.join(self.work, "single.%s.%s.json" % (profile, seed))
        cmd = [binary, self.prop, "--case", str(seed), "--base", str(self.seed), "--out", out]
        e = env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:log_path=%s.asan" % out)
        try:
            r = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               preexec_fn=limits(cpu=cpu, mem=0 if profile == "asan" else ALONE), timeout=cpu * 4)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        if r.returncode == 0:
            try:
                return json.load(open(out)), "ok"
            except (OSError, ValueError):
                return None, "no result"
        err = r.stderr.decode("utf8", "replace")[-1500:]
        if r.returncode < 0:
            s = -r.returncode
            if s == signal.SIGXCPU:
                return None, "cpu"
            if s == signal.SIGKILL:
                return None, "killed"
            return None, "signal %d %s\n%s%s" % (s, signal.Signals(s).name, err, asan_text(out))
        return None, "exit %d\n%s" % (r.returncode, err)

    def explore(self, bins, plan, secs):
        """plan: (profile, i, of, extra). Runs all side by side; looks into every crash and stall."""
        end = time.time() + secs
        live = [Worker(self, bins[p], p, i, of, secs, extra=x) for p, i, of, x in plan]
        looked = 0
        while live:
            time.sleep(0.3)
            for w in list(live):
                how = w.poll()
                if how is None:
                    continue
                live.remove(w)
                if how == "ended" and w.p.returncode == 0 and self.merge(w.out, w.profile):
                    continue
                at = w.progress()
                if at is None:
                    raise RuntimeError("worker failed to start: exit %s" % w.p.returncode)
                seed, n = at
                looked += 1
                res, end2 = self.single(w.binary, w.profile, seed)
                if res is not None:
                    self.notes.append("case %d: worker %s (%s), alone it ran through" % (seed, how, w.p.returncode))
                    if res["viols"]:
                        self.found(seed, w.profile, res["viols"][0]["what"], res["viols"][0]["detail"], confirm=False)
                elif end2 == "cpu":
                    self.found(seed, w.profile, "no answer within %d s of CPU time (cases take milliseconds)" % CPU_LIMIT,
                               "seed %d" % seed, confirm=False)
                elif end2.startswith("signal"):
                    self.found(seed, w.profile, "the process dies", end2, confirm=False)
                else:
                    self.notes.append("case %d: worker %s, alone: %s: inconclusive" % (seed, how, end2))
                left = end - time.time()
                if left > 2 and looked < 12:
                    live.append(Worker(self, w.binary, w.profile, w.i, w.of, left, skip=n + 1, part=w.part + 1, extra=w.extra))


def asan_text(out):
    d, b = os.path.split(out)
    t = ""
    for f in os.listdir(d):
        if f.startswith(b + ".asan"):
            t += open(os.path.join(d, f), errors="replace").read()[:4000]
    return t


def known_list(prop):
    """id -> text of the open findings of this property."""
    r = {}
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            if l.startswith("open: property=%s " % prop):
                i, t = l[len("open: property=%s " % prop):].strip().split(" ", 1)
                r[i] = t
    except OSError:
        pass
    return r


def miri(run, procs, cases, limit):
    """A small part of the C17 workload under the undefined-behaviour interpreter."""
    e = dict(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation")
    tgt = os.path.join(TARGET, "miri")
    flags = env(RUSTFLAGS=GUARD, CARGO_TARGET_DIR=tgt, **e)

    def one(i, cases, skip=0):
        out = os.path.join(run.work, "miri%d.json" % i)
        cmd = ["cargo", "miri", "run", "--offline", "--", run.prop, "--worker", str(i), "--of", "64",
               "--base", str(run.seed ^ 0x5151), "--cases", str(cases), "--out", out]
        log = open(out + ".log", "wb")
        p = subprocess.Popen(cmd, cwd=H, env=flags, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log,
                             start_new_session=True)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        err = open(out + ".log", errors="replace").read()
        return p.returncode, out, err

    t = time.time()
    rc, out, err = one(63, 1)   # builds too
    if rc != 0 and "Undefined Behavior" not in err and "error: " in err and "Running" not in err:
        run.notes.append("Miri is not usable here: " + err[-400:])
        return
    results = [(rc, out, err)]
    with ThreadPoolExecutor(procs) as ex:
        results += list(ex.map(lambda i: one(i, cases), range(procs)))
    for rc, out, err in results:
        if "Undefined Behavior" in err:
            k = err.index("Undefined Behavior")
            run.found("0", "miri", "undefined behaviour (Miri)", err[max(0, k - 300):k + 3000], confirm=False)
        elif rc == 0:
            run.merge(out, "miri")
        else:
            run.notes.append("a Miri run ended with %s: inconclusive" % rc)
    run.add("seconds under Miri", int(time.time() - t))


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = Run(prop, tier, seed)
    secs = int(os.environ.get("VERIF_SECS", 0)) or (24 if tier == "quick" else 600)
    want = ["debug", "release"] + (["asan"] if prop == "C17" else [])
    bins = build(want)
    n = 8
    if prop == "C21":
        plan = [(p, i, 4, ()) for i in range(4) for p in ("debug", "release")]
    elif prop == "C17":
        plan = [(["debug", "release", "asan", "debug"][i % 4], i, n, ()) for i in range(n)]
    elif prop == "C25":
        plan = [("debug", i, n, ()) for i in range(n)]
    else:
        plan = [(("debug", "release")[i % 2], i, n, ()) for i in range(n)]
    run.explore(bins, plan, secs)
    if prop == "C17":
        miri(run, 7, 4 if tier == "quick" else 60, 120 if tier == "quick" else 1500)
    if prop == "C21":
        a, b = run.digests.get("debug", {}), run.digests.get("release", {})
        both = set(a) & set(b)
        run.add("cases run in both build profiles", len(both))
        for s in sorted(both):
            if a[s] != b[s]:
                run.total += 1
                if len(run.viols) < 5:
                    run.found(s, "debug", "the two build profiles differ", "case %s: digest %s in debug, %s in release" % (s, a[s], b[s]),
                              confirm=False)

    # Violations: repeat alone, write down, report.
    seen, lines = {}, []
    for v in run.viols:
        if v["what"] in seen or len(seen) >= 6:
            continue
        seen[v["what"]] = 1
        rep = None
        if v["confirm"] and v["profile"] in bins:
            for _ in range(3):
                res, _how = run.single(bins[v["profile"]], v["profile"], v["seed"])
                rep = bool(res and res["viol_total"])
                if rep:
                    break
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        f = os.path.join("replays", "%s-%s-%d.json" % (prop, v["seed"], len(lines)))
        json.dump(dict(property=prop, tier=tier, base=seed, seed=v["seed"], profile=v["profile"], what=v["what"],
                       detail=v["detail"], repeated_alone=rep), open(os.path.join(ROOT, f), "w"), indent=1)
        print("--- %s (%s, case %s%s)\n%s" % (v["what"], v["profile"], v["seed"],
              "" if rep is None else ", repeats alone" if rep else ", did not repeat alone", v["detail"][:3000]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, f))
    listed = known_list(prop)
    for k, d in sorted(run.known.items()):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, listed[k]))
        else:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            f = os.path.join("replays", "%s-%s.json" % (prop, k))
            json.dump(dict(property=prop, base=seed, seed="0", profile="debug", what=k, detail=d), open(os.path.join(ROOT, f), "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, f))

    distinct = 0
    if run.keys:
        o = subprocess.run([bins["release"], "union"] + [k for k in run.keys if os.path.exists(k)], stdout=subprocess.PIPE, check=True)
        distinct = int(o.stdout)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=run.evals, distinct_nontrivial=distinct, rule=RULES[prop],
                            samples=run.samples[:4] or ["none"], cases=run.cases, observed=run.counts, maxima=run.maxs,
                            by_profile={k: dict(cases=v[0], evaluations=v[1]) for k, v in run.profiles.items()},
                            known_findings=sorted(run.known), notes=run.notes),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=len(lines))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(run.work, ignore_errors=True)
    print("%s %s: %d cases, %d evaluations, %d distinct non-trivial, %.0f s%s" %
          (prop, tier, run.cases, run.evals, distinct, time.time() - t0, "".join("\nnote: " + x for x in run.notes)))
    for l in lines:
        print(l)
    if lines:
        return 1
    if distinct < 10:
        print("inconclusive: next to nothing was observed")
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    print(v["what"] + "\n" + v["detail"])
    prof = v["profile"] if v["profile"] in ("debug", "release", "asan") else "debug"
    bins = build([prof] if v["property"] != "C21" else ["debug", "release"])
    run = Run(v["property"], "quick", v["base"])
    rc, res = 0, {}
    for p, b in bins.items():
        r, how = run.single(b, p, v["seed"])
        res[p] = r
        if r is None or r["viol_total"]:
            rc = 1
            print(p, how if r is None else "\n".join(x["what"] + "\n" + x["detail"] for x in r["viols"]))
    if len(res) == 2 and all(res.values()) and res["debug"]["digest"] != res["release"]["digest"]:
        rc = 1
        print("the two build profiles differ", res["debug"]["digest"], res["release"]["digest"])
    shutil.rmtree(run.work, ignore_errors=True)
    print("repeats" if rc else "does not repeat on this tree")
    return rc


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    try:
        if sys.argv[1] == "setup":
            build(["debug", "release"])
            sys.exit(0)
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(decide(sys.argv[1], sys.argv[2]))
    except (RuntimeError, subprocess.SubprocessError, OSError) as x:
        print("no answer: %s" % x)
        sys.exit(2)
