#!/usr/bin/env python3
"""Development tool, no check: mutates a scratch copy of /repo and reports which mutants no monitor notices.
   mutate.py WORKDIR LANES SECS [FILTER]   results in WORKDIR/results.jsonl"""
import json, os, re, random, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ["C%02d" % i for i in range(1, 27)]
SWAPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![-=<>])<=(?!=)", "<"), (r"(?<![-=<>])>=(?!=)", ">"),
         (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"(?<= )<(?= )", ">"), (r"&&", "||"), (r"\|\|(?= )", "&&"),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 1\b", " + 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"(?<=[ (])!(?=[a-z])", ""), (r"\.end\b(?!\()", ".start"), (r"\.start\b(?!\()", ".end"), (r"\bbreak\b", "continue"),
         (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"),
         (r"\.rev\(\)", ""), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
         (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\.chain\([^()]*\)", ""),
         (r"\.skip\(1\)", ""), (r"\bis_ok\(\)", "is_err()"), (r"\bis_err\(\)", "is_ok()"), (r"(?<![.\w])if ([^{]+) \{$", "if true {"),
         (r"(?<![.\w])if (?!let)([^{]+) \{$", "if false {"), (r"(?<![.\w])while (?!let)([^{]+) \{$", "while false {"),
         (r"\bindex\b(?=[,)\.;])", "(index + 1)"), (r"success\.consumed_index", "index"),
         (r"\.consumed_index\b", ".consumed_index + 1"), (r"\bSome\(index\)", "None"), (r"Unparsed", "Unparsed"),
         (r"\bvec!\[[^\]]+\]", "vec![]"), (r"pointer(?=[,)])", "pointer + 1"), (r"\.extend\(", ".clone_from_slice(") ,
         (r"\bOrdering::Less\b", "Ordering::Greater"), (r"\.insert\(0, ", ".push("), (r"\.cloned\(\)", ".cloned().take(1)"),
         (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(1)"), (r"\.iter\(\)", ".iter().rev()"),
         (r"debug_assert", "assert")]


def mutants(repo, flt):
    out = []
    for base, dirs, fs in os.walk(os.path.join(repo, "src")):
        dirs[:] = [d for d in dirs if d not in ("doc", "tutorial", "tests", "__tests__")]
        for f in sorted(fs):
            p = os.path.join(base, f)
            rel = os.path.relpath(p, repo)
            if not f.endswith(".rs") or (flt and not re.search(flt, rel)):
                continue
            L = open(p).read().split("\n")
            for i, l in enumerate(L):
                s = l.strip()
                if s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod")) or re.search(r"(writeln?!|impl_grammar|obtain_nullability).*\)\?;$", s) or "is_nullable_n_hidden" in s:
                    continue
                if re.search(r"mod tests|debug_assert|null_hidden|log_entry\(|check_initialized", s):
                    continue
                for rx, to in SWAPS:
                    if rx == to or rx == "debug_assert":
                        continue
                    for m in list(re.finditer(rx, l))[:3]:
                        n = l[:m.start()] + to + l[m.end():]
                        if n != l:
                            out.append((rel, i, l, n))
                if s.endswith(";") and not s.startswith(("let ", "return", "type ", "}", ")", "pub ", "const ", ".", "impl", "fn ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                    out.append((rel, i, l, "/* deleted */"))
                if s.startswith("return ") and s.endswith(";"):
                    out.append((rel, i, l, "/* deleted */"))
    seen, res = set(), []
    for m in out:
        if (m[0], m[1], m[3]) not in seen:
            seen.add((m[0], m[1], m[3]))
            res.append(m)
    return res


class Lane(threading.Thread):
    def __init__(self, work, i, todo, lock, secs, outf):
        super().__init__(daemon=True)
        self.work, self.i, self.todo, self.lock, self.secs, self.outf = work, i, todo, lock, secs, outf
        self.d = os.path.join(work, "lane%d" % i)

    def prepare(self):
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        subprocess.run(["cp", "-a", "/repo", self.d + "/repo"], check=True)
        shutil.rmtree(self.d + "/repo/target", ignore_errors=True)
        shutil.copytree(ROOT + "/harness", self.d + "/h", ignore=shutil.ignore_patterns("target"))
        t = open(self.d + "/h/Cargo.toml").read().replace("/repo", self.d + "/repo")
        open(self.d + "/h/Cargo.toml", "w").write(t)

    def build(self):
        e = dict(os.environ, RUSTFLAGS="--cfg lang_pt_verif -Awarnings", CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true",
                 CARGO_TARGET_DIR=self.d + "/t", CARGO_BUILD_JOBS="2")
        return subprocess.run(["nice", "-n", "15", "cargo", "build", "--offline", "-q"], cwd=self.d + "/h", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)

    def one(self, m):
        rel, i, old, new = m
        p = os.path.join(self.d, "repo", rel)
        src = open(p).read()
        L = src.split("\n")
        assert L[i] == old
        L[i] = new
        open(p, "w").write("\n".join(L))
        try:
            if self.build().returncode:
                return "nocompile", None
            # The likeliest first.
            head = ["C02", "C03", "C04"] if "lexeme" in rel or "tokeniz" in rel else ["C06", "C05", "C23"]
            head += ["C07", "C25", "C12", "C18", "C19", "C10", "C22", "C24", "C21"]
            order = head + [q for q in PROPS if q not in head]
            for k in range(0, 26, 3):
                ps = []
                for q in order[k:k + 3]:
                    out = os.path.join(self.d, q + ".json")
                    if os.path.exists(out):
                        os.remove(out)
                    ps.append((q, out, subprocess.Popen(["nice", "-n", "15", "bash", "-c", "ulimit -v 6000000; exec timeout 60 " + self.d + "/t/debug/vh %s --secs %d --of 1 --base %d --out %s" % (q, self.secs, random.randrange(1 << 30), out)],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
                kill = None
                for q, out, pr in ps:
                    rc = pr.wait()
                    if rc != 0:
                        kill = kill or (q, "exit %d" % rc)
                        continue
                    v = json.load(open(out))
                    if v["viol_total"]:
                        kill = kill or (q, v["viols"][0]["what"])
                    KN = {"C10": 1, "C11": 1}
                    if q in KN and not v["known"]:
                        pass
                if kill:
                    return "killed", kill
            return "SURVIVED", None
        finally:
            open(p, "w").write(src)

    def run(self):
        self.prepare()
        r = self.build()
        assert r.returncode == 0, r.stdout.decode()[-3000:]
        while True:
            with self.lock:
                if not self.todo:
                    return
                m = self.todo.pop()
            try:
                st, why = self.one(m)
            except Exception as x:  # noqa
                st, why = "error", repr(x)
            with self.lock:
                self.outf.write(json.dumps(dict(file=m[0], line=m[1] + 1, old=m[2].strip(), new=m[3].strip(), status=st, why=why)) + "\n")
                self.outf.flush()


if __name__ == "__main__":
    work, lanes, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    flt = sys.argv[4] if len(sys.argv) > 4 else None
    os.makedirs(work, exist_ok=True)
    todo = mutants("/repo", flt)
    res = os.path.join(work, "results.jsonl")
    done = set()
    if os.path.exists(res):
        for l in open(res):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = [m for m in todo if (m[0], m[1] + 1, m[3].strip()) not in done]
    if os.environ.get("SKIP"):
        # What an earlier run settled, by text.
        old = {(d["file"], d["old"], d["new"]) for d in map(json.loads, open(os.environ["SKIP"])) if d["status"] in ("killed", "nocompile")}
        todo = [m for m in todo if (m[0], m[2].strip(), m[3].strip()) not in old]
    random.Random(7).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    if lanes == 0:
        sys.exit()
    lock = threading.Lock()
    with open(res, "a") as outf:
        L = [Lane(work, i, todo, lock, secs, outf) for i in range(lanes)]
        [x.start() for x in L]
        [x.join() for x in L]
