#!/usr/bin/env python3
"""mutate.py OUT N WORKERS PROPERTY[,PROPERTY..] FILE[:FROM-TO]...   (FILE relative to the repository)

Mutation testing of the checks: applies N small changes (spread evenly over all candidates) one at a time to a scratch
clone of /repo, runs the quick checks of the properties (comma separated) on it and lists which changes were not noticed. Works below
/tmp/mut only. A change that does not compile is skipped. Survivors are read by hand: equivalent change, out of the
stated property, or a hole in the check."""
import os, random, re, shutil, subprocess, sys, threading, queue, json
OPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1"]), (r"\b0\.5\b", ["0.25", "1.0"]), (r"\b1\.0\b", ["2.0"]), (r"\b0\.0\b", ["1.0"]), (r"\b2\.0\b", ["1.0"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\blower\b", ["upper"]), (r"\bupper\b", ["lower"]),
    (r"\bLower\b", ["Upper"]), (r"\bUpper\b", ["Lower"]), (r"\bLeft\b", ["Right"]), (r"\bRight\b", ["Left"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\bDirection::X\b", ["Direction::Y"]), (r"\bDirection::Y\b", ["Direction::X"]),
    (r"!(?=[a-zA-Z(])", [""]), (r"\+\+(?=[a-z])", ["--"]), (r"(?<==) -(?=[a-zA-Z(])", [" "]), (r"\((?=-[a-zA-Z(])-", ["("]),
]
def candidates(repo, spec):
    f, _, rng = spec.partition(":")
    lo, hi = (map(int, rng.split("-")) if rng else (1, 10**9))
    lines = open(os.path.join(repo, f)).read().split("\n")
    out, comment = [], False
    for n, l in enumerate(lines, 1):
        s = l.strip()
        if "/*" in s: comment = True
        if "*/" in s: comment = False; continue
        if comment or not lo <= n <= hi or not s or s.startswith(("//", "#", "template", "using", "namespace", "FUB_ASSERT", "typename", "static_assert", "extern", "struct ", "class ")) or "FUB_ASSERT" in s or "throw" in s: continue
        body = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, body):
                if body[:m.start()].count('"') % 2: continue
                for r in reps: out.append((f, n, body[:m.start()] + r + body[m.end():]))
        if re.match(r"^\s+[A-Za-z_][\w.\->\[\]()]*(\(.*\)| [-+*/]?= .*);$", body) and not re.match(r"^\s+(return|const|auto|double|int|bool|using)\b", body) and body.count("(") == body.count(")"):
            out.append((f, n, re.match(r"^\s*", body).group(0) + ";"))
    return out
def main():
    out, n, workers, pid, specs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:]
    c = [x for s in specs for x in candidates("/repo", s)]
    rnd = random.Random(7); rnd.shuffle(c); c = c[:n]
    q = queue.Queue()
    for x in c: q.put(x)
    lock = threading.Lock(); tally = {}
    def work(k):
        repo, verif = "/tmp/mut/r_%s_%d" % (pid.replace(",", ""), k), "/tmp/mut/v_%s_%d" % (pid.replace(",", ""), k)
        shutil.rmtree(repo, ignore_errors=True); shutil.rmtree(verif, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", repo]); os.makedirs(verif)
        subprocess.check_call("cp -r /verif/check.py /verif/harness /verif/known_findings.txt " + verif, shell=True)
        env = dict(os.environ, VERIF_REPO=repo)
        def run():
            p = subprocess.Popen("for p in %s; do python3 check.py $p quick || exit $?; done" % pid.replace(",", " "), shell=True, cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            try: o, _ = p.communicate(timeout=900); return p.returncode, o
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.communicate(); return 99, ""
        rc, o = run()
        if rc: print("baseline fails", o[-500:]); return
        while True:
            try: f, line, text = q.get_nowait()
            except queue.Empty: break
            p = os.path.join(repo, f); old = open(p).read(); l = old.split("\n"); before = l[line - 1]; l[line - 1] = text
            open(p, "w").write("\n".join(l))
            rc, o = run()
            open(p, "w").write(old)
            kind = {0: "SURVIVED", 1: "caught", 99: "timeout"}.get(rc, "nobuild" if "does not build" in o else "error")
            key = ""
            m = re.search(r"^  (\S+/\S+):", o, re.M)
            if m: key = m.group(1)
            with lock:
                tally[kind] = tally.get(kind, 0) + 1
                with open(out, "a") as fo: fo.write("%s %s %s:%d\n    %s\n    %s\n" % (kind, key, f, line, before.strip(), text.strip()))
        shutil.rmtree(repo, ignore_errors=True); shutil.rmtree(verif, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    with open(out, "a") as fo: fo.write("TOTAL %s %s\n" % (pid, json.dumps(tally)))
main()
