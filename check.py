#!/usr/bin/env python3
"""Driver: build one property's harness against /repo's working tree, explore, report.

usage: check.py <property> [quick|thorough]     run a check
       check.py <property> --replay FILE        replay one recorded violation
"""
import json, os, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from harness.props import PROPS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
PATHVAR = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

DEFS = ("-DBOOST_ATOMIC_DYN_LINK -DBOOST_CHRONO_DYN_LINK -DBOOST_CONTAINER_DYN_LINK "
        "-DBOOST_FILESYSTEM_DYN_LINK -DBOOST_LOG_DYN_LINK -DBOOST_PROGRAM_OPTIONS_DYN_LINK "
        "-DBOOST_REGEX_DYN_LINK -DBOOST_SERIALIZATION_DYN_LINK -DBOOST_THREAD_DYN_LINK -DFMT_HEADER_ONLY=1")
INCS = ("-isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi "
        "-isystem /usr/include/eigen3 -isystem /usr/include/python3.12")
L = "/usr/lib/x86_64-linux-gnu/"
LIBS = ("-Wl,--as-needed -Wl,-rpath," + L + "openmpi/lib " + L + "openmpi/lib/libmpi_cxx.so " + L + "openmpi/lib/libmpi.so "
        + " ".join(L + "libboost_%s.so.1.83.0" % b for b in
                   "container log chrono filesystem regex thread atomic program_options serialization".split())
        + " /usr/lib/libVc.a " + L + "libpython3.12.so " + L + "libhdf5_serial.so -lgmp -lmpfr -lgfortran -lquadmath -lpthread -ldl")


def gen_config():
    """What /repo/CMakeLists.txt generates at configure time (same values as the stable build)."""
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "include/fub"), exist_ok=True)
    text = open(os.path.join(REPO, "include/fub/config.hpp.in")).read()
    values = {"FUB_WITH_TBB": "", "FUB_WITH_OPENMP": "", "FUB_DEFAULT_CHUNK_SIZE": "8"}
    out = []
    for line in text.splitlines():
        if line.startswith("#cmakedefine"):
            parts = line.split(None, 2)
            name = parts[1]
            if name in values:
                line = "#define %s %s" % (name, values[name])
            else:
                line = "/* #undef %s */" % name
        out.append(line)
    put(os.path.join(gen, "include/fub/config.hpp"), "\n".join(out) + "\n")
    put(os.path.join(gen, "version.cpp"),
        'const char* GIT_REV = "deadbeef";\nconst char* GIT_TAG = "v0";\nconst char* GIT_BRANCH = "verif";\n')
    return gen


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def build(pid):
    """Build the property's harness, once per part (a part is the same harness with other flags); [(label, exe)]."""
    spec = PROPS[pid]
    gen = gen_config()
    san = spec.get("san", "")
    opt = spec.get("opt", "-O1")
    openmp = "-fopenmp" if spec.get("openmp") else ""
    inc = "-I%s -I%s/include -I%s/include -I%s/harness/inc %s" % (REPO, REPO, gen, VERIF, INCS)
    n = ["ninja_required_version = 1.5", "builddir = %s/n_%s" % (BUILD, pid),
         "rule cxx", "  command = g++ $flags %s %s $extra -MD -MF $out.d -c $in -o $out" % (DEFS, inc),
         "  depfile = $out.d", "  deps = gcc",
         "rule f", "  command = gfortran -g0 -O1 -w -fopenmp -I%s/src/ode_solver -c $in -o $out" % REPO,
         "rule link", "  command = g++ %s %s $in -o $out %s" % (san, openmp, LIBS)]
    os.makedirs(os.path.join(BUILD, "n_" + pid), exist_ok=True)
    exes = []
    for label, more in sorted(spec.get("parts", {"": ""}).items()):
        cxxflags = "-std=c++17 %s -g0 -w -fvisibility=hidden %s %s %s %s" % (opt, san, openmp, spec.get("flags", ""), more)
        cxxflags = cxxflags.rstrip() if not more else cxxflags
        tag = hashlib.sha1(cxxflags.encode()).hexdigest()[:8]
        objs = []

        def add(src, base):
            obj = "%s/obj_%s/%s.o" % (BUILD, tag, base.replace("/", "__"))
            n.append("build %s: %s %s" % (obj, "f" if src.endswith(".f") else "cxx", src))
            n.append("  flags = " + cxxflags)
            objs.append(obj)

        for h in spec["harness"]:
            add(os.path.join(VERIF, "harness", h), "h/" + h)
        for s in spec.get("srcs", []) + spec.get("part_srcs", {}).get(label, []):
            if s == "version.cpp":
                add(os.path.join(gen, "version.cpp"), s)
            else:
                add(os.path.join(REPO, s), s)
        exe = os.path.join(BUILD, "bin_" + pid + ("_" + label if label else ""))
        n.append("build %s: link %s" % (exe, " ".join(objs)))
        n.append("default %s" % exe)
        exes.append((label, exe))
    nf = os.path.join(BUILD, "n_" + pid, "build.ninja")
    put(nf, "\n".join(n) + "\n")
    env = {"PATH": PATHVAR, "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8"}
    r = subprocess.run(["ninja", "-f", nf, "-j8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
    if r.returncode != 0:
        lines = [l for l in r.stdout.splitlines() if "error" in l or "undefined reference" in l or "multiple definition" in l]
        print("\n".join(lines[:40])[:6000])
        print("ERROR: harness for %s does not build" % pid)
        sys.exit(2)
    return exes


def run_env():
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1",
              "UBSAN_OPTIONS": "halt_on_error=1:exitcode=67:print_stacktrace=0",
              "OMP_NUM_THREADS": e.get("VERIF_OMP", "2"),
              "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
              "OMPI_MCA_btl": "self,vader", "PATH": PATHVAR})
    return e


def load_known(pid):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=R01 scenario=... key=... | description
                head, _, desc = line[6:].partition("|")
                kv = dict(p.split("=", 1) for p in head.split())
                if kv.get("property") == pid:
                    known.append((kv["scenario"], kv["key"], desc.strip()))
    return known


def main():
    pid = sys.argv[1]
    if pid == "--selfcheck":
        for tool in ("g++", "ninja", "gfortran"):
            if not shutil.which(tool, path=PATHVAR):
                print("missing tool: " + tool)
                sys.exit(2)
        gen_config()
        print("ok: %d properties" % len(PROPS))
        return
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rec = json.load(open(sys.argv[3]))
        exe = dict(build(pid))[rec.get("part", "")]
        sys.exit(subprocess.call([exe, "--tier", rec.get("tier", "quick"), "--scenario", rec["scenario"][len(rec.get("part", "")):].lstrip("/"), "--replay",
                                  ",".join(map(str, rec["path"]))], env=run_env(), cwd="/"))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exes = build(pid)
    t1 = time.time()
    spec = PROPS[pid]
    work = os.path.join(BUILD, "run_" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    budget = (540 if tier == "quick" else spec.get("thorough_budget", 3000)) // len(exes)
    log = open(os.path.join(work, "stderr.txt"), "w")
    rc, recs = 0, []
    for part, exe in exes:
        out = os.path.join(work, "out%s.jsonl" % part)
        rc = subprocess.call([exe, "--tier", tier, "--out", out, "--budget", str(budget)], cwd=work, env=run_env(),
                             stdout=log, stderr=subprocess.STDOUT) or rc
        for r in [json.loads(l) for l in open(out) if l.strip()] if os.path.exists(out) else []:
            r["part"] = part
            if part:
                r["scenario"] = part + "/" + r["scenario"]
            recs.append(r)
    log.close()
    stats = [r for r in recs if r["type"] == "stats"]
    viols = [r for r in recs if r["type"] == "violation"]
    known = load_known(pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    shutil.rmtree(os.path.join(VERIF, "evidence", pid + "_replay"), ignore_errors=True)
    bad, hit = [], {}
    seen = set()
    for v in viols:
        k = (v["scenario"], v["key"])
        d = [x for x in known if x[0] == k[0] and x[1] == k[1]]
        if d:
            hit[k] = d[0][2]
            continue
        if k in seen:
            continue
        seen.add(k)
        bad.append(v)
    for k, desc in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s/%s %s" % (pid, k[0], k[1], desc))
    replay_dir = os.path.join(VERIF, "evidence", pid + "_replay")
    for i, v in enumerate(bad):
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, "%d.json" % i)
        json.dump({"property": pid, "tier": tier, "scenario": v["scenario"], "key": v["key"], "msg": v["msg"],
                   "part": v["part"], "path": v["path"]}, open(path, "w"), indent=1)
        print("  %s/%s: %s" % (v["scenario"], v["key"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    execs = sum(s["executions"] for s in stats)
    states = sum(s["states"] for s in stats)
    trans = sum(s["transitions"] for s in stats)
    val = sum(s["validated"] for s in stats)
    trunc = sorted({s["scenario"] for s in stats if s["truncated"]})
    samples, outcomes, per = [], {}, {}
    for s in stats:
        p = per.setdefault(s["scenario"], {"bounds": s["bounds"], "executions": 0, "states": 0, "transitions": 0,
                                           "outcomes": {}})
        for f in ("executions", "states", "transitions"):
            p[f] += s[f]
        for o, c in s["outcomes"].items():
            if len(p["outcomes"]) < 40 or o in p["outcomes"]:
                p["outcomes"][o] = p["outcomes"].get(o, 0) + c
        if len(samples) < 24:
            samples += [s["scenario"] + ": " + x for x in s["samples"][:2]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": val,
                       "evaluations": execs, "distinct_nontrivial": states,
                       "rule": "every sequence of choices of every scenario is executed once on the real code "
                               "(depth-first, complete within the bounds listed per scenario); a case counts as "
                               "distinct by the canonical state the scenario hashes",
                       "exhaustive": not trunc and rc == 0, "truncated_scenarios": trunc,
                       "scenarios": per, "samples": samples[:24]},
          "assumptions": spec.get("assumptions", []),
          "build_s": round(t1 - t0, 2), "wall_s": round(time.time() - t0, 2), "violations": len(bad),
          "known_findings_hit": len(hit)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d scenarios, %d executions, %d states, %d transitions, %d traces validated, exhaustive=%s, "
          "build %.1fs, total %.1fs" % (pid, tier, len(per), execs, states, trans, val, not trunc, t1 - t0,
                                        time.time() - t0))
    if bad:
        sys.exit(1)
    if rc != 0 or execs == 0:
        print(open(os.path.join(work, "stderr.txt")).read()[-3000:])
        print("ERROR: exploration of %s did not complete (rc=%d)" % (pid, rc))
        sys.exit(2)
    sys.exit(0)


main()
