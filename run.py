#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  run.py <ID> [--tier quick|thorough]      decide property <ID> on /repo's current tree
  run.py <ID> --replay <file>              replay a recorded counterexample with its trace
  run.py --list                            list the properties that have a harness

Builds harness/<id>*.cpp together with the library sources it names from /repo's working tree (in a
scratch directory that is removed afterwards), explores the bounded space exhaustively, confirms every
counterexample by replaying it in a fresh process, and writes evidence/<ID>.json.
Exit: 0 the property held on everything explored; 1 VIOLATION (confirmed); 2 the check could not run.
Environment: VERIF_REPO (default /repo), VERIF_TIER, VERIF_SEED (recorded; nothing here is random).
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = min(8, os.cpu_count() or 2)
BASE = ["g++", "-std=c++14", "-O1", "-g1", "-pipe", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
        "-D_GLIBCXX_ASSERTIONS", "-Wno-changes-meaning", "-fpermissive", "-w", "-pthread"]
PRELUDE = ["cstring", "cstdlib", "cmath", "cxxabi.h", "algorithm", "map", "tuple", "functional", "memory", "vector", "string",
           "iomanip", "sstream", "fstream", "iostream", "limits", "typeinfo", "numeric", "array"]


def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    sys.exit(code)


def harness_of(pid):
    l = sorted(glob.glob(os.path.join(HERE, "harness", pid.lower() + "_*.cpp")))
    if len(l) != 1:
        die("no harness for " + pid)
    return l[0]


def directives(src):
    d = {}
    for line in open(src):
        m = re.match(r"//\s*MC-([A-Z]+):\s*(.*?)\s*$", line)
        if m:
            d.setdefault(m.group(1), []).append(m.group(2))
    return d


def compile_one(args):
    src, obj, flags = args
    r = subprocess.run(flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, obj, r.returncode, r.stdout


def build(pid, tmp):
    src = harness_of(pid)
    d = directives(src)
    flags = BASE + [x for h in PRELUDE for x in ("-include", h)] + ["-I" + REPO, "-I" + REPO + "/flut", "-I" + os.path.join(HERE, "harness"), "-DVERIF_REPO_DIR=\"%s\"" % REPO]
    hflags = flags + [f for l in d.get("FLAGS", []) for f in l.split()]
    libs = [f for l in d.get("LINK", []) for f in l.split()]
    wanted = [s for l in d.get("SOURCES", []) for s in l.split()]
    everything = sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + "/flut/**/*.cpp", recursive=True) if "/experimental/" not in f)
    objs, log = {}, {}

    def comp(names, with_harness):
        jobs = []
        for s in names:
            if s in objs or not os.path.exists(os.path.join(REPO, s)):
                continue
            jobs.append((os.path.join(REPO, s), os.path.join(tmp, "r_" + s.replace("/", "_") + ".o"), flags))
        if with_harness:
            jobs.insert(0, (src, os.path.join(tmp, "harness.o"), hflags))
        with ThreadPoolExecutor(NPROC) as ex:
            for s, o, rc, out in ex.map(compile_one, jobs):
                key = "harness" if s == src else os.path.relpath(s, REPO)
                if rc == 0:
                    objs[key] = o
                log[key] = out

    exe = os.path.join(tmp, "check")

    def link(names):
        lib = os.path.join(tmp, "lib.a")
        if os.path.exists(lib):
            os.unlink(lib)
        members = [objs[n] for n in names if n in objs]
        if members:
            subprocess.run(["ar", "rcs", lib] + members, check=True)
        r = subprocess.run(["g++", "-fsanitize=address", "-pthread", "-o", exe, objs["harness"]] + ([lib] if members else []) + libs,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout

    comp(wanted, True)
    if "harness" not in objs:
        print(log.get("harness", "")[:6000])
        die("harness of %s does not compile against %s" % (pid, REPO))
    rc, out = link(wanted)
    if rc != 0:  # the code may have moved between source files: fall back to the whole library
        comp(everything, False)
        rc, out = link(everything)
    if rc != 0:
        for k, v in log.items():
            if k not in objs:
                print("---- %s\n%s" % (k, v[:3000]))
        print(out[:3000])
        die("harness of %s does not link against %s" % (pid, REPO))
    return exe, d


def env_for(tmp):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3500:max_malloc_fill_size=65536:malloc_fill_byte=190:allocator_may_return_null=0:detect_stack_use_after_return=0"
    e["TMPDIR"] = tmp
    e["HOME"] = tmp
    e["LC_ALL"] = "C"
    e.pop("LD_PRELOAD", None)
    return e


def run_exe(exe, args, tmp, timeout):
    cwd = tempfile.mkdtemp(prefix="cwd", dir=tmp)
    p = subprocess.Popen([exe] + args, cwd=cwd, env=env_for(tmp), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    shutil.rmtree(cwd, ignore_errors=True)
    return rc, out.decode("latin-1"), err.decode("latin-1")


def known_findings(pid):
    """lines 'known: property=<id> match=<regex on the failure text> ...' in known_findings.txt"""
    res = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known:\s+property=(\S+)\s+scenario=(\S+)\s+choices=(\S*)\s+(.*)$", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3), m.group(4).strip()))
    return res


def main():
    a = sys.argv[1:]
    if not a or a[0] in ("-h", "--help"):
        print(__doc__)
        return 0
    if a[0] == "--list":
        for f in sorted(glob.glob(os.path.join(HERE, "harness", "c[0-9]*_*.cpp"))):
            print(os.path.basename(f).split("_")[0].upper())
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 2
        elif a[i] == "--replay":
            replay = a[i + 1]; i += 2
        else:
            die("bad argument " + a[i])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        exe, d = build(pid, tmp)
        t_build = time.time() - t0
        if replay:
            r = json.load(open(replay))
            tier = r.get("tier", tier)
            if r.get("mode") == "history":
                rc, out, err = run_exe(exe, ["--tier", tier, "--workers", str(r["workers"]), "--only", str(r["worker"]), "--out", os.path.join(tmp, "r.json")], tmp, 3600)
                print(out + err[:4000])
                print("exit", rc)
                return 1 if rc != 0 else 0
            rc, out, err = run_exe(exe, ["--tier", tier, "--replay", r["scenario"], r["choices"]], tmp, 60)
            print(out + err[:6000])
            print("exit", rc)
            return 1 if rc != 0 else 0
        res = os.path.join(tmp, "result.json")
        limit = 840 if tier == "quick" else 4 * 3600
        hang = "20"
        rc, out, err = run_exe(exe, ["--tier", tier, "--workers", str(NPROC), "--out", res, "--hang", hang], tmp, limit - t_build)
        if rc == "timeout":
            die("exploration did not finish in its time limit")
        if rc not in (0, 3) or not os.path.exists(res):
            print(out[-2000:] + err[-2000:])
            die("exploration ended abnormally (exit %s)" % rc)
        r = json.load(open(res))
        violations = 0
        confirmed = None
        if r["status"] != "ok":
            confirmed = confirm(exe, tmp, pid, tier, r, err, history=r["status"] != "hang")
            if confirmed is None and r["status"] == "hang":  # a starved machine, not the code: explore again with more patience
                rc, out, err = run_exe(exe, ["--tier", tier, "--workers", str(NPROC), "--out", res, "--hang", "90"], tmp, limit - (time.time() - t0))
                if rc in (0, 3):
                    r = json.load(open(res))
                    if r["status"] != "ok":
                        confirmed = confirm(exe, tmp, pid, tier, r, err)
        if r["status"] != "ok":
            if confirmed is None:
                print(err[-3000:])
                die("a failure (%s: %s) could not be reproduced by replay; nothing is reported" % (r["status"], r.get("message", "")))
            violations = 1
        # known findings are replayed on their own; none suppresses any other failure
        for scen, choices, text in known_findings(pid):
            rc2, o2, e2 = run_exe(exe, ["--tier", tier, "--replay", scen, choices], tmp, 60)
            if rc2 != 0:
                print("KNOWN-FINDING: property=%s %s" % (pid, text))
        samples = []
        sf = res + ".samples"
        if r["status"] == "ok" and os.path.exists(sf):
            for line in open(sf):
                name, _, ch = line.rstrip("\n").partition(" ")
                rc3, o3, e3 = run_exe(exe, ["--tier", tier, "--replay", name, ch], tmp, 60)
                rc4, o4, e4 = run_exe(exe, ["--tier", tier, "--replay", name, ch], tmp, 60)
                if rc3 != 0 or o3 != o4:
                    die("replay of a recorded execution is not deterministic: %s %s\n%s\n%s" % (name, ch, o3[:1500], o4[:1500]))
                lines = [l.strip() for l in o3.splitlines()]
                samples.append({"scenario": name, "choices": ch[:400], "trace": lines[1:-1][:12]})
                if len(samples) >= 12:
                    break
        write_evidence(pid, tier, seed, r, samples, violations, d, time.time() - t0, t_build)
        if violations:
            print(confirmed["text"])
            print("VIOLATION property=%s replay=%s" % (pid, confirmed["path"]), flush=True)
            return 1
        print("OK property=%s tier=%s executions=%d transitions=%d states=%d outcomes=%d discarded=%d max_choices=%d build=%.1fs explore=%.1fs" % (
            pid, tier, r["executions"], r["transitions"], r["states"], r["outcomes"], r["discarded"], r["max_choices"], t_build, r["wall_s"]))
        print("   " + " ".join("%s=%d" % kv for kv in r["scenarios"].items()))
        if min([v for v in r["scenarios"].values()] + [1]) == 0:
            die("a scenario explored nothing")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def confirm(exe, tmp, pid, tier, r, err, history=True):
    """replay the failing execution alone, in a fresh process, before anything is reported"""
    def record(mode, text):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, tier))
        json.dump({"property": pid, "tier": tier, "mode": mode, "scenario": r["scenario"], "choices": r["choices"], "worker": r["worker"],
                   "workers": r["workers"], "message": r.get("message", ""), "trace": text.splitlines()}, open(path, "w"), indent=1)
        return {"path": path, "text": text}

    lim = 60 if r["status"] == "hang" else 120
    rc, out, e = run_exe(exe, ["--tier", tier, "--replay", r["scenario"], r["choices"]], tmp, lim)
    if rc != 0 and rc != 70 and rc != 71:
        tail = "\n".join(l for l in e.splitlines() if "ERROR" in l or "SUMMARY" in l or l.strip().startswith("#"))[:1500]
        if rc == "timeout":
            tail = "(no progress within %d s: the call does not return)" % lim
        return record("single", out + tail)
    if not history:
        return None
    # not reproducible alone: does it depend on earlier executions in the same process (state kept between calls)?
    res = os.path.join(tmp, "again.json")
    same = 0
    for _ in range(2):
        rc, out, e = run_exe(exe, ["--tier", tier, "--workers", str(r["workers"]), "--only", str(r["worker"]), "--out", res, "--hang", "40"], tmp, 700)
        if rc == 3:
            q = json.load(open(res))
            if q["scenario"] == r["scenario"] and q["choices"] == r["choices"] and q["executions_before"] == r["executions_before"]:
                same += 1
    if same == 2:
        rc, out, e = run_exe(exe, ["--tier", tier, "--replay", r["scenario"], r["choices"]], tmp, lim)
        return record("history", out + "FAIL (only after the preceding executions of the same process, reproduced twice): " + r.get("message", r["status"]))
    return None


def write_evidence(pid, tier, seed, r, samples, violations, d, wall, t_build):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {"bounds": d.get("BOUNDS", []), "oracle": d.get("ORACLE", []), "samples": samples, "exhaustive": violations == 0}
    if r["status"] == "ok":
        cov.update({"states": r["states"], "transitions": r["transitions"], "traces_validated_against_impl": r["executions"],
                    "distinct_outcomes": r["outcomes"], "executions_outside_domain": r["discarded"], "longest_choice_sequence": r["max_choices"],
                    "executions_per_scenario": r["scenarios"], "build_s": round(t_build, 2), "explore_s": r["wall_s"]})
    else:
        cov.update({"states": 0, "transitions": 0, "traces_validated_against_impl": r.get("executions_before", 0), "stopped_at": {k: r[k] for k in ("status", "scenario", "choices", "message")}})
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
               "assumptions": d.get("ASSUMES", []) + ["every transition is executed by the real code built from the working tree with AddressSanitizer and libstdc++ assertions (g++ 13, -O1); values outside the stated alphabets and bounds are not covered"],
               "wall_s": round(wall, 2), "violations": violations}, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as ex:  # anything unexpected is an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
