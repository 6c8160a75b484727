#!/usr/bin/env python3
"""Driver: run.py <ID> quick|thorough     run the check of one property
           run.py replay <file.json>      rebuild and replay a saved failing case

Builds the harness of the property together with /repo's current sources, searches (random
choice-sequence generation on all cores, then coverage-guided libFuzzer on the same property
function), shrinks a failure, replays it three times and reports.  Exit 0 / 1 as in MANIFEST."""
import fcntl, glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from props import P

BY_ID = {p["id"]: p for p in P}
NCPU = min(8, os.cpu_count() or 8)
HANG_S = 40


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------- build
class BuildError(Exception):
    pass


COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-DRAPIDJSON_HAS_STDSTRING=1", "-w"]


def yaml_shim(build):
    """yaml-cpp's NodeType is a struct here; src/yaml.cpp (re)opens it as a namespace, as in the
    version the project pins. Symbol mangling is the same, so a patched header copy links."""
    dst = os.path.join(build, "yamlshim")
    if not os.path.isdir(dst + "/yaml-cpp"):
        tmp = dst + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree("/usr/include/yaml-cpp", tmp + "/yaml-cpp")
        f = tmp + "/yaml-cpp/node/type.h"
        s = open(f).read()
        s = s.replace("struct NodeType {", "namespace NodeType {").replace(
            "enum value { Undefined, Null, Scalar, Sequence, Map };\n};",
            "enum value { Undefined, Null, Scalar, Sequence, Map };\n}")
        open(f, "w").write(s)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return dst


def compile_cmds(p, kind, build):
    h = p["h"]
    srcs = [os.path.join(V, "harness", x) for x in [h["src"]] + h.get("extra", [])] + [os.path.join(REPO, s) for s in h["repo"]]
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "harness")]
    libs = []
    if h.get("yaml"):
        inc = ["-isystem", yaml_shim(build)] + inc
        libs.append("-lyaml-cpp")
    flags = list(COMMON) + h.get("flags", [])
    ubsan = "-fsanitize=undefined"
    no = "-fno-sanitize=nonnull-attribute,vptr,function,alignment"
    if kind == "clang":
        cxx = "clang++"
        flags += ["-O1", "-fsanitize=address,fuzzer-no-link", ubsan, no, "-fno-sanitize-recover=all",
                  "-fsanitize-ignorelist=" + os.path.join(V, "harness", "ubsan_ignore.txt"), "-DPBT_FUZZ"]
        rt = subprocess.run(["clang++", "--print-file-name=libclang_rt.fuzzer_no_main-x86_64.a"],
                            capture_output=True, text=True).stdout.strip()
        if not os.path.exists(rt):
            rt = subprocess.run("ls /usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a",
                                shell=True, capture_output=True, text=True).stdout.split()[0]
        libs = [rt] + libs
    elif kind == "gcc":
        cxx = "g++"
        flags += ["-O1", "-fsanitize=address", ubsan, no.replace(",function", ""),
                  "-fno-sanitize-recover=all"]
    elif kind == "tsan":
        cxx = "clang++"
        flags += ["-O1", "-fsanitize=thread"]
    elif kind == "tsan-gcc":
        cxx = "g++"
        flags += ["-O1", "-fsanitize=thread"]
    libs += ["-lpthread"]
    return cxx, flags + inc, srcs, libs


def build(p, kinds, bdir):
    """Try the kinds in order until one builds; returns (kind, binary)."""
    errs = []
    for kind in kinds:
        out = os.path.join(bdir, p["id"] + "-" + kind)
        os.makedirs(out, exist_ok=True)
        cxx, flags, srcs, libs = compile_cmds(p, kind, bdir)
        procs, objs = [], []
        for s in srcs:
            o = os.path.join(out, os.path.basename(s) + ".o")
            objs.append(o)
            procs.append((s, subprocess.Popen([cxx] + flags + ["-c", s, "-o", o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        ok = True
        for s, pr in procs:
            txt, _ = pr.communicate()
            if pr.returncode != 0:
                ok = False
                errs.append("%s: %s\n%s" % (kind, s, txt[:3000]))
        if not ok:
            continue
        binp = os.path.join(out, "harness")
        r = subprocess.run([cxx] + [f for f in flags if f.startswith("-f") or f.startswith("-g")] + objs +
                           ["-o", binp] + p["h"].get("ldflags", []) + libs, capture_output=True, text=True)
        if r.returncode == 0:
            return kind, binp
        # a function may have moved to another source file: link everything in src/ that builds here
        more = [f for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))) if f not in srcs and "win32" not in f and
                (p["h"].get("yaml") or not f.endswith("/yaml.cpp"))]
        extra = []
        for f in more:
            o = os.path.join(out, "more_" + os.path.basename(f) + ".o")
            if subprocess.run([cxx] + flags + ["-c", f, "-o", o], capture_output=True).returncode == 0:
                extra.append(o)
        r2 = subprocess.run([cxx] + [f for f in flags if f.startswith("-f") or f.startswith("-g")] + objs + extra +
                            ["-o", binp] + p["h"].get("ldflags", []) + libs, capture_output=True, text=True) if extra else r
        if r2.returncode == 0:
            return kind, binp
        errs.append("%s link: %s" % (kind, r.stderr[:3000]))
    raise BuildError("harness build failed:\n" + "\n".join(errs))


# ---------------------------------------------------------------------------------------- search
def env_for(kind):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                         "max_allocation_size_mb=4096:handle_abort=1:detect_stack_use_after_return=1:"
                         "detect_container_overflow=1:malloc_context_size=12:quarantine_size_mb=32")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
    return e


class Fail:
    def __init__(self, binp, kind, how, arg, msg):
        self.bin, self.kind, self.how, self.arg, self.msg = binp, kind, how, arg, msg


def run_random(p, kind, binp, seed, cases, cap, work, workers):
    """Returns (stats, Fail|None)."""
    procs = []
    env = env_for(kind)
    per = max(1, cases // workers)
    for w in range(workers):
        d = os.path.join(work, "w%s%d" % (kind, w))
        os.makedirs(d, exist_ok=True)
        err = open(d + "/stderr", "w")
        procs.append((w, d, subprocess.Popen(
            [binp, "run", str(seed), str(w + (1000 if kind.startswith("tsan") else 0)), str(per), str(cap), d],
            stdout=err, stderr=err, env=env)))
    last = {}
    fail = None
    pending = list(procs)
    while pending:
        time.sleep(0.05)
        for item in list(pending):
            w, d, pr = item
            rc = pr.poll()
            try:
                with open(d + "/progress", "rb") as f:
                    idx, cs, done = struct.unpack("<QQQ", f.read(24))
            except Exception:
                idx, cs, done = 0, None, 0
            if rc is not None:
                pending.remove(item)
                if rc == 0:
                    continue
                if rc == 11 and os.path.exists(d + "/fail.choices"):
                    f = Fail(binp, kind, "choices", d + "/fail.choices", open(d + "/fail.msg").read())
                elif cs is None:
                    raise RuntimeError("worker died before its first case, rc=%s: %s" %
                                       (rc, open(d + "/stderr").read()[-2000:]))
                elif rc < 0 and -rc in (signal.SIGKILL, signal.SIGTERM):
                    log("worker %d killed from outside (rc %d); inconclusive for its remaining cases" % (w, rc))
                    continue
                else:
                    f = Fail(binp, kind, "seed", str(cs), "abnormal end rc=%d\n%s" %
                             (rc, open(d + "/stderr", errors="replace").read()[:6000]))
                if fail is None:
                    fail = f
                    for _, _, q in pending:
                        q.kill()
                    for _, _, q in pending:
                        q.wait()
                    pending = []
                    break
                continue
            key = (idx, cs)
            if last.get(w, (None, 0))[0] != key:
                last[w] = (key, time.time())
            elif cs is not None and not done and time.time() - last[w][1] > HANG_S:
                pr.kill()
                pr.wait()
                pending.remove(item)
                if fail is None:
                    fail = Fail(binp, kind, "seed", str(cs), "no progress for %d s" % HANG_S)
                    for _, _, q in pending:
                        q.kill()
                    for _, _, q in pending:
                        q.wait()
                    pending = []
                    break
    st = dict(evaluations=0, nontrivial=0, draws=0, labels={}, samples=[], hashes=set(), rule="")
    for w, d, pr in procs:
        try:
            r = json.load(open(d + "/result.json"))
        except Exception:
            continue
        st["evaluations"] += r["evaluations"]
        st["nontrivial"] += r["nontrivial"]
        st["draws"] += r["draws"]
        st["rule"] = r["rule"]
        for k, v in r["labels"].items():
            st["labels"][k] = st["labels"].get(k, 0) + v
        if len(st["samples"]) < 6:
            st["samples"] += r["samples"][:2]
        h = open(d + "/hashes.bin", "rb").read()
        st["hashes"].update(struct.unpack("<%dQ" % (len(h) // 8), h))
    return st, fail


def run_fuzz(p, binp, seed, runs, cap, work, workers):
    procs = []
    env = env_for("clang")
    for w in range(workers):
        d = os.path.join(work, "f%d" % w)
        os.makedirs(d + "/corpus", exist_ok=True)
        seedc = os.path.join(work, "wclang%d" % w, "corpus")
        args = [binp, "fuzz", d, d + "/corpus"]
        # half of the workers start from structured seeds, the other half from nothing
        if w % 2 == 0 and os.path.isdir(seedc):
            args.append(seedc)
        args += ["-seed=%d" % (seed * 131 + w + 1), "-runs=%d" % runs, "-max_total_time=%d" % int(cap),
                 "-max_len=6000", "-len_control=20", "-artifact_prefix=%s/" % d, "-print_final_stats=0",
                 "-verbosity=0", "-timeout=%d" % HANG_S, "-rss_limit_mb=3500", "-use_value_profile=1",
                 "-detect_leaks=0", "-reload=0"]
        err = open(d + "/stderr", "w")
        procs.append((w, d, subprocess.Popen(args, stdout=err, stderr=err, env=env)))
    fail = None
    pending = list(procs)
    t0 = time.time()
    while pending:
        time.sleep(0.1)
        for item in list(pending):
            w, d, pr = item
            rc = pr.poll()
            if rc is None:
                if time.time() - t0 > cap + 3 * HANG_S + 30:
                    pr.kill()
                    pr.wait()
                    pending.remove(item)
                    log("fuzz worker exceeded its budget; inconclusive")
                continue
            pending.remove(item)
            if rc == 0:
                continue
            txt = open(d + "/stderr", errors="replace").read()
            arts = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-"))]
            if not arts:
                # e.g. out-of-memory limit of the fuzzer process itself: not a verdict
                log("fuzz worker ended rc=%d without a crash artefact: %s" % (rc, txt[-300:]))
                continue
            subprocess.run([binp, "dumprec", d + "/rec", d + "/fail.choices"], env=env)
            if fail is None:
                fail = Fail(binp, "clang", "choices", d + "/fail.choices", txt[-6000:])
                for _, _, q in pending:
                    q.kill()
                for _, _, q in pending:
                    q.wait()
                pending = []
                break
    st = dict(evaluations=0, nontrivial=0, hashes=set())
    for w, d, pr in procs:
        try:
            r = json.load(open(d + "/fuzz.json"))
            st["evaluations"] += r["evaluations"]
            st["nontrivial"] += r["nontrivial"]
            h = open(d + "/hashes.bin", "rb").read()
            st["hashes"].update(struct.unpack("<%dQ" % (len(h) // 8), h))
        except Exception:
            pass
    return st, fail


def confirm(p, fail, work, out_path, tier, seed):
    """Shrink and replay. Returns path of the replay file, or None if it does not reproduce."""
    conc = bool(p["h"].get("tsan"))
    env = env_for(fail.kind)
    d = os.path.join(work, "shrink")
    os.makedirs(d, exist_ok=True)
    tmo = 30 if not conc else 60
    got = False
    t_shrink = time.time()
    for attempt in range(30 if conc else 2):
        if time.time() - t_shrink > 240:
            break
        try:
            r = subprocess.run([fail.bin, "shrink", fail.how, fail.arg, d, "60" if not conc else "20", str(tmo)],
                               env=env, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 0 and os.path.exists(d + "/min.choices"):
            got = True
            break
    if not got:
        if conc and ("ThreadSanitizer" in fail.msg or "AddressSanitizer" in fail.msg or fail.how == "choices"):
            # A race report or a broken history is evidence by itself; the schedule may not recur.
            json.dump(dict(property=p["id"], kind=fail.kind, choices=None, message=fail.msg, seed=seed, tier=tier,
                           note="schedule-dependent; did not recur in 30 re-runs"), open(out_path, "w"), indent=1)
            return out_path
        log("failure did not reproduce in isolation; treated as inconclusive:\n" + fail.msg[:2000])
        return None
    # replay three times
    fails = 0
    outs = ""
    t_replay = time.time()
    for _ in range(3 if not conc else 20):
        if conc and time.time() - t_replay > 120:
            break
        try:
            r = subprocess.run([fail.bin, "replay", d + "/min.choices", str(tmo)], env=env, capture_output=True,
                               text=True, errors="replace", timeout=200)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 1:
            fails += 1
            outs = (r.stdout + "\n" + r.stderr)[:8000]
    if (not conc and fails < 3):
        log("shrunk failure flaky (%d/3); treated as inconclusive\n%s" % (fails, fail.msg[:2000]))
        return None
    try:
        show = subprocess.run([fail.bin, "show", d + "/min.choices"], env=env, capture_output=True, text=True,
                              errors="replace", timeout=60).stdout
    except Exception:
        show = ""
    choices = [int(x) for x in open(d + "/min.choices").read().split()]
    msg = open(d + "/min.msg").read() if os.path.exists(d + "/min.msg") else fail.msg
    json.dump(dict(property=p["id"], kind=fail.kind, choices=choices, message=msg, case=show[:6000], replay_output=outs,
                   seed=seed, tier=tier, reproduced="%d replays failed" % fails,
                   replay_cmd="python3 run.py replay " + out_path), open(out_path, "w"), indent=1)
    return out_path


# ------------------------------------------------------------------------------ known findings
def known_findings(pid):
    """known_findings.txt: '<kind>: property=<id> ...' lines. Only 'finding:' lines are printed;
    a 'fixed:' line suppresses nothing.  Format of a finding:
       finding: property=<id> match=<regex over the failure message> <what fails>
    Harnesses exclude listed findings by construction, so here they are only announced."""
    res = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("finding: property=%s " % pid):
                res.append(line[len("finding: "):].strip())
    return res


def check(pid, tier):
    p = BY_ID[pid]
    h = p["h"]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(V, "build")
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, pid + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    work = os.path.join(bdir, "work-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.environ["PBT_SCRATCH"] = work  # for harnesses that create files; removed below
    quick = tier == "quick"
    workers = h.get("workers", NCPU)
    cases = h["quick"] if quick else h["thorough"]
    cap = h.get("cap", 100) if quick else 1500
    fuzz_runs = h.get("fuzz", 0)
    if fuzz_runs and not quick:
        fuzz_runs *= 60
    fuzz_cap = 25 if quick else 600
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    cases = int(cases * scale)
    fuzz_runs = int(fuzz_runs * scale)

    stages = []
    tot = dict(evaluations=0, nontrivial=0, draws=0, labels={}, samples=[], hashes=set(), rule="")
    fail = None
    runs = []
    if h.get("tsan"):
        runs.append(["tsan", "tsan-gcc"])
        if h.get("asan_too"):
            runs.append(["clang", "gcc"])
    else:
        runs.append(["clang", "gcc"])
    built = []
    tb = time.time()
    for kinds in runs:
        built.append(build(p, kinds, bdir))
    build_s = time.time() - tb
    for kind, binp in built:
        ts = time.time()
        st, fail = run_random(p, kind, binp, seed, cases, cap, work, workers)
        for k in ("evaluations", "nontrivial", "draws"):
            tot[k] += st[k]
        for k, v in st["labels"].items():
            tot["labels"][k] = tot["labels"].get(k, 0) + v
        tot["samples"] += st["samples"]
        tot["hashes"] |= st["hashes"]
        tot["rule"] = st["rule"] or tot["rule"]
        stages.append(dict(stage="random generation", build=kind, evaluations=st["evaluations"],
                           nontrivial=st["nontrivial"], wall_s=round(time.time() - ts, 2)))
        if fail:
            break
        if kind == "clang" and fuzz_runs:
            ts = time.time()
            fst, fail = run_fuzz(p, binp, seed, fuzz_runs, fuzz_cap, work, workers)
            tot["evaluations"] += fst["evaluations"]
            tot["nontrivial"] += fst["nontrivial"]
            tot["hashes"] |= fst["hashes"]
            stages.append(dict(stage="coverage-guided (libFuzzer)", build=kind, evaluations=fst["evaluations"],
                               nontrivial=fst["nontrivial"], wall_s=round(time.time() - ts, 2)))
            if fail:
                break
    violation = None
    if fail:
        rdir = os.path.join(V, "replays")
        os.makedirs(rdir, exist_ok=True)
        violation = confirm(p, fail, work, os.path.join(rdir, "%s-%s-seed%d.json" % (pid, tier, seed)), tier, seed)
    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=len(tot["hashes"]),
                            rule=tot["rule"], samples=tot["samples"][:8] or ["(no sample recorded)"],
                            nontrivial_total=tot["nontrivial"], choices_drawn=tot["draws"], labels=tot["labels"],
                            stages=stages, build_s=round(build_s, 2)),
              assumptions=[p["note"]], wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if violation:
        log(open(violation).read()[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, violation), flush=True)
        return 1
    if tot["evaluations"] == 0 or not tot["hashes"]:
        log("nothing was explored")
        return 2
    print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
          (pid, tier, tot["evaluations"], len(tot["hashes"]), time.time() - t0))
    return 0


def replay(path):
    r = json.load(open(path))
    p = BY_ID[r["property"]]
    bdir = os.path.join(V, "build")
    os.makedirs(bdir, exist_ok=True)
    kind, binp = build(p, [r["kind"]], bdir)
    f = os.path.join(bdir, "replay.choices")
    open(f, "w").write("\n".join(map(str, r["choices"])))
    env = env_for(kind)
    subprocess.run([binp, "show", f], env=env)
    return subprocess.run([binp, "replay", f, "60"], env=env).returncode


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    try:
        rc = check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except BuildError as e:  # no answer, not a violation
        log(e)
        print("INCONCLUSIVE property=%s the harness does not build against this tree" % sys.argv[1])
        rc = 2
    sys.exit(rc)
