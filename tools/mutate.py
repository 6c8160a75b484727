"""Mutation testing of the checks (development tool, not used by any check).
   python3 tools/mutate.py FILE CHECK[,CHECK...] [--max N] [--seed S] [--cases SCALE] [--jobs J] [--only LINE[-LINE]]
Applies one small textual change at a time to FILE (relative to the repository), builds the harnesses of
the named checks (clang -O0, ASan+UBSan, no libFuzzer) against it and runs them with a share of the quick
tier's cases.  Survivors (mutants no check reports) are listed in /tmp/mut/<file>.survivors with their diff."""
import argparse, os, random, re, shutil, subprocess, sys, threading, queue, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run as R
from props import P
BY = {p["id"]: p for p in P}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,vptr,function,alignment", "-fno-sanitize-recover=all",
       "-fsanitize-ignorelist=" + os.path.join(V, "harness", "ubsan_ignore.txt")]

OPS = [
    (r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<"]), (r">=", [">"]),
    (r"(?<=\s)<(?=\s)", ["<="]), (r"(?<=\s)>(?=\s)", [">="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s\w)", ["+"]),
    (r"\+\+", ["--"]), (r"(?<![-\w])--", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\|=", ["&=", "^="]), (r"&=", ["|="]),
    (r"(?<=\s)\|(?=\s)", ["&"]), (r"(?<=\s)&(?=\s)", ["|"]), (r"<<", [">>"]), (r">>", ["<<"]),
    (r"(?<=[\s(])!(?=[\w(])", [""]),
    (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]),
    (r"\bbegin\(\)", ["end()"]), (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]),
    (r"\bpush_back\b", ["push_front"]), (r"\blower_bound\b", ["upper_bound"]),
    (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]),
    (r"\bstd::move\(", ["("]),
    (r"\bempty\(\)", ["empty() == false"]),
]


def mutants(text):
    lines = text.split("\n")
    out = []
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if not s or s.startswith("//") or s.startswith("#") and not s.startswith("#define") or s.startswith("static_assert") or \
                s.startswith("template") or s.startswith("using "):
            continue
        code = l.split("//")[0]
        # mask strings
        masked = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + "\0" * (len(m.group()) - 2) + '"', code)
        for pat, reps in OPS:
            for m in re.finditer(pat, masked):
                for r in reps:
                    out.append((i, code[:m.start()] + r + code[m.end():]))
        for m in re.finditer(r"(?<![\w.'])(\d+)(?![\w.'xX])", masked):
            n = int(m.group(1))
            out.append((i, code[:m.start()] + str(n + 1) + code[m.end():]))
            if n > 1:
                out.append((i, code[:m.start()] + str(n - 1) + code[m.end():]))
        m = re.match(r"^(\s*)(?:else )?if (?:constexpr )?\((.*)\)$", masked)
        if m and masked.count("(") == masked.count(")"):
            k = code.index("(")
            out.append((i, code[:k] + "(" + code[k:] + " || true)"))
            out.append((i, code[:k] + "(" + code[k:] + " && false)"))
        if s.endswith(";") and not re.match(r"^(return|break|continue|using|friend|typedef|static|constexpr|auto|const|throw|class|struct|public|private|\}|extern|typename|template|explicit|virtual|operator)\b", s) \
                and re.match(r"^[\w:.>\-\[\]*&]+(\(|\s*[-+|&^]?=|\.|->|\+\+|<)", s) and not re.match(r"^[\w:<>,&* ]+\s+\w+(\s*=|;|\{|\()", s):
            # a whole statement, when it fits on the line
            prev = lines[i - 1].strip() if i else ""
            if prev == "" or prev[-1] in "{};:)/" or prev == "else":
                if masked.count("(") == masked.count(")"):
                    out.append((i, re.match(r"\s*", code).group() + ";"))
        if re.match(r"^throw\b.*;$", s):
            out.append((i, re.match(r"\s*", code).group() + ";"))
    seen, res = set(), []
    for i, n in out:
        if n != lines[i] and (i, n) not in seen:
            seen.add((i, n))
            res.append((i, n))
    return lines, res


class Worker(threading.Thread):
    def __init__(self, n, q, a, lines, res):
        super().__init__()
        self.n, self.q, self.a, self.lines, self.res = n, q, a, lines, res
        self.d = "/tmp/mut/%s/w%d" % (a.tag, n)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        shutil.copytree("/repo/include", self.d + "/repo/include")
        shutil.copytree("/repo/src", self.d + "/repo/src")

    def compile(self, src, flags, obj, mutated_tu):
        if not mutated_tu:
            # object does not depend on the mutated file
            c = "/tmp/mut/%s/cache-%s" % (self.a.tag, os.path.basename(obj))
            with LOCK:
                if os.path.exists(c):
                    shutil.copy(c, obj)
                    return True
        r = subprocess.run(["clang++"] + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
        if r.returncode == 0 and not mutated_tu:
            with LOCK:
                shutil.copy(obj, c)
        return r.returncode == 0

    def one(self, i, new):
        f = self.a.file
        lines = list(self.lines)
        lines[i] = new
        open(self.d + "/repo/" + f, "w").write("\n".join(lines))
        objs = {}
        shutil.rmtree(self.d + "/o", ignore_errors=True)
        os.makedirs(self.d + "/o")
        for pid in self.a.checks:
            h = BY[pid]["h"]
            fl = list(h.get("flags", []))
            if pid in ("C14", "C15", "C16", "C17", "C18"):
                fl = ["-DJ_IN", "-DJ_OUT", "-DJ_PATCH"]
            inc = ["-I" + self.d + "/repo/include", "-I" + V + "/harness"]
            libs = ["-lpthread"]
            if h.get("yaml"):
                inc = ["-isystem", R.yaml_shim("/tmp/mut")] + inc
                libs.append("-lyaml-cpp")
            san = ["-fsanitize=thread", "-O1"] if h.get("tsan") else ["-O0"] + SAN
            flags = R.COMMON + fl + san + inc
            mine = []
            for s in [V + "/harness/" + x for x in [h["src"]] + h.get("extra", [])] + [self.d + "/repo/" + x for x in h["repo"]]:
                k = (s, tuple(flags))
                if k not in objs:
                    o = self.d + "/o/%s-%s.o" % (pid, os.path.basename(s))
                    dep = f.endswith(".hpp") or s.endswith(f)
                    if not self.compile(s, flags, o, dep):
                        return "nocompile", pid
                    objs[k] = o
                mine.append(objs[k])
            b = self.d + "/h"
            r = subprocess.run(["clang++"] + [x for x in flags if x.startswith("-f")] + mine + ["-o", b] + h.get("ldflags", []) + libs, capture_output=True, text=True)
            if r.returncode:
                return "nolink", pid
            w = self.d + "/work"
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            env = R.env_for("clang")
            env["PBT_SCRATCH"] = w
            cases = max(50, int(h["quick"] * self.a.cases))
            try:
                r = subprocess.run([b, "run", "7", str(self.n), str(cases), "60", w], env=env, capture_output=True, text=True, errors="replace", timeout=120)
            except subprocess.TimeoutExpired:
                return "killed(timeout)", pid
            if r.returncode:
                return "killed", pid
        return "SURVIVED", ""

    def run(self):
        while True:
            try:
                i, new = self.q.get_nowait()
            except queue.Empty:
                return
            try:
                st, pid = self.one(i, new)
            except Exception as e:
                st, pid = "error " + repr(e), ""
            with LOCK:
                self.res.append((i, new, st, pid))
                if st == "SURVIVED":
                    with open(self.a.out, "a") as f:
                        f.write("%s:%d\n  - %s\n  + %s\n" % (self.a.file, i + 1, self.lines[i].strip(), new.strip()))


LOCK = threading.Lock()
if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("file"), ap.add_argument("checks")
    ap.add_argument("--max", type=int, default=100000), ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=float, default=0.1), ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", default="")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    a.checks = a.checks.split(",")
    a.tag = a.file.replace("/", "_")
    a.out = "/tmp/mut/%s.survivors" % a.tag
    os.makedirs("/tmp/mut", exist_ok=True)
    lines, ms = mutants(open("/repo/" + a.file).read())
    if a.only:
        lo, _, hi = a.only.partition("-")
        ms = [m for m in ms if int(lo) <= m[0] + 1 <= int(hi or lo)]
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.max]
    if a.list:
        for i, n in sorted(ms):
            print(i + 1, n.strip())
        sys.exit()
    if os.path.exists(a.out):
        os.remove(a.out)
    R.yaml_shim("/tmp/mut")
    q = queue.Queue()
    for m in ms:
        q.put(m)
    res = []
    ws = [Worker(n, q, a, lines, res) for n in range(a.jobs)]
    [w.start() for w in ws]
    [w.join() for w in ws]
    n = {}
    for _, _, st, pid in res:
        k = st.split()[0]
        n[k] = n.get(k, 0) + 1
    print(a.file, len(ms), n, flush=True)
    shutil.rmtree("/tmp/mut/" + a.tag, ignore_errors=True)
