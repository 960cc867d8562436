#!/usr/bin/env python3
"""Development aid: mutate covered lines of the library and see which checks notice.

mutate.py N SEED LANES OUT [FILE_REGEX]
Reads /tmp/gc/p/<property>.js (lines reached per property), works on clones under /tmp/mut/l<i>."""
import glob, json, os, random, re, subprocess, sys, threading, collections, time, signal

N, SEED, LANES, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FILT = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
ONLY = None
VERIF, BASE = "/verif", "/tmp/mut"
SKIP = re.compile(r"T8_ASSERT|SC_ASSERT|SC_CHECK_ABORT|SC_ABORT|_debugf|_errorf|_productionf|_essentialf|_infof|_statistic|profile|runtime|sc_MPI_Wtime|"
                  r"^\s*(//|\*|/\*|#|case |default:|template|else\s*$|\{|\}|extern|typedef|using|static_assert)|assert|t8_log_indent|sc_stats|_verbosef|is_valid|SC_NOOP")
cov = {}
for f in sorted(glob.glob("/tmp/gc/p/*.js")):
    p = os.path.basename(f)[:-3]
    for n, d in json.load(open(f)).items():
        for l, c in d.items():
            cov.setdefault((n, int(l)), {})[p] = c

def muts(line):
    code = line.split("//")[0].rstrip("\n")
    out = []
    def sub(m, new, kind):
        out.append((kind, code[:m.start()] + new + code[m.end():] + "\n"))
    for m in re.finditer(r"(?<![<>=!\-+*/&|^%])(==|!=|<=|>=|<|>)(?![<>=])", code):
        op = m.group(1)
        if op in "<>" and (not code[m.start() - 1:m.start()].isspace() or re.search(r"(template|static_cast|vector|reinterpret|array|std::|span|const_cast)", code)):
            continue
        for new in {"==": ["!="], "!=": ["=="], "<=": ["<", "=="], ">=": [">"], "<": ["<=", "!="], ">": [">=", "!="]}[op][:1 if random.random() < .7 else 2]:
            sub(m, new, op + "→" + new)
    for m in re.finditer(r"(?<=[\w\)\]] )([+\-*/%]) (?=[\w\(])", code):
        new = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[m.group(1)]
        if m.group(1) == "*" and re.match(r"\s*(const\s+)?[\w:]+\s*\*", code):
            continue
        sub(m, new + " ", m.group(1) + "→" + new)
    for m in re.finditer(r"&&|\|\|", code):
        sub(m, "||" if m.group(0) == "&&" else "&&", m.group(0))
    for m in re.finditer(r"(?<![\w.\[\"x])(\d+)(?![\w.\"])", code):
        v = int(m.group(1))
        if v <= 64:
            sub(m, str(v + 1), "const+1")
            if v:
                sub(m, str(v - 1), "const-1")
    m = re.match(r"^(\s*)(if|while) \((.*)\) \{\s*$", code)
    if m and "=" not in re.sub("[=!<>]=", "", m.group(3)):
        out.append(("negate", f"{m.group(1)}{m.group(2)} (!({m.group(3)})) {{\n"))
        if m.group(2) == "if":
            out.append(("if0", f"{m.group(1)}if (0 && ({m.group(3)})) {{\n"))
            out.append(("if1", f"{m.group(1)}if (1 || ({m.group(3)})) {{\n"))
    if re.match(r"^\s*[\w\->.\[\]\*\(\) ]+(=|\+=|-=|\|=|&=|\^=)[^=].*;\s*$", code) and not re.match(r"^\s*(const\s+)?[A-Za-z_][\w:<>]*(\s*\*+\s*|\s+\*?\s*)\w+\s*(\[.*\])?\s*=", code) and "return" not in code:
        out.append(("delete", ";\n"))
    elif re.match(r"^\s*[\w\->.:]+ ?\(.*\);\s*$", code) and "return" not in code and not re.search(r"FREE|destroy|unref|ALLOC|_init", code):
        out.append(("delcall", ";\n"))
    if re.match(r"^\s*(\w|->)+(\+\+|--);\s*$", code):
        out.append(("delete", ";\n"))
    m = re.search(r"[^+]\+\+", code)
    for a, b in (("&", "|"), ("|", "&"), ("<<", ">>"), (">>", "<<"), ("^", "&")):
        for m in re.finditer(r"(?<=[\w\)\]] )" + re.escape(a) + r"(?= [\w\(~])", code):
            if "std::" not in code and "cout" not in code:
                sub(m, b, a + "→" + b)
    for m in re.finditer(r"\b(true|false|std::min|std::max|SC_MIN|SC_MAX|upper_bound|lower_bound)\b", code):
        sw = {"true": "false", "false": "true", "std::min": "std::max", "std::max": "std::min", "SC_MIN": "SC_MAX", "SC_MAX": "SC_MIN",
              "upper_bound": "lower_bound", "lower_bound": "upper_bound"}
        sub(m, sw[m.group(1)], m.group(1))
    return out

random.seed(SEED)
files = collections.defaultdict(list)
for (n, l) in sorted(cov):
    if FILT.search(n):
        files[n].append(l)
cands = []
for n, ls in files.items():
    text = open("/repo/src/" + n).readlines()
    depth = False
    for l in ls:
        s = text[l - 1]
        if SKIP.search(s) or '"' in s:
            continue
        # inside a debug-only block?
        back = [x for x in range(max(0, l - 60), l - 1) if text[x].startswith("#")]
        if back and re.match(r"#\s*if.*(DEBUG)", text[back[-1]]):
            continue
        ms = muts(s)
        if ms:
            cands.append((n, l, ms))
random.shuffle(cands)
# spread over the files: at most a share proportional to the square root of the lines
per = collections.Counter()
quota = {n: max(3, int(2.2 * len(ls) ** 0.5)) for n, ls in files.items()}
jobs = []
for n, l, ms in cands:
    if per[n] < quota[n] and len(jobs) < N:
        per[n] += 1
        jobs.append((n, l) + random.choice(ms))
print(len(jobs), "mutants of", len(cands), "lines in", len(files), "files", flush=True)
lock = threading.Lock()
harness = {}
for f in glob.glob(VERIF + "/harness/h_*.cxx"):
    for m in re.finditer(r'\(\{\s*"([A-Z]\d\d)"', open(f).read()):
        harness[m.group(1)] = os.path.basename(f)[:-4]
total = collections.Counter()
for k, d in cov.items():
    for p in d:
        total[p] += 1

def setup(i):
    d = f"{BASE}/l{i}"
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    else:
        subprocess.run(f"cd {d}/repo && git checkout -q . && git pull -q", shell=True, check=True)
    subprocess.run(f"mkdir -p {d}/verif && rsync -a --delete --exclude .build --exclude .git --exclude seeded {VERIF}/ {d}/verif/ 2>/dev/null || "
                   f"(cd {VERIF} && cp -a check.py vpbuild.py props.py meta.py engine harness known_findings.txt {d}/verif/)", shell=True, check=True)
    env = dict(os.environ, VP_REPO=d + "/repo")
    subprocess.run(["python3", d + "/verif/vpbuild.py", "all"], env=env, check=True, stdout=subprocess.DEVNULL)

def run(cmd, env, tmo):
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=tmo)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return -99, "timeout"

def lane(i):
    d = f"{BASE}/l{i}"
    env = dict(os.environ, VP_REPO=d + "/repo", VP_WORKERS="2", VP_SHRINK_SECONDS="0", VP_MTIME="1")
    while True:
        with lock:
            if not jobs:
                return
            n, l, kind, new = jobs.pop()
        path = f"{d}/repo/src/{n}"
        orig = open(path).read()
        lines = orig.splitlines(True)
        old = lines[l - 1]
        if new.strip() == old.strip():
            continue
        lines[l - 1] = new
        open(path, "w").write("".join(lines))
        props = sorted(cov[(n, l)], key=lambda p: total[p])
        t0 = time.time()
        res, why, built = "SURVIVED", "", set()
        try:
            for scale in (0.02, 0.2):
                ps = props if scale < 0.1 else props[:4]
                for p in ps:
                    h = harness[p]
                    if h not in built:
                        rc, o = run(["python3", d + "/verif/vpbuild.py", h], env, 900)
                        if rc != 0:
                            res, why = "NOBUILD", ""
                            break
                        built.add(h)
                    rc, o = run([f"{d}/verif/.build/dbg/{h}", "--prop", p, "--tier", "quick", "--root", d + "/verif", "--seed", "1", "--scale", str(scale)], env, 900)
                    if rc != 0:
                        m = [x for x in o.splitlines() if x.strip()]
                        res, why = "killed", f"{p}@{scale} rc{rc}"
                        break
                if res != "SURVIVED":
                    break
        finally:
            open(path, "w").write(orig)
        with lock:
            with open(OUT, "a") as f:
                f.write(json.dumps(dict(file=n, line=l, kind=kind, old=old.strip(), new=new.strip(), res=res, why=why, props=props, t=round(time.time() - t0))) + "\n")

ts = []
for i in range(LANES):
    setup(i)
for i in range(LANES):
    t = threading.Thread(target=lane, args=(i,))
    t.start()
    ts.append(t)
for t in ts:
    t.join()
