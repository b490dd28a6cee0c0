#!/usr/bin/env python3
"""mutate.py COVDIR OUT N SEED [FILE...]: sensitivity sweep. Makes N small random edits of covered library lines, runs the
checks whose executions reach the edited line (COVDIR/Cnn/*.gcov) until one objects, and lists the edits none objects to.
Works on copies of single source files in a scratch directory; /repo is only read."""
import concurrent.futures as cf, glob, os, random, re, subprocess, sys, tempfile, shutil, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check as C
COST = dict(C01=100, C05=71, C06=80, C11=55, C10=18, C09=8, C18=5, C20=26, C02=20, C03=25, C04=15, C07=20, C08=15, C12=7, C13=5, C14=3, C15=10, C16=15, C17=14, C19=10, C21=10)
HOME = {"ft": "C02 C03 C04 C20 C01 C05 C06 C10 C09", "qmarray": "C20 C03 C04 C05 C01 C06", "quasimatrix": "C20", "linelm": "C08 C07 C10 C09 C03", "constelm": "C08 C07 C10 C09", "kernels": "C08 C07 C10 C09", "regress": "C11 C10",
        "parameterization": "C10 C11", "optimization": "C12", "cross": "C16 C06", "functions": "C08 C07 C10 C20 C09 C03"}

def muts(line):
    out = []
    code = re.sub(r'"[^"]*"', lambda m: "\x01" * len(m.group()), line)
    if re.match(r"\s*(//|/\*|\*|#)", code) or "printf" in code or "assert" in code or "exit(" in code: return out
    def sub(pat, rep):
        for m in re.finditer(pat, code):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            new = line[:m.start()] + r + line[m.end():]
            if new != line: out.append(new)
    sub(r"(?<![<\-])<(?![<=])", "<="); sub(r"<=", "<"); sub(r"(?<![>\-])>(?![>=])", ">="); sub(r">=", ">"); sub(r"==", "!="); sub(r"!=", "==")
    sub(r"(?<=[\w\)\]] )\+(?= )|(?<=[\w\)\]])\+(?=[\w\(])", "-"); sub(r"(?<=[\w\)\]] )-(?= )|(?<=[\w\)\]])-(?=[\w\(])", "+"); sub(r"\+=", "="); sub(r"-=", "+="); sub(r"\*=", "=");
    sub(r"(?<=[\w\)\]] )\*(?= )|(?<=[\w\)\]])\*(?=[\w\(])", "+"); sub(r" / ", " * "); sub(r"&&", "||"); sub(r"\|\|", "&&")
    sub(r"(?<![\w.])0(?![\w.])", "1"); sub(r"(?<![\w.])1(?![\w.])", "0"); sub(r"(?<![\w.])1(?![\w.])", "2"); sub(r"(?<![\w.])2(?![\w.])", "1")
    sub(r"(?<![\w.])2\.0(?!\d)", "1.0"); sub(r"(?<![\w.])0\.5(?!\d)", "1.0"); sub(r"(?<![\w.])1\.0(?!\d)", "2.0"); sub(r"(?<![\w.])0\.0(?!\d)", "1.0")
    for a, b in (("nrows", "ncols"), ("lb", "ub"), ("r1", "r2"), ("ii", "jj"), ("jj", "kk"), ("incx", "incy"), ("ldx", "ldy"), ("f", "g"), ("a", "b"), ("x", "y")):
        sub(r"\b%s\b" % a, b); sub(r"\b%s\b" % b, a)
    if re.match(r"\s*[\w\->\[\]\*\.\(\)\+ ]+(=|\+=|\*=|-=)[^=].*;\s*$", code) and not re.match(r"\s*(const |struct |double |size_t |int |char |enum |unsigned |for|if|return)", code): out.append(re.match(r"\s*", line).group() + ";\n")
    if re.match(r"\s*(memmove|memcpy|cblas_\w+|\w+_axpy|\w+_free|free)\(.*;\s*$", code): out.append(re.match(r"\s*", line).group() + ";\n")
    if re.match(r"\s*(break|continue);", code): out.append(re.match(r"\s*", line).group() + ";\n")
    return out

def main():
    cov, outf, N, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); only = sys.argv[5:]
    S = tempfile.mkdtemp(prefix="mut."); lines = {}
    for g in glob.glob(f"{cov}/C*/*.c.gcov"):
        pid = g.split("/")[-2]; f = os.path.basename(g)[:-7]
        for l in open(g, errors="replace"):
            p = l.split(":", 2)
            if len(p) == 3 and re.match(r"\d", p[0].strip()): lines.setdefault((f, int(p[1])), set()).add(pid)
    src = {os.path.basename(s)[:-2]: s for s in glob.glob(f"{C.REPO}/c3/*/*.c")}
    txt = {f: open(s).read().split("\n") for f, s in src.items()}
    cand = []
    for (f, n), ps in sorted(lines.items()):
        if only and f not in only: continue
        if f.startswith("legquad") or f not in src: continue
        if not only and f in ("polynomials", "piecewisepoly", "fourier", "hpoly"): continue
        for m in muts(txt[f][n - 1] + "\n"): cand.append((f, n, m.rstrip("\n"), sorted(ps)))
    random.seed(seed); random.shuffle(cand); cand = cand[:N]
    pids = sorted({p for c in cand for p in c[3]})
    for p in pids: C.build(p)
    B = os.path.join(C.HERE, ".build"); lib = max(glob.glob(B + "/libc3-*.a"), key=os.path.getmtime); shutil.copy(lib, S + "/libc3.a")
    tdir = glob.glob(B + "/tables-*")[0]
    C.sh([C.CC, *C.HFLAGS, f"-I{C.HERE}/mc", "-c", f"{C.HERE}/mc/mc.c", "-o", S + "/mc.o"]); ld = {}
    for p in pids:
        h = f"{C.HERE}/harness/{p}.c"; m = re.match(r"/\* ldflags: (.*)", open(h).readline()); ld[p] = m.group(1).split() if m else []
        C.sh([C.CC, *C.HFLAGS, *C.incs(), f"-I{C.HERE}/mc", f"-I{C.HERE}/harness", "-c", h, "-o", f"{S}/{p}.o"])
    env = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:max_malloc_fill_size=65536:quarantine_size_mb=16:malloc_context_size=2", LC_ALL="C", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=S)
    def one(ic):
        i, (f, n, m, ps) = ic; d = f"{S}/m{i}"; os.makedirs(d); t = list(txt[f]); old = t[n - 1]; t[n - 1] = m
        open(f"{d}/{f}.c", "w").write("\n".join(t)); res = {"file": f, "line": n, "old": old.strip(), "new": m.strip(), "checks": ps}
        r = subprocess.run([C.CC, *C.LIBFLAGS, *C.incs(), f"-I{os.path.dirname(src[f])}", f"-I{tdir}", "-c", f"{d}/{f}.c", "-o", f"{d}/m.o"], capture_output=True)
        if r.returncode: res["verdict"] = "nocompile"
        else:
            home = HOME.get(f, "").split(); order = [p for p in home if p in ps] + sorted([p for p in ps if p not in home], key=lambda p: COST[p]); t0 = time.time(); res["verdict"] = "SURVIVED"; ran = []
            for p in order:
                if ran and time.time() - t0 > 400: break
                r = subprocess.run([C.CC, "-fsanitize=address", f"{S}/mc.o", f"{S}/{p}.o", f"{d}/m.o", "-o", f"{d}/x", *ld[p], f"{S}/libc3.a", *C.LIBS], capture_output=True, text=True)
                if r.returncode: res["verdict"] = "nolink"; res["msg"] = r.stderr[-300:]; break
                try: r = subprocess.run([f"{d}/x", "--first", "--hang", "10", "--out", f"{d}/o", "--repdir", d, "--workers", "2", "--budget", "500"], env=env, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired: res["verdict"] = "timeout " + p; break
                ran.append(p)
                if r.returncode == 1: res["verdict"] = "killed " + p; res["msg"] = r.stdout[:200]; break
                if r.returncode: res["verdict"] = f"error {p} {r.returncode}"; break
            res["ran"] = ran; res["t"] = round(time.time() - t0)
        shutil.rmtree(d, ignore_errors=True)
        with open(outf, "a") as o: o.write(json.dumps(res) + "\n")
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "4"))) as ex: list(ex.map(one, enumerate(cand)))
    shutil.rmtree(S, ignore_errors=True)

main()
