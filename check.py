#!/usr/bin/env python3
"""check.py ID [--thorough] [--debug-args...]: build libc3 from /repo's working tree, run the explorer of one
property over it, write evidence/ID.json, print VIOLATION / KNOWN-FINDING lines."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("C3_REPO", "/repo")
CC = "gcc"
LIBFLAGS = ["-std=c99", "-O1", "-g1", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]
HFLAGS = ["-std=gnu11", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-Wno-format-truncation", "-Wno-discarded-qualifiers", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion"]
LIBS = ["-llapack", "-lblas", "-lm"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        print(" ".join(cmd)); print(r.stdout[-4000:]); print("ERROR: build failed"); sys.exit(2)
    return r.stdout


def incs():
    d = sorted({os.path.dirname(p) for p in glob.glob(f"{REPO}/c3/*/*.h")})
    return [f"-I{REPO}/c3"] + [f"-I{x}" for x in d] + [f"-I{REPO}/include"]


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build(pid):
    B = os.path.join(HERE, ".build"); os.makedirs(B, exist_ok=True)
    tdir = os.path.join(B, "tables-" + digest([f"{HERE}/tables/gentens.c"]))
    if not os.path.exists(tdir + "/ok"):
        os.makedirs(tdir, exist_ok=True)
        sh([CC, "-O2", f"{HERE}/tables/gentens.c", "-o", tdir + "/gen", "-lm"]); sh([tdir + "/gen", tdir])
        open(tdir + "/ok", "w").close()
    srcs = sorted(glob.glob(f"{REPO}/c3/*/*.c"))
    hdrs = sorted(glob.glob(f"{REPO}/c3/*/*.h") + glob.glob(f"{REPO}/c3/*.h") + glob.glob(f"{REPO}/include/*.h"))
    hd = digest(hdrs, " ".join(LIBFLAGS) + tdir)
    odir = os.path.join(B, "obj"); os.makedirs(odir, exist_ok=True)
    objs, todo = [], []
    for s in srcs:
        o = f"{odir}/{os.path.basename(s)[:-2]}-{digest([s], hd)}.o"; objs.append(o)
        if not os.path.exists(o): todo.append((s, o))
    def comp(so):
        tmp = f"{so[1]}.{os.getpid()}.tmp"
        sh([CC, *LIBFLAGS, *incs(), f"-I{tdir}", "-c", so[0], "-o", tmp]); os.replace(tmp, so[1])
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        list(ex.map(comp, sorted(todo, key=lambda x: -os.path.getsize(x[0]))))
    lib = f"{B}/libc3-{digest(objs)}.a" if False else f"{B}/libc3-{hashlib.sha256(' '.join(objs).encode()).hexdigest()[:20]}.a"
    if not os.path.exists(lib):
        tmp = f"{lib}.{os.getpid()}.tmp"
        sh(["ar", "rcs", tmp, *objs]); os.replace(tmp, lib)
    hs = [f"{HERE}/harness/{pid}.c"]
    deps = glob.glob(f"{HERE}/harness/*.h") + glob.glob(f"{HERE}/mc/*")
    m = re.match(r"/\* ldflags: (.*)", open(hs[0]).readline()); ld = m.group(1).split() if m else []
    exe = f"{B}/{pid}-{digest(hs + deps, lib + ' '.join(HFLAGS))}"
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        sh([CC, *HFLAGS, *incs(), f"-I{HERE}/mc", f"-I{HERE}/harness", f"{HERE}/mc/mc.c", *hs, "-o", tmp, *ld, lib, *LIBS])
        os.replace(tmp, exe)
    return exe


def known(pid):
    out = {}
    p = f"{HERE}/known_findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                k = json.loads(line)
                if k["property"] == pid and k["status"] == "known":
                    out[k["sig"]] = k["what"]
    return out


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or (os.environ.get("VERIF_TIER") == "thorough")
    extra = [a for a in sys.argv[2:] if a != "--thorough"]
    t0 = time.time()
    exe = build(pid)
    if "--build-only" in extra:
        return 0
    rep = f"{HERE}/replays"; os.makedirs(rep, exist_ok=True)
    for f in glob.glob(f"{rep}/{pid}-*.replay"): os.remove(f)
    out = f"{HERE}/.build/{pid}.{os.getpid()}.json"
    env = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:max_malloc_fill_size=65536:quarantine_size_mb=16:malloc_context_size=2", LC_ALL="C")
    env.setdefault("OMP_NUM_THREADS", "1"); env.setdefault("OPENBLAS_NUM_THREADS", "1")
    cmd = [exe, "--out", out, "--repdir", rep, "--workers", str(os.cpu_count() or 4)]
    if thorough: cmd += ["--thorough", "--budget", os.environ.get("MC_BUDGET", "7200")]
    else: cmd += ["--budget", os.environ.get("MC_BUDGET", "700")]
    r = subprocess.run(cmd + extra, env=env)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print(f"ERROR: explorer of {pid} ended with {r.returncode}"); return 2
    J = json.load(open(out)); os.remove(out)
    kn = known(pid); viol = 0; seen = set()
    for v in J["violations"]:
        if v["sig"] in kn:
            seen.add(v["sig"]); continue
        if v["confirmed"] < 0:
            print(f"note: unreproduced observation ignored: {v['sig']}: {v['msg'][:300]}"); continue
        viol += 1
        if viol <= 20:
            print(f"VIOLATION property={pid} replay={v['replay']}")
            print(f"  {v['sig']} ({v['count']} executions): {v['msg'][:600]}")
            print("  trace: " + v["trace"][:700].replace("\n", "\n    "))
    for s in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {kn[s]} [{s}]")
    meta = json.load(open(f"{HERE}/harness/meta.json")).get(pid, {})
    samples = [{"driver": d["name"], "trace": s} for d in J["drivers"] for s in d["samples"][:2]][:24]
    sites = {}
    for d in J["drivers"]:
        for k, (n, m) in d["sites"].items():
            sites[f"{d['name']}/{k}"] = {"comparisons": n, "max_error_over_tolerance": m}
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": J["states"], "transitions": J["transitions"],
            "traces_validated_against_impl": J["executions"],
            "evaluations": J["comparisons"], "pruned_infeasible": J["pruned"],
            "exhaustive": J["exhaustive"],
            "rule": "every choice sequence of every driver is executed on the real library; states are distinct canonical hashes of the observed results, transitions are library operations executed, each execution is compared step by step with the reference model",
            "drivers": [{k: d[k] for k in ("name", "executions", "pruned", "transitions", "states", "comparisons", "wall_s")} for d in J["drivers"]],
            "oracle_sites": sites, "bounds": meta.get("bounds", ""), "samples": samples,
        },
        "assumptions": meta.get("assumptions", []) + ["floating-point results are compared with stated tolerances", "function values outside the enumerated alphabets are not covered"],
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid}: {'VIOLATED' if viol else 'held'}: executions={J['executions']} states={J['states']} transitions={J['transitions']} comparisons={J['comparisons']} exhaustive={J['exhaustive']} wall={ev['wall_s']}s")
    if os.environ.get("MC_SITES"):
        for k, s in sorted(sites.items(), key=lambda x: -x[1]["max_error_over_tolerance"])[:25]: print("   ", k, s)
        for d in J["drivers"]: print("   ", d["name"], d["executions"], "pruned", d["pruned"], "states", d["states"], f"{d['wall_s']}s")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
