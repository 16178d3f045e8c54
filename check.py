#!/usr/bin/env python3
"""Decides one property: builds the instrumented real code + harness, runs the symbolic engine, replays, reports.

usage: check.py <ID> [--tier quick|thorough] [--keep]        (exit 0 held, 1 violated, 2 no verdict)
"""
import glob, hashlib, json, os, re, subprocess, sys, time, shutil, resource
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LFS_REPO", "/repo")
PV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
BUILD = os.environ.get("LFS_BUILD", os.path.join(V, "build"))
JOBS = int(os.environ.get("LFS_JOBS", str(min(8, os.cpu_count() or 4))))
DEFS = ("-DFMT_SHARED -DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL "
        "-DSPDLOG_SHARED_LIB -DBOOST_ENABLE_ASSERT_DEBUG_HANDLER").split()
CXX = ["clang++"]
CFLAGS = ("-std=c++20 -O1 -g0 -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-math-errno "
          "-ffunction-sections -fdata-sections -DEIGEN_DONT_VECTORIZE -DEIGEN_MAX_ALIGN_BYTES=0 -D_GLIBCXX_EXTERN_TEMPLATE=0 -w").split() + DEFS
INC = ["-I" + V + "/engine", "-I" + V + "/harness", "-I" + REPO + "/lib", "-I" + REPO + "/projects/dpg",
       "-I" + REPO + "/projects/ipdg_stokes", "-I" + REPO + "/projects", "-I" + REPO, "-I/usr/include/eigen3"]
INC += ["-I" + REPO + "/projects/ipdg_stokes/" + d for d in ("mesh", "post_processing", "assemble")]

# Translation units of the code under test.  Each unit is one compilation of several real source files.
UNITS = {
    "base": ["lib/lf/base/*.cc"],
    "geo1": ["lib/lf/geometry/*.cc"],          # everything in geometry not listed in geo2/geo3
    "geo2": ["lib/lf/geometry/tria_o2.cc", "lib/lf/geometry/segment_o2.cc"],
    "geo3": ["lib/lf/geometry/quad_o1.cc"],
    "geo4": ["lib/lf/geometry/quad_o2.cc"],
    "mesh": ["lib/lf/mesh/*.cc", "lib/lf/mesh/hybrid2d/*.cc"],
    "meshu": ["lib/lf/mesh/utils/*.cc"],
    "refpat": ["lib/lf/refinement/hybrid2d_refinement_pattern.cc"],
    "ref1": ["lib/lf/refinement/*.cc"],
    "ref2": ["lib/lf/refinement/mesh_hierarchy.cc"],
    "fe": ["lib/lf/fe/*.cc"],
    "asm": ["lib/lf/assemble/*.cc"],
    "uscalfe": ["lib/lf/uscalfe/*.cc"],
    "quad": ["lib/lf/quad/*.cc"],
    "quadt": ["lib/lf/quad/quad_rules_tria.cc"],
    "gmsh1": ["lib/lf/io/gmsh_reader.cc", "lib/lf/io/gmsh_file_v4.cc"],
    "gmsh2": ["lib/lf/io/gmsh_file_v2.cc"],
    "gmsh3": ["lib/lf/io/gmsh_file_v4_text.cc"],
    "gmsh4": ["lib/lf/io/gmsh_file_v4_binary.cc"],
    "vtk": ["lib/lf/io/vtk_writer.cc"],
    "dump": ["lib/lf/io/write_matlab.cc", "lib/lf/io/write_matplotlib.cc", "lib/lf/io/write_tikz.cc"],
    "refu": ["lib/lf/refinement/refutils.cc"],
    "dpg": ["projects/dpg/*.cc"],
    "fkpp": ["projects/fisher_kpp/strangsplitting.cc"],
    "ipdg": ["projects/ipdg_stokes/assemble/*.cc", "projects/ipdg_stokes/mesh/*.cc", "projects/ipdg_stokes/post_processing/*.cc"],
}
PLAIN = {"quad", "quadt"}      # compiled without the plugin unless a harness asks for "quad!" (concrete data only)
SPLIT = {"quad"}
GROUPS = {"geo": ["base", "geo1", "geo2", "geo3", "geo4"], "core": ["base", "geo1", "geo2", "geo3", "geo4", "mesh", "meshu"],
          "refine": ["refpat", "ref1", "ref2"], "fem": ["asm", "fe", "uscalfe", "quad", "quadt"], "gmsh": ["gmsh1", "gmsh2", "gmsh3", "gmsh4"]}
PRE = {"vtk": "vtk_pre.h", "dump": "dump_pre.h", "refu": "dump_pre.h"}     # harness header placed before the sources of a unit
EXCLUDE = {"lib/lf/base/lf_assert.cc", "lib/lf/base/lehrfem_info.cc", "lib/lf/base/timer.cc"}

t_start = time.time()
def log(*a): print("[%6.1fs]" % (time.time() - t_start), *a, file=sys.stderr, flush=True)

def unit_files(u):
    fs = []
    own = set(x for k, v in UNITS.items() if k != u for x in v if "*" not in x)
    for pat in UNITS[u]:
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            r = os.path.relpath(f, REPO)
            if r in EXCLUDE or ("*" in pat and r in own): continue
            if u == "dpg" and "int main" in open(f).read(): continue
            fs.append(f)
    return fs

def sha(p):
    try:
        with open(p, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
    except OSError: return "-"
_sha = {}
def csha(p):
    if p not in _sha: _sha[p] = sha(p)
    return _sha[p]

class BuildError(Exception): pass
timings = {}
def compile_one(src, obj, flags, depkey):
    """content-addressed by the dependency list of the previous compilation"""
    meta = obj + ".json"
    key = hashlib.sha256(("\0".join(flags) + depkey + csha(src)).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["key"] == key and all(csha(p) == h for p, h in m["deps"].items()): return None
        except Exception: pass
    t = time.time()
    dep = obj + ".d"
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run(CXX + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    timings[os.path.basename(obj)] = time.time() - t
    if r.returncode: return r.stderr[-4000:]
    os.replace(tmp, obj)
    deps = {}
    for p in re.sub(r"\\\n", " ", open(dep).read()).split(":", 1)[1].split():
        p = os.path.realpath(p)
        if p.startswith(os.path.realpath(REPO)) or p.startswith(os.path.realpath(V)): deps[p] = csha(p)
    json.dump({"key": key, "deps": deps}, open(meta, "w"))
    return None

def localize(obj):
    """makes the inline functions of an uninstrumented object local to it, so that neither copy of a shared one replaces the other"""
    out = obj[:-2] + ".loc.o"
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(obj): return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["ld", "-r", "--force-group-allocation", obj, "-o", tmp], capture_output=True, text=True)
    if r.returncode: raise BuildError("ld -r: " + r.stderr[-2000:])
    weak = [l.split()[-1] for l in subprocess.run(["nm", tmp], capture_output=True, text=True).stdout.split("\n") if re.search(r" W ", l) and not l.startswith(" " * 16)]
    with open(tmp + ".sym", "w") as f: f.write("\n".join(weak) + "\n")
    r = subprocess.run(["objcopy", "--localize-symbols=" + tmp + ".sym", tmp], capture_output=True, text=True)
    os.remove(tmp + ".sym")
    if r.returncode: raise BuildError("objcopy: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out

def build_plugin():
    so = os.path.join(BUILD, "liblfsym.so")
    st = so + ".sha"
    h = csha(os.path.join(V, "engine/pass.cc"))
    if os.path.exists(so) and os.path.exists(st) and open(st).read() == h: return so
    inc = subprocess.run(["llvm-config-18", "--includedir"], capture_output=True, text=True)
    incd = inc.stdout.strip() if inc.returncode == 0 else "/usr/lib/llvm-18/include"
    tmp = so + ".tmp%d" % os.getpid()
    r = subprocess.run(["clang++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-fno-exceptions", "-w", "-D_GNU_SOURCE",
                        "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + incd,
                        os.path.join(V, "engine/pass.cc"), "-o", tmp], capture_output=True, text=True)
    if r.returncode: raise BuildError("plugin: " + r.stderr[-3000:])
    os.replace(tmp, so)
    open(st, "w").write(h)
    return so

def build(pid, extra_units=()):
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
    hsrc = os.path.join(V, "harness", pid + ".cc")
    text = open(hsrc).read()
    units, flags_h, parts = [], [], []
    for m in re.finditer(r"^// units:(.*)$", text, re.M):
        for u in m.group(1).split():
            units += GROUPS.get(u, [u])
    for m in re.finditer(r"^// also:(.*)$", text, re.M): parts += [os.path.join(V, "harness", x) for x in m.group(1).split()]
    for m in re.finditer(r"^// flags:(.*)$", text, re.M): flags_h += m.group(1).split()
    units = list(dict.fromkeys(units))
    ex = ThreadPoolExecutor(max_workers=JOBS)
    # plain objects do not need the plugin
    objs, futs = [], []
    def sub(src, name, flags, depkey="", fallback=None):
        obj = os.path.join(BUILD, "o", name + ".o")
        objs.append(obj)
        futs.append((name, obj, ex.submit(compile_one, src, obj, flags, depkey), fallback))
    rtflags = ["-std=c++20", "-O2", "-w", "-I" + PV + "/include", "-I" + V + "/engine"]
    sub(os.path.join(V, "engine/rt.cc"), "rt", rtflags)
    sub(os.path.join(V, "engine/stubs.cc"), "stubs", ["-std=c++20", "-O1", "-w", "-I" + V + "/engine"])
    key = csha(os.path.join(V, "engine/pass.cc"))
    plain = CFLAGS + ["-include", V + "/engine/pre.h"] + INC
    fallbacks = []
    def unit(u, instr, pluginflags):
        name = u if instr else u + "_plain"
        fs = unit_files(u)
        if not fs: raise BuildError("no source files for unit " + u)
        if u in SPLIT:   # known not to compile as one unit
            for x in fs: sub(x, "file_" + name + "_" + os.path.basename(x), pluginflags if instr else plain, key if instr else "")
            return
        src = os.path.join(BUILD, "o", "unit_" + name + ".cc")
        body = ('#include "%s"\n' % PRE[u] if u in PRE else "") + "".join('#include "%s"\n' % f for f in fs)
        if not os.path.exists(src) or open(src).read() != body: open(src, "w").write(body); _sha.pop(src, None)
        sub(src, "unit_" + name, (pluginflags if instr else plain), body + (key if instr else ""), (fs, (pluginflags if instr else plain), key if instr else ""))
    forced = set(u[:-1] for u in units if u.endswith("!"))
    units = [u.rstrip("!") for u in units]
    units = list(dict.fromkeys(units))
    for u in units:
        if u in PLAIN and u not in forced: unit(u, False, None)
    so = build_plugin()
    pf = plain + ["-fpass-plugin=" + so]
    pfk = pf
    def unit_i(u): unit(u, True, pfk)
    order = ["geo3", "ref2", "geo4", "gmsh4", "gmsh3", "vtk", "gmsh2", "mesh"]
    subh = [(hsrc, "h_" + pid)] + [(p, "h_" + os.path.basename(p)[:-3]) for p in parts]
    for s, n in subh: sub(s, n, pfk + flags_h, key)
    for u in sorted(units, key=lambda u: order.index(u) if u in order else 99):
        if u in PLAIN and u not in forced: continue
        unit_i(u)
    errs = []
    for name, obj, f, fb in futs:
        e = f.result()
        if e is None: continue
        if fb:  # the combined unit does not compile: compile its files one by one
            log("unit", name, "does not compile as one unit; compiling its files separately")
            objs.remove(obj)
            fs, fl, k = fb
            sub2 = []
            for x in fs:
                o = os.path.join(BUILD, "o", "file_" + name + "_" + os.path.basename(x) + ".o")
                objs.append(o)
                sub2.append((x, ex.submit(compile_one, x, o, fl, k)))
            for x, g in sub2:
                e2 = g.result()
                if e2: errs.append(x + ":\n" + e2)
        else: errs.append(name + ":\n" + e)
    ex.shutdown()
    if errs: raise BuildError("\n".join(errs))
    exe = os.path.join(BUILD, "h_" + pid)
    ld = "clang++"
    isplain = lambda o: "_plain" in os.path.basename(o) or os.path.basename(o) in ("rt.o", "stubs.o")
    objs = [localize(o) if isplain(o) else o for o in objs]
    cmd = [ld] + (["-fuse-ld=lld", "-Wl,--gc-sections"] if shutil.which("ld.lld") else []) + objs + ["-o", exe, "-Wl,--version-script=" + V + "/engine/exports.map", "-L" + PV + "/lib", "-l:libz3.so.5.3", "-Wl,-rpath," + PV + "/lib", "-lgmpxx", "-lgmp", "-lspdlog", "-lfmt", "-ldl"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError("link: " + r.stderr[-6000:])
    return exe, units

def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return r.stdout.split("\n") if r.returncode == 0 else names

def replay(exe, path, timeout=120):
    try:
        r = subprocess.run([exe, "--replay", path], capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired: return "TIMEOUT", ""
    last = [l for l in r.stdout.split("\n") if l.startswith("REPLAY-")]
    if not last: return "CRASH", r.stdout[-300:] + r.stderr[-300:]
    return last[-1].split()[0][7:], r.stdout.strip()[-600:]

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    only = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--case": only = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        exe, units = build(pid)
    except BuildError as e:
        print("BUILD ERROR\n" + str(e)); sys.exit(2)
    t_build = time.time() - t_start
    log("built", pid, "in %.1fs" % t_build, {k: round(v, 1) for k, v in sorted(timings.items(), key=lambda x: -x[1])[:6]})
    out = os.path.join(BUILD, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    js = os.path.join(out, "result.json")
    budget = 520 if tier == "quick" else 3000
    cmd = [exe, "--tier", tier, "--out", out, "--json", js, "--budget", str(budget), "--procs", str(JOBS), "--seed", str(seed)]
    if only: cmd += ["--case", only]
    with open(os.path.join(out, "log"), "w") as lf:
        try: rc = subprocess.run(cmd, stderr=lf, stdout=lf, timeout=budget + 120, cwd=out).returncode
        except subprocess.TimeoutExpired: rc = 99
    logt = open(os.path.join(out, "log"), errors="replace").read()
    sys.stderr.write(logt[-3000:])
    if rc not in (0, 1, 2) or not os.path.exists(js):
        print("ENGINE ERROR rc=%s" % rc); sys.exit(2)
    R = json.load(open(js))
    log("engine finished")
    # known findings of this property
    known = []
    kf = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known": known.append(d)
    viol, unconf, knownhit = [], [], {}
    rpdir = os.path.join(out, "replay")
    os.makedirs(rpdir, exist_ok=True)
    for p in sorted(glob.glob(os.path.join(out, "viol_*.txt"))):
        st, txt = replay(exe, p)
        what = re.search(r"^what (.*)$", open(p).read(), re.M).group(1)
        dst = os.path.join(rpdir, os.path.basename(p))
        shutil.copy(p, dst)
        with open(dst, "a") as f: f.write("# replay: %s --replay %s\n# outcome: %s\n" % (exe, dst, txt.replace("\n", " | ")))
        if st in ("FAIL", "CRASH"):
            hit = [d for d in known if re.search(d["match"], what + " " + os.path.basename(p))]
            if hit: knownhit[hit[0]["id"]] = hit[0]
            else: viol.append((what, dst, txt))
        else: unconf.append((what, dst, st, txt))
    wit, witok, samples = 0, 0, []
    bad = []
    for p in sorted(glob.glob(os.path.join(out, "wit_*.txt"))):
        wit += 1
        st, txt = replay(exe, p)
        if st == "PASS": witok += 1
        elif st in ("FAIL", "CRASH"): bad.append((p, txt))
        if len(samples) < 4:
            samples.append({"case": os.path.basename(p)[4:-4], "inputs": [l[3:].strip() for l in open(p).read().split("\n") if l.startswith("in ")][:60], "replay": txt[-160:]})
    S = lambda k: sum(c[k] for c in R["cases"])
    problems = []
    for c in R["cases"]:
        nm = c["name"]
        for k, t in (("unsup", "unsupported operation"), ("undecided", "undecided query"), ("incomplete", "budget exhausted"), ("crashed", "engine process crashed")):
            if c[k]: problems.append("%s: %s (%d)" % (nm, t, c[k]))
        if not viol and not c["violations"]:
            if c["paths"] == 0: problems.append("%s: no completed path (vacuous)" % nm)
            elif c["assertsBV"] + c["assertsReal"] == 0: problems.append("%s: no assertion reached (vacuous)" % nm)
    fns = sorted(set(demangle(R["functions"])))
    fns = [f for f in fns if re.search(r"lf::|projects::", f)]
    z3v = "z3 5.3 (libz3.so.5.3)"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("branches") + S("concretised"), "traces_validated_against_impl": witok,
            "samples": samples or [{"note": "no witness recorded"}],
            "exhaustive": not problems and not unconf,
            "cases": [{k: c[k] for k in ("name", "paths", "killed", "forks", "branches", "concretised", "assertsBV", "assertsReal", "symReals", "symInts", "obIdentity", "obConst", "obLRA", "obNRA", "obInterval", "icp", "qBV", "qLRA", "qNRA", "maxDepth", "measureZero")} for c in R["cases"]],
            "queries": {"bitvector": S("qBV"), "linear_real": S("qLRA"), "nonlinear_real": S("qNRA"),
                        "polynomial_identities_by_normal_form": S("obIdentity"), "constant": S("obConst"),
                        "obligations_by_LRA_or_ICP": S("obLRA"), "obligations_by_interval_bound": S("obInterval"), "interval_pruned_signs": S("icp"), "unknown": S("unknown")},
            "assertions": {"integer": S("assertsBV"), "real": S("assertsReal")},
            "solver_time_s": round((S("tBV") + S("tLRA") + S("tNRA")) / 1e6, 3), "solver": z3v,
            "functions_encoded": len(fns), "functions": fns[:400],
            "source_units": {u: [os.path.relpath(f, REPO) for f in unit_files(u)] for u in units},
            "bounds": re.findall(r"^// bound: (.*)$", open(os.path.join(V, "harness", pid + ".cc")).read(), re.M),
            "outside": re.findall(r"^// outside: (.*)$", open(os.path.join(V, "harness", pid + ".cc")).read(), re.M),
            "build_s": round(t_build, 1), "engine_s": R["wall_s"], "notes": R["notes"], "witnesses": wit,
            "problems": problems, "unconfirmed": [w for w, *_ in unconf], "known_findings": sorted(knownhit),
        },
        "assumptions": ["double arithmetic is interpreted over the reals (rounding is outside the claim; tolerances are stated in the harness)",
                        "equality tests between distinct real expressions are taken as false (measure-zero sets excluded)"] +
                       re.findall(r"^// assume: (.*)$", open(os.path.join(V, "harness", pid + ".cc")).read(), re.M),
        "wall_s": round(time.time() - t_start, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    log("paths=%d asserts=%d witnesses=%d/%d" % (S("paths"), S("assertsBV") + S("assertsReal"), witok, wit))
    for d in knownhit.values(): print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
    if viol:
        for what, dst, txt in viol[:3]:
            print("VIOLATION property=%s replay=%s" % (pid, dst))
            print("  " + what[:300])
        sys.exit(1)
    if bad:
        # a path on which every assertion was discharged over the reals fails in machine arithmetic
        p, txt = bad[0]
        dst = os.path.join(rpdir, os.path.basename(p)); shutil.copy(p, dst)
        print("VIOLATION property=%s replay=%s" % (pid, dst)); print("  concrete run of a solver-provided input fails: " + txt[:300])
        sys.exit(1)
    for w, dst, st, txt in unconf: print("UNCONFIRMED (%s) %s %s" % (st, w[:200], dst))
    for p in problems: print("PROBLEM " + p)
    # Without a completed, asserting path in every case there is no answer.  Queries the solver left open are reported in
    # the evidence (exhaustive: false); the verdict then covers the decided paths only.
    if any("vacuous" in p or "crashed" in p for p in problems): sys.exit(2)
    if problems or unconf: print("INCOMPLETE property=%s: some paths were not decided, see evidence" % pid)
    print("OK property=%s paths=%d assertions=%d" % (pid, S("paths"), S("assertsBV") + S("assertsReal")))
    sys.exit(0)

if __name__ == "__main__": main()
