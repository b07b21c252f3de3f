#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's working tree.

usage: check.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [-v]

Compiles the harnesses and the real sources they name to LLVM bitcode, executes
them symbolically (build/symex), replays sampled path models and every
counterexample against a native (ASan) build of the same real sources, writes
evidence/<PROPERTY>.json.
Exit: 0 held, 1 confirmed violation, 2 the check could not decide.
"""
import sys, os, re, json, time, subprocess, hashlib, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO", "/repo")
CORE = REPO + "/src/sst/core"
CLANG = "/usr/bin/clang++-18"
INC = ["-I" + V + "/include", "-I" + V + "/models/config", "-I" + REPO + "/src", "-I/usr/include/python3.12"]
COMMON = ["-std=c++17", "-DHAVE_CONFIG_H", "-w", "-fno-access-control", "-ferror-limit=3", "-D__STDC_FORMAT_MACROS"]
BCF = ["-O1", "-fno-pic", "-fno-pie", "-emit-llvm", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-discard-value-names",
       "-include", V + "/models/noextern.h", "-D__NO_CTYPE", "-fno-builtin-memcmp", "-U_FORTIFY_SOURCE", "-DSYM_ENGINE"]
NATF = ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-DSYM_NATIVE"]
NCPU = 8


def parse_harness(path):
    h = {"file": path, "sources": [], "stubs": [], "cases": 1, "tcases": None, "reach": [], "defs": [], "maxtime": 150, "tmaxtime": 1500,
         "maxsteps": 20000000, "assume": [], "bounds": [], "threads": False, "races": False, "opt": None, "flags": [], "nonative": False, "samples": 6, "outside": [], "also": []}
    for l in open(path):
        m = re.match(r"//\s*@(\w+)\s*(.*)", l)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k in ("sources", "stubs", "reach", "defs", "flags", "also"):
            h[k] += v.split()
        elif k in ("assume", "bounds", "outside"):
            h[k].append(v)
        elif k in ("cases", "tcases", "maxtime", "tmaxtime", "maxsteps", "samples"):
            h[k] = int(v)
        elif k in ("threads", "nonative", "races"):
            h[k] = True
        elif k == "opt":
            h[k] = v
    return h


class Err(Exception):
    pass


def run(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("latin1")


def srcpath(s):
    for base in (CORE + "/", V + "/models/", REPO + "/"):
        if os.path.exists(base + s):
            return base + s
    raise Err("source not found: " + s)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    verbose = "-v" in sys.argv
    keep = "--keep" in sys.argv
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
        if a == "--only":
            only = sys.argv[i + 1]
    hs = [parse_harness(p) for p in sorted(glob.glob("%s/harness/*.cc" % V))]
    hs = [h for h in hs if os.path.basename(h["file"]).startswith(prop + "_") or prop in h["also"]]
    if only:
        hs = [h for h in hs if only in h["file"]]
    if not hs:
        print("no harness for", prop)
        sys.exit(2)
    if not os.path.exists(V + "/build/symex") or not os.path.exists(V + "/build/libmodel.bc"):
        rc, out = run(["bash", V + "/tools/setup.sh"])
        if rc:
            print(out)
            sys.exit(2)
    work = tempfile.mkdtemp(prefix="symchk_%s_" % prop)
    try:
        rc = check(prop, tier, seed, hs, work, verbose, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)
    sys.exit(rc)


def replay_file(path, case, tier, rec):
    with open(path, "w") as f:
        f.write("# %s: %s\n# at %s\nCASE %d\nTIER %d\n" % (rec["kind"], rec["msg"], rec["loc"], case, tier))
        for n, hx in rec["inputs"]:
            f.write("IN %s %s\n" % (n.replace(" ", "_"), hx))
        for s in rec["sched"]:
            f.write("SCHED %d\n" % s)


def replay(exe, path, fill=None, timeout=20):
    env = dict(os.environ)
    opts = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0:print_stacktrace=0" % (190 if fill is None else fill)
    env["ASAN_OPTIONS"] = opts
    rc, out = run([exe, path], timeout=timeout, env=env)
    return rc, out


def linkstub(cmd, exe):
    """link; symbols outside the encoded units become stubs returning 0 (only static registration reaches them)"""
    rc, txt = run(cmd + ["-Wl,--warn-unresolved-symbols,--no-demangle", "-Wl,-z,muldefs"])
    if rc:
        return rc, txt
    und = sorted(set(re.findall(r"undefined reference to `([^']+)'", txt)))
    if not und:
        return rc, txt
    a = [".text", "Lstub_ret0: xorl %eax,%eax", "xorl %edx,%edx", "ret"]
    d = [".data", ".balign 16", ".balign 16"]
    for u in und:
        if u.startswith("_ZTV") or u.startswith("_ZTT"):
            d += [".weak " + u, ".balign 16", u + ":", ".quad 0", ".quad 0"] + [".quad Lstub_ret0"] * 80
        elif u.startswith("_ZTI"):
            d += [".weak " + u, ".balign 16", u + ": .quad 0", ".quad Lnm" + u, ".zero 64", "Lnm" + u + ": .asciz \"" + u[4:] + "\""]
        elif (u.startswith("_ZN") and u.endswith("E")) or u.startswith("_ZGV"):
            d += [".weak " + u, ".balign 64", u + ": .zero 512"]
        else:
            a += [".weak " + u, u + ": jmp Lstub_ret0"]
    open(exe + ".s", "w").write("\n".join(a + d) + "\n.section .note.GNU-stack,\"\",@progbits\n")
    return run(cmd + [exe + ".s", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,muldefs"])


def load_known():
    kf = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) harness=(\S+) match=\"([^\"]*)\"\s*(.*)", l)
            if m:
                kf.append(m.groups())
    return kf


def check(prop, tier, seed, hs, work, verbose, t0):
    thorough = tier == "thorough"
    jobs = {}
    plans = []
    unity = {}
    for hi, h in enumerate(hs):
        bcs, objs = [], []
        srcs = [h["file"]] + [srcpath(s) for s in h["sources"]] + [V + "/models/" + s + ".cc" for s in h["stubs"] + ["core_stub"]]
        defs = ["-D" + d for d in h["defs"]] + h["flags"]
        # sources of /repo are compiled in a few groups (parsed once per group); a group that does not compile as one unit is compiled file by file
        core = [x for x in srcs if x.startswith(REPO)]
        ng = min(4, (len(core) + 2) // 3)
        if len(core) >= 3 and not h["threads"]:
            sz = sorted(core, key=lambda x: -os.path.getsize(x))
            groups = [sorted(sz[i::ng], key=core.index) for i in range(ng)]
            srcs = [x for x in srcs if x not in core]
            for gi, g in enumerate(groups):
                gf = "%s/grp%d_%d.cc" % (work, hi, gi)
                open(gf, "w").write("".join('#include "%s"\n' % x for x in g))
                unity[gf] = g
                srcs.append(gf)
        for s in srcs:
            key = hashlib.md5((s + " ".join(defs) + str(h["opt"])).encode()).hexdigest()[:12]
            bc = "%s/%s.bc" % (work, key)
            o = "%s/%s.o" % (work, key)
            bflags = list(BCF)
            if h["opt"]:
                bflags[0] = h["opt"]
            jobs[bc] = [CLANG] + COMMON + bflags + defs + INC + ["-c", s, "-o", bc]
            bcs.append(bc)
            if not h["nonative"] and not h["threads"]:
                jobs[o] = [CLANG] + COMMON + NATF + defs + INC + ["-c", s, "-o", o]
                objs.append(o)
        rt = "%s/replay%s.o" % (work, "t" if h["threads"] else "")
        if not h["nonative"]:
            if h["threads"]:
                jobs[rt] = [CLANG] + COMMON + ["-O1", "-g1", "-DSYM_THREADS"] + INC + ["-c", V + "/replay/replay.cc", "-o", rt]
                jobs[rt + "2.o"] = [CLANG] + COMMON + ["-O1", "-g1"] + INC + ["-c", V + "/replay/replay_threads.cc", "-o", rt + "2.o"]
            else:
                jobs[rt] = [CLANG] + COMMON + NATF + INC + ["-c", V + "/replay/replay.cc", "-o", rt]
        plans.append((h, bcs, objs, rt))
    ts = time.time()

    def comp(item):
        out, cmd = item
        rc, txt = run(cmd, timeout=400)
        src = cmd[cmd.index("-c") + 1]
        if rc and src in unity:
            parts = []
            for i, m in enumerate(unity[src]):
                c2 = list(cmd)
                c2[cmd.index("-c") + 1] = m
                parts.append("%s.%d" % (out, i))
                c2[-1] = parts[-1]
                rc, txt = run(c2, timeout=400)
                if rc:
                    return out, rc, txt
            rc, txt = run((["llvm-link-18", "-o", out] if out.endswith(".bc") else ["ld", "-r", "-o", out]) + parts)
        if rc == 0 and out.endswith(".o") and "/replay" not in out:
            # static constructors are run by the replay runtime, one by one and fault tolerant
            run(["llvm-objcopy-18", "--rename-section", ".init_array=sym_ctors,alloc,data", out])
        return out, rc, txt

    fails = []
    with ThreadPoolExecutor(NCPU) as ex:
        # bitcode first so that symbolic execution can start early
        items = sorted(jobs.items(), key=lambda kv: (not kv[0].endswith(".bc")))
        for out, rc, txt in ex.map(comp, items):
            if rc:
                fails.append(txt[-1500:])
    if fails:
        print("compile failed:\n" + fails[0])
        return 2
    t_comp = time.time() - ts
    runs = []
    for hi, (h, bcs, objs, rt) in enumerate(plans):
        out = "%s/h%d.bc" % (work, hi)
        if h["threads"]:
            lk, inst = "%s/lk%d.bc" % (work, hi), "%s/inst%d.bc" % (work, hi)
            rc, txt = run(["llvm-link-18", "-o", lk] + bcs)
            if rc == 0:
                rc, txt = run([V + "/build/instr", lk, inst] + (["--races"] if h["races"] else []))
            if rc:
                print("link failed:\n" + txt[-2000:])
                return 2
            bcs = [inst]
        rc, txt = run(["llvm-link-18", "-o", out] + bcs + ["--override=" + V + "/build/libmodel.bc"] if False else ["llvm-link-18", "-o", out] + bcs + [V + "/build/libmodel.bc"])
        if rc:
            print("link failed:\n" + txt[-2000:])
            return 2
        n = h["tcases"] if (thorough and h["tcases"]) else h["cases"]
        for c in range(n):
            runs.append((hi, c))
    ts = time.time()

    def sym(r):
        hi, c = r
        h = hs[hi]
        o = "%s/out_%d_%d.json" % (work, hi, c)
        mt = h["tmaxtime"] if thorough else h["maxtime"]
        cmd = [V + "/build/symex", "--case", str(c), "--tier", "1" if thorough else "0", "--out", o, "--max-time", str(mt), "--max-steps", str(h["maxsteps"]),
               "--seed", str(seed), "--samples", str(h["samples"]), "%s/h%d.bc" % (work, hi)]
        if verbose:
            cmd.insert(1, "-v")
        rc, txt = run(cmd, timeout=mt + 120)
        try:
            return r, json.load(open(o)), txt
        except Exception as e:
            return r, None, "rc=%s %s" % (rc, txt[-1500:])

    def natlink(hi):
        h, bcs, objs, rt = plans[hi]
        if h["nonative"]:
            return None
        exe = "%s/nat%d" % (work, hi)
        if h["threads"]:
            inst = "%s/inst%d.bc" % (work, hi)
            rc, txt = run([CLANG, "-O1", "-fsanitize=address", "-c", inst, "-o", inst + ".o"])
            if rc == 0:
                run(["llvm-objcopy-18", "--rename-section", ".init_array=sym_ctors,alloc,data", inst + ".o"])
            if rc == 0:
                rc, txt = linkstub([CLANG, "-fsanitize=address", "-no-pie", "-o", exe, inst + ".o", rt, rt + "2.o", "-lpthread", "-lz"], exe)
        else:
            rc, txt = linkstub([CLANG, "-fsanitize=address", "-no-pie", "-o", exe] + objs + [rt, "-lpthread", "-lz"], exe)
        if rc:
            raise Err("native link failed: " + txt[-2000:])
        return exe

    res = {}
    with ThreadPoolExecutor(NCPU) as ex:
        fx = [ex.submit(natlink, i) for i in range(len(plans))]
        for r, j, txt in ex.map(sym, runs):
            res[r] = (j, txt)
        try:
            exes = [f.result() for f in fx]
        except Err as e:
            print(e)
            return 2
    t_sym = time.time() - ts
    if verbose:
        for r, (j, txt) in res.items():
            print("---", hs[r[0]]["file"], "case", r[1])
            print("\n".join(l[:300] for l in dict.fromkeys(txt.split("\n")[-200:]) if l and "ProvidesParams<SST::Statistics::NullStatistic" not in l and not l.startswith("static constructor ")))
            if j:
                print({k: j[k] for k in ("paths", "killed", "forks", "instr", "asserts", "queries", "z3calls", "solver_s", "wall_s", "uninit", "reach", "inconclusive", "rss_mb", "cvc5calls")})
    # aggregate
    problems = []
    tot = {k: 0 for k in ("paths", "killed", "forks", "instr", "states", "asserts", "memchecks", "sched", "queries", "z3calls", "bitcalls", "crosschecks", "liacalls", "cvc5calls", "cachehits", "sat", "unsat", "unknown", "uninit")}
    solver_s = 0.0
    reach, bounds, funcs, ignored = {}, {}, {}, set()
    viols, samples = [], []
    for r, (j, txt) in res.items():
        if j is None:
            problems.append("engine failed on %s case %d: %s" % (os.path.basename(hs[r[0]]["file"]), r[1], txt[-800:]))
            continue
        for k in tot:
            tot[k] += j[k]
        solver_s += j["solver_s"]
        for k, v in j["reach"].items():
            reach.setdefault(r[0], {}).setdefault(k, 0)
            reach[r[0]][k] += v
        for k, v in j["bounds"].items():
            bounds[k] = max(v, bounds.get(k, 0))
        for f in j["functions"]:
            key = (f[0], f[1], f[2])
            funcs[key] = max(funcs.get(key, (0, 1)), (f[3], f[4]))
        ignored |= set(j["ignored"])
        for s in j["inconclusive"]:
            problems.append("%s case %d: %s" % (os.path.basename(hs[r[0]]["file"]), r[1], s))
        for v in j["violations"]:
            viols.append((r, v))
        for s in j["samples"]:
            samples.append((r, s))
        if j["paths"] == 0 and not j["violations"]:
            problems.append("%s case %d: no path completed (vacuous)" % (os.path.basename(hs[r[0]]["file"]), r[1]))
    for hi, h in enumerate(hs):
        for m in h["reach"]:
            if not reach.get(hi, {}).get(m):
                problems.append("%s: reachability witness '%s' not reached (vacuous)" % (os.path.basename(h["file"]), m))
    # replay sampled paths natively
    tnum = 1 if thorough else 0
    validated, mism = 0, []
    todo = []
    for k, (r, s) in enumerate(samples):
        if exes[r[0]] is None:
            continue
        p = "%s/s%d.txt" % (work, k)
        replay_file(p, r[1], tnum, s)
        todo.append((r, s, p))

    def doReplay(t):
        r, s, p = t
        return t, replay(exes[r[0]], p)

    with ThreadPoolExecutor(NCPU) as ex:
        for (r, s, p), (rc, out) in ex.map(doReplay, todo):
            log = re.findall(r"^LOG ([0-9a-f]+)$", out, re.M)
            if rc == 0 and log == s["log"]:
                validated += 1
            else:
                mism.append((r, s, rc, out[:300], log))
    # violations
    rdir = V + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    known = load_known()
    confirmed, unconf, knownhit = [], [], {}
    for k, (r, v) in enumerate(viols):
        hname = os.path.basename(hs[r[0]]["file"])
        p = "%s/%s_%s_c%d_%d.txt" % (rdir, prop, hname[:-3], r[1], k)
        replay_file(p, r[1], tnum, v)
        ok = False
        how = ""
        if exes[r[0]]:
            for fill in (None, 0, 255, 1, 165):
                rc, out = replay(exes[r[0]], p, fill, timeout=(8 if v["kind"] == "hang" else 25))
                if "START" not in out:
                    how = "replay did not start: " + out[-300:]
                    break
                if v["kind"] == "assert":
                    m = re.search(r"ASSERT-FAILED (.*)", out)
                    ok = rc == 10 and m is not None
                elif v["kind"] == "hang":
                    ok = rc == -999
                elif v["kind"] == "deadlock":
                    ok = "DEADLOCK" in out or rc == -999
                else:
                    ok = rc not in (0, 77, -999)
                if not ok and rc not in (0, 77):   # any failure of the real code on this input
                    ok = True
                how = "rc=%s %s" % (rc, out[-300:].replace("\n", " | "))
                if ok:
                    break
        kf = None
        for (kp, kh, km, kd) in known:
            if kp == prop and kh in hname and km and km in ("case %d: " % r[1] + v["msg"] + " @ " + v["loc"]):
                kf = (kp, kh, km, kd)
        if kf:
            knownhit.setdefault(kf, 0)
            knownhit[kf] += 1
            try: os.unlink(p)
            except OSError: pass
        elif ok:
            confirmed.append((r, v, p, how))
        else:
            unconf.append((r, v, p, how))
    # evidence
    nstates = tot["states"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": nstates, "transitions": tot["instr"],
              "traces_validated_against_impl": validated,
              "samples": [{"harness": os.path.basename(hs[r[0]]["file"]), "case": r[1], "inputs": s["inputs"][:40], "log": s["log"][:40]} for r, s in samples[:6]],
              "method": "symbolic execution of the LLVM IR of the real sources; every path decided with z3 (cvc5 fallback)",
              "paths_completed": tot["paths"], "paths_infeasible_by_assumption": tot["killed"], "forks": tot["forks"], "schedule_forks": tot["sched"],
              "instructions": tot["instr"], "assertions_discharged": tot["asserts"], "symbolic_pointer_checks": tot["memchecks"],
              "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
              "query_cache_hits": tot["cachehits"], "z3_calls": tot["z3calls"], "bitblast_sat_calls": tot["bitcalls"], "unsat_verdicts_confirmed_by_z3": tot["crosschecks"], "cvc5_calls": tot["cvc5calls"], "linear_integer_calls": tot["liacalls"], "solver_seconds": round(solver_s, 3),
              "bounds": bounds, "bounds_text": [b for h in hs for b in h["bounds"]], "outside": [b for h in hs for b in h["outside"]],
              "reach_witnesses": {os.path.basename(hs[i]["file"]): m for i, m in reach.items()},
              "functions_encoded": [{"function": k[0], "file": k[1].replace(REPO + "/", ""), "line": k[2], "instructions_covered": "%d/%d" % v} for k, v in sorted(funcs.items(), key=lambda x: (x[0][1], x[0][2]))],
              "models_used": sorted(ignored), "uninitialised_reads": tot["uninit"],
              "harness_runs": len(runs), "replay_mismatches": len(mism), "compile_s": round(t_comp, 1), "symex_wall_s": round(t_sym, 1),
              "inconclusive": problems[:20], "known_findings": ["%s" % (k[3]) for k in knownhit]},
          "assumptions": [a for h in hs for a in h["assume"]],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for kf, n in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[3]))
    print("%s %s: paths=%d killed=%d instr=%d asserts=%d queries=%d (unsat %d, unknown %d) z3=%d xc=%d solver=%.1fs funcs=%d validated=%d/%d compile=%.1fs symex=%.1fs" %
          (prop, tier, tot["paths"], tot["killed"], tot["instr"], tot["asserts"], tot["queries"], tot["unsat"], tot["unknown"], tot["z3calls"], tot["crosschecks"], solver_s, len(funcs), validated, len(todo), t_comp, t_sym))
    if confirmed:
        seen = set()
        for r, v, p, how in confirmed:
            if (v["msg"], r[0]) in seen and not verbose:
                continue
            seen.add((v["msg"], r[0]))
            print("  counterexample: %s: %s at %s  [%s]" % (v["kind"], v["msg"], v["loc"], how))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    bad = False
    for r, v, p, how in unconf:
        print("UNCONFIRMED %s: %s at %s replay=%s [%s] inputs=%s" % (v["kind"], v["msg"], v["loc"], p, how, v["inputs"][:30]))
        bad = True
    for m in mism[:5]:
        print("REPLAY-MISMATCH %s case %d rc=%s out=%s expected log %s got %s inputs %s" % (os.path.basename(hs[m[0][0]]["file"]), m[0][1], m[2], m[3].replace("\n", " | "), m[1]["log"], m[4], m[1]["inputs"]))
        bad = True
    # a part that could not be decided (budget, unsupported construct) limits what was explored;
    # a vacuous run or an engine failure is no answer at all
    for p in problems[:6]:
        print("INCONCLUSIVE", p[:400])
        if "--strict" in sys.argv or "vacuous" in p or "engine failed" in p:
            bad = True
    return 2 if bad else 0


if __name__ == "__main__":
    main()
