"""check.py <property> : build the contracts of a property from /repo's current tree, generate and discharge every
obligation, replay counterexamples natively, write evidence/<property>.json."""
import sys, os, json, time, re, subprocess, tempfile, shutil, hashlib, traceback, glob, signal
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "engine"))
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/lib/llvm-18/bin/opt"
FLAGS = ("-std=c++14 -DUSE_EIGEN -DSWE_SUPPORT -DRKDG_SUPPORT -DEHDG_SUPPORT -DIHDG_SUPPORT -DGN_SUPPORT -I%s/include -I%s/source -I/usr/include/eigen3 "
         "-DEIGEN_DONT_VECTORIZE -DNDEBUG -DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=1000000 -include stdexcept "
         "-ffp-contract=off -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-math-errno -Wno-everything" % (ROOT, REPO)).split()
PASSES = "cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce"


def log(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build_ir(cpp, work, extra):
    raw, o, js = (os.path.join(work, "%s.%s" % (os.path.basename(cpp), s)) for s in ("raw.ll", "o.ll", "json"))
    r = run([CLANG] + FLAGS + extra + ["-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", cpp, "-o", raw])
    if r.returncode:
        return None, "compile: " + r.stderr[-3000:]
    with open(raw) as f:
        roots = re.findall(r"^define [^@]*@(vc_contract_\w+|vc_thorough_\w+)\(", f.read(), re.M)
    r = run([OPT, "-internalize-public-api-list=" + ",".join(roots or ["none"]), "-passes=internalize,globaldce," + PASSES, "-S", raw, "-o", o])
    if r.returncode:
        return None, "opt: " + r.stderr[-2000:]
    with open(js, "w") as f:
        r = subprocess.run([os.path.join(ROOT, ".build", "irdump"), o], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return None, "irdump: " + r.stderr[-2000:]
    with open(js) as f:
        mod = json.load(f)
    return mod, raw


def contract_blocks(txt):
    """(name, first line, last line) of every CONTRACT in the file"""
    ls = txt.split("\n")
    st = [(i + 1, re.match(r"CONTRACT(?:_THOROUGH)?\((\w+)\)", l)) for i, l in enumerate(ls)]
    st = [(i, m.group(1)) for i, m in st if m]
    out = []
    for i, n in st:
        j = i
        while j <= len(ls) and not ls[j - 1].startswith("}") and not (j == i and ls[j - 1].rstrip().endswith("}")):
            j += 1
        out.append((n, i, j))
    return out


def functions_under_contract(raw):
    """functions of the repository reachable from the contracts (before inlining)"""
    calls = {}
    cur = None
    with open(raw) as f:
        for l in f:
            if l.startswith("define "):
                m = re.search(r"@([\w.$]+|\"[^\"]+\")\(", l)
                cur = m.group(1) if m else None
                calls[cur] = set()
            elif cur and "@" in l and ("call " in l or "invoke " in l):
                for m in re.finditer(r"@([\w.$]+)", l):
                    calls[cur].add(m.group(1))
    seen = set()
    st = [c for c in calls if c and (c.startswith("vc_contract_") or c.startswith("vc_thorough_"))]
    while st:
        x = st.pop()
        if x in seen or x not in calls:
            continue
        seen.add(x)
        st.extend(calls[x])
    r = run(["c++filt"] + sorted(seen)) if seen else None
    out = set()
    for l in (r.stdout.splitlines() if r else []):
        s = re.sub(r"^(?:[\w:<>*&, ]+ )?", "", l) if False else l
        m = re.search(r"\b((?:SWE|GN|Basis|Integration|Shape|Geometry|Master|Utilities|Communication)::[\w:~]+)", l.split("(")[0])
        first = re.split(r"[(<]", l)[0].split(" ")[-1]
        if re.match(r"^(SWE|GN|Basis|Integration|Shape|Geometry|Master|Utilities)::", first) or (m and not first.startswith(("std::", "Eigen::", "__gnu", "void std", "Vc"))):
            nm = m.group(1) if m and not re.match(r"^(SWE|GN|Basis|Integration|Shape|Geometry|Master|Utilities)::", first) else first
            out.add(nm)
        elif re.match(r"^(MeshMetaData|AdcircFormat|ESSPRKStepper|ImplicitStepper|SecondStrangStepper|Stepper|Writer|InputParameters|ProblemInput|OMPICommunicator|DBDataExchanger|inverse|determinant|simple_mesh_generator|MeshGenerator)", first):
            out.add(first)
    return sorted(out)


def job(args):
    mod, fn, opts, q = args
    import vcexec as X, prove as P
    t = time.time()
    res = {"fn": fn, "opts": {k: v for k, v in opts.items() if k != "x"}, "status": "ok", "results": {}, "failures": [], "notes": [], "ext": []}
    M = None
    try:
        M = X.Machine(mod, opts)
        M.auto = {}
        M.run_contract(fn, opts.get("maxpaths", 4000))
    except X.Unsupported as e:
        res["status"] = "unsupported"
        res["why"] = str(e)
        if os.environ.get("VC_TRACE"):
            traceback.print_exc()
    except RecursionError:
        res["status"] = "unsupported"
        res["why"] = "recursion"
    except MemoryError:
        res["status"] = "unsupported"
        res["why"] = "memory"
    except Exception as e:
        res["status"] = "unsupported"
        res["why"] = "engine: " + repr(e) + " " + traceback.format_exc()[-600:]
    if M is not None:
        c = {}
        names = {}
        for n, h in M.results:
            c[h] = c.get(h, 0) + 1
            names[n] = names.get(n, 0) + 1
        res["results"] = c
        res["clauses"] = names
        res["failures"] = M.failures
        res["auto"] = dict(M.auto)
        res["paths"] = M.npaths
        res["complete"] = getattr(M, "ncomplete", 0)
        res["symloops"] = M.symloops
        res["notes"] = sorted(M.notes)
        res["ext"] = sorted(M.ext_used)
        res["inputs"] = {k: list(v) for k, v in M.inputs.items()}
        res["time"] = P.TIME
    res["wall"] = time.time() - t
    q.put(res)


def spawn(mod, fn, opts):
    q = mp.Queue()
    p = mp.Process(target=job, args=((mod, fn, opts, q),))
    p.start()
    return [p, q, time.time(), fn, opts, mod]


def again(res):
    if res["status"] == "unsupported":
        return res.get("why", "").startswith("worker died")
    return any(f.get("status") == "undecided" for f in res["failures"]) and not any(f.get("status") == "refuted" for f in res["failures"])


def run_jobs(jobs, par, deadline):
    """jobs: [(mod, fn, opts)] -> results; a job that exceeds its time is 'unsupported'"""
    out = []
    pend = list(jobs)
    act = []
    retried = set()
    while pend or act:
        while pend and len(act) < par:
            act.append(spawn(*pend.pop(0)))
        time.sleep(0.01)
        for a in list(act):
            p, q, t0, fn, opts, mod = a
            res = None
            if not q.empty():
                res = q.get()
                p.join(5)
            elif not p.is_alive():
                p.join()
                time.sleep(0.05)
                res = q.get() if not q.empty() else {"fn": fn, "opts": opts, "status": "unsupported", "why": "worker died (%s)" % p.exitcode, "failures": [], "results": {}}
            elif time.time() - t0 > opts.get("hard", 420) or time.time() > deadline:
                p.kill()
                p.join()
                res = {"fn": fn, "opts": opts, "status": "unsupported", "why": "time limit", "failures": [], "results": {}}
            if res is not None and again(res) and (id(mod), fn) not in retried and time.time() - t0 < 150 and time.time() < deadline - 200:
                retried.add((id(mod), fn))  # a solver crash or a solver time limit hit under load: once more
                act.remove(a)
                pend.append((mod, fn, opts))
                continue
            if res is not None:
                act.remove(a)
                res["mod"] = mod
                out.append(res)
    return out


class Native:
    def __init__(self, work):
        self.work = work
        self.exe = {}

    def get(self, cpp, extra):
        if cpp not in self.exe:
            e = os.path.join(self.work, os.path.basename(cpp) + ".native")
            fl = [f for f in FLAGS if not f.startswith("-fno-") and f not in ("-DEIGEN_DONT_VECTORIZE",)]
            r = run([CLANG] + fl + extra + ["-O1", "-g0", "-DVC_NATIVE", "-rdynamic", cpp, os.path.join(ROOT, "include", "vc_native.cpp"), "-o", e, "-ldl"])
            if r.returncode:
                log("native build failed: " + r.stderr[-1500:])
                e = None
            self.exe[cpp] = e
        return self.exe[cpp]

    def sample(self, cpp, extra, contract, seed, count, overrides=None, timeout=60):
        e = self.get(cpp, extra)
        if e is None:
            return None
        ov = ""
        if overrides:
            ov = os.path.join(self.work, "ov.txt")
            with open(ov, "w") as f:
                for k, v in overrides.items():
                    if isinstance(v, (int, float)) and not re.search(r"\s", k):
                        f.write("%s %.17g\n" % (k, v))
        try:
            r = run([e, contract, str(seed), str(count), ov], timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"timeout": True, "failed": False}
        if r.returncode == 1 and "FAILED" in r.stdout:
            return {"failed": True, "out": r.stdout[:20000]}
        return {"failed": False, "out": r.stdout[-500:], "rc": r.returncode}


def known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    only = os.environ.get("VC_ONLY")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 3300)
    work = tempfile.mkdtemp(prefix="vc-%s-" % prop)
    try:
        return check(prop, tier, seed, t0, deadline, work, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, t0, deadline, work, only):
    if not os.path.exists(os.path.join(ROOT, ".build", "irdump")):
        subprocess.run(["bash", os.path.join(ROOT, "setup.sh")], check=True, stdout=subprocess.DEVNULL)
    cpps = sorted(glob.glob(os.path.join(ROOT, "contracts", prop + "*.cpp")))
    if not cpps:
        log("no contracts for", prop)
        return 2
    meta = {}
    jobs = []
    funcs = set()
    nat = Native(work)
    src_of = {}
    from concurrent.futures import ThreadPoolExecutor

    def prep(cpp):
        txt = open(cpp).read()
        extra = ["-I" + os.path.dirname(cpp)]
        for m in re.finditer(r"^// FLAGS: (.*)$", txt, re.M):
            extra += m.group(1).replace("$REPO", REPO).replace("$ROOT", ROOT).split()
        dropped = []
        for attempt in range(8):
            mod, raw = build_ir(cpp, work, extra)
            if mod is not None or not raw.startswith("compile:"):
                break
            # a contract that no longer compiles against the tree is set aside, the others are still decided
            blocks = contract_blocks(txt)
            lines = {int(m.group(1)) for m in re.finditer(r"%s:(\d+):\d+: (?:error|note)" % re.escape(os.path.basename(cpp)), raw)}
            bad = [b for b in blocks if any(b[1] <= l <= b[2] for l in lines)]
            if not bad:
                break
            ls = txt.split("\n")
            for b in bad:
                dropped.append(b[0])
                for i in range(b[1] - 1, b[2]):
                    ls[i] = ""
            txt = "\n".join(ls)
            cpp2 = os.path.join(work, os.path.basename(cpp))
            open(cpp2, "w").write(txt)
            cpp = cpp2
        fns = functions_under_contract(raw) if mod is not None else []
        return cpp, txt, extra, mod, raw, fns, dropped
    with ThreadPoolExecutor(8) as ex:
        preps = list(ex.map(prep, cpps))
    assumptions = []
    notbuilt = []
    for cpp, txt, extra, mod, raw, fns, dropped in preps:
        for d in dropped:
            log("not extractable from the current tree (skipped): %s of %s" % (d, os.path.basename(cpp)))
            notbuilt.append((d, ["contract does not compile against the current tree"]))
        if mod is None:
            log("EXTRACTION FAILED %s: %s" % (cpp, raw[-3000:]))
            notbuilt.append((os.path.basename(cpp), ["contract file does not compile against the current tree: " + raw[-400:]]))
            continue
        funcs |= set(fns)
        for m in re.finditer(r"^// ASSUME: (.*)$", txt, re.M):
            assumptions.append(m.group(1))
        fopts = {}
        for m in re.finditer(r"^// OPT (\w+|\*):? (.*)$", txt, re.M):
            d = fopts.setdefault(m.group(1), {})
            for kv in m.group(2).split():
                k, v = kv.split("=")
                d[k] = float(v) if "." in v else int(v)
        for fn in mod["functions"]:
            if fn.startswith("vc_contract_") or fn.startswith("vc_thorough_") and tier == "thorough":
                nm = fn[12:]
                if only and nm not in only.split(","):
                    continue
                opts = dict(fopts.get("*", {}))
                opts.update(fopts.get(nm, {}))
                src_of[id(mod), fn] = (cpp, extra)
                jobs.append((mod, fn, opts))

    def key(r):
        return (id(r["mod"]), r["fn"])

    def title(k):  # contract name, with the file where several files have a contract of that name
        cpp = os.path.basename(src_of[k][0])[:-4]
        return (cpp + "." if sum(f == k[1] for _, f in src_of) > 1 else "") + k[1][12:]
    if not jobs:
        write_evidence(prop, tier, seed, t0, "other", {"explanation": "no contract compiles against the current tree", "not_built": notbuilt}, [], 0)
        return 2
    par = 8
    res = run_jobs(jobs, par, deadline)
    # fall back to bounded runs where the loop rule or the engine does not reach
    bounded, sampled, final = [], [], []
    retry = []
    for r in res:
        if r["status"] == "ok":
            final.append(r)
        else:
            if os.environ.get("VC_VERBOSE"):
                log("  unsupported %s: %s" % (r["fn"], r.get("why")))
            o = {k: v for k, v in r["opts"].items() if k != "bounded"}
            sizes = any(v[0] == "size" for v in r.get("inputs", {}).values())
            if sizes and not r["failures"]:
                for b in (1, 2, 3):
                    retry.append((r["mod"], r["fn"], dict(o, bounded=b, why=r.get("why", ""))))
            else:
                sampled.append(r)
    if retry:
        rr = run_jobs(retry, par, deadline)
        bad = {key(r) for r in rr if r["status"] != "ok"}
        for r in rr:
            (final if key(r) not in bad else sampled).append(r)
            if key(r) not in bad:
                bounded.append(title(key(r)))
    # ---------------------------------------------------------------- failures
    findings = known()
    viol = []
    kf = []
    unproved = list(notbuilt)
    by_fn = {}
    for r in final + sampled:
        if r["failures"]:
            by_fn.setdefault(key(r), []).extend(r["failures"])
    for r in sampled:
        by_fn.setdefault(key(r), [])
    rdir = os.path.join(ROOT, "evidence", "replay")
    for k0, fl in sorted(by_fn.items(), key=lambda x: title(x[0])):
        fn, nm, file_nm = k0[1], k0[1][12:], title(k0)
        cpp, extra = src_of[k0]
        issampled = any(key(r) == k0 for r in sampled)
        kn = [k for k in findings["findings"] if k["property"] == prop and k["contract"] == nm]
        rest = [f for f in fl if not any(f["name"] == k["clause"] for k in kn)]
        for k in kn:
            if any(f["name"] == k["clause"] for f in fl):
                kf.append(k)
        if not rest and not issampled:
            continue
        hit = None
        native_nm = nm
        tries = []
        for f in rest[:6]:
            if f.get("model"):
                tries.append(f["model"])
        for i, mdl in enumerate(tries):
            x = nat.sample(cpp, extra, nm, seed + i, 200, mdl, 20) if fn.startswith("vc_contract_") else None
            if x and x["failed"] and not only_known(x["out"], kn):
                hit = x
                break
        if hit is None and fn.startswith("vc_contract_"):
            left = max(10, min(60, deadline + 60 - time.time()))
            x = nat.sample(cpp, extra, nm, seed, 200000 if not issampled else 50000, None, left)
            if x and x["failed"] and not only_known(x["out"], kn):
                hit = x
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s_%s.txt" % (prop, file_nm))
        if hit:
            with open(rp, "w") as f:
                f.write("property %s contract %s (%s)\nfailing input found; replay: rebuild with `%s/check.sh %s` or sample_seed below\n%s\nfailed obligations:\n%s\n" % (prop, nm, cpp, ROOT, prop, hit["out"], json.dumps(rest, indent=1, default=str)))
            viol.append((file_nm, rp, True))
        elif rest and any(f["status"] == "refuted" for f in rest):
            with open(rp, "w") as f:
                f.write("property %s contract %s (%s)\nno failing input found by native replay; verifier output:\n%s\n" % (prop, nm, cpp, json.dumps(rest, indent=1, default=str)))
            viol.append((file_nm, rp, False))
        else:
            unproved.append((file_nm, [f["name"] for f in rest] or [next((r.get("why", "") for r in sampled if key(r) == k0), "")]))
    # ---------------------------------------------------------------- evidence
    disch = {}
    auto = 0
    stime = {}
    nob = 0
    for r in final:
        for h, c in r["results"].items():
            disch[h] = disch.get(h, 0) + c
        auto += sum(r.get("auto", {}).values())
        for k, v in (r.get("time") or {}).items():
            stime[k] = round(stime.get(k, 0) + v, 3)
    nd = sum(disch.values()) + auto
    nfail = sum(len(v) for v in by_fn.values())
    vac = [title(key(r)) for r in final if not r["failures"] and (sum(r["results"].values()) == 0 or not r.get("complete"))]
    ext = sorted({e for r in final for e in r.get("ext", [])})
    notes = sorted({n for r in final for n in r.get("notes", [])})
    base_assume = [
        "machine double arithmetic is treated as exact real arithmetic (a literal that is the rounding of a rational with denominator <= 5000 stands for that rational)",
        "clang-18 front end and the LLVM passes inline/sroa/early-cse/instcombine/simplifycfg preserve the meaning of the code that g++ compiles; Eigen is verified as compiled with EIGEN_DONT_VECTORIZE and coefficient-based products",
        "the VC generator (engine/vcexec.py), the normaliser (engine/prove.py), z3 and cvc5 are trusted",
        "heap allocation succeeds; sizes declared with SIZE() are at most the stated bound (1e6 unless the contract says otherwise)"]
    cov = {"obligations": nd + nfail, "discharged": nd, "checker_cmd": "bash check.sh %s %s" % (prop, tier),
           "trusted_base": ["clang 18.1.3", "LLVM opt", "engine/*.py", "z3 %s" % z3v(), "cvc5 1.1.2", "include/vc.h"],
           "by_backend": disch, "implicit_safety_obligations": auto, "solver_seconds": stime,
           "contracts": len(final), "paths": sum(r.get("paths", 0) for r in final), "loops_by_invariant": sum(r.get("symloops", 0) for r in final),
           "functions_under_contract": sorted(funcs), "bounded_contracts": sorted(set(bounded)), "bounded_bound": "symbolic sizes replaced by 1,2,3 in bounded_contracts",
           "not_proved": [{"contract": n, "clauses": c[:10]} for n, c in unproved], "ignored_externals": ext, "engine_notes": notes,
           "known_findings": [k["id"] for k in kf], "clauses": {title(key(r)): len(r.get("clauses", {})) for r in final}, "vacuous": vac}
    level = "proof" if not unproved and not vac and final else "other"
    if level == "other":
        cov["explanation"] = "some contracts were not discharged (see not_proved / vacuous); they were sampled natively without a failing input"
    write_evidence(prop, tier, seed, t0, level, cov, base_assume + assumptions, len(viol))
    for k in kf:
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    log("%s: %d contracts, %d obligations, %d discharged %s (+%d safety), bounded %d, unproved %d, %.1fs" % (prop, len(final), nd + nfail, nd, disch, auto, len(set(bounded)), len(unproved), time.time() - t0))
    if os.environ.get("VC_VERBOSE"):
        for r in sorted(final, key=lambda r: r["fn"]):
            log("  %-36s paths %d/%d %s auto %d loops %d %.1fs %s" % (r["fn"][12:] + (":b%d" % r["opts"]["bounded"] if r["opts"].get("bounded") else ""), r.get("complete", 0), r.get("paths", 0), r["results"], sum(r.get("auto", {}).values()), r.get("symloops", 0), r["wall"], "; ".join(r.get("notes", []))[:100]))
            for f in r["failures"][:5]:
                log("     FAIL", json.dumps(f, default=str)[:900])
        for r in sampled:
            log("  SAMPLED", r["fn"], r.get("why"))
        for b in sorted(set(bounded)):
            log("  BOUNDED", b, [r["opts"].get("why") for r in final if title(key(r)) == b][:1])
        for u in unproved:
            log("  UNPROVED", u)
        log("  VACUOUS", vac)
    for nm, rp, found in viol:
        log("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if found else " no-failing-input-found"))
    return 1 if viol else 0


def only_known(out, kn):
    """the native failure only concerns clauses listed as known findings"""
    cl = [l[7:].split(":")[0].strip() for l in out.splitlines() if l.startswith("CLAUSE ")]
    return bool(cl) and all(any(c == k["clause"] for k in kn) for c in cl)


def z3v():
    import z3
    return z3.get_version_string()


def write_evidence(prop, tier, seed, t0, level, cov, assumptions, nv):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nv}, f, indent=1, default=str)


if __name__ == "__main__":
    mp.set_start_method("fork")
    sys.exit(main())
