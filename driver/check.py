#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its sources (see DESIGN.md).

usage: check.py <property id> [--tier quick|thorough] [--only harness] [--keep] [-v]
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
Z3 = None
JOBS = max(2, os.cpu_count() or 2)


def find_z3():
    import glob
    for d in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3"):
        libs = [l for l in os.listdir(d + "/lib") if l.startswith("libz3.so")]
        if libs:
            libs.sort(key=len)
            return ["-I" + d + "/include"], ["-L" + d + "/lib", "-l:" + libs[-1], "-Wl,-rpath," + d + "/lib"]
    return [], ["-lz3"]


class Ctx:
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


# ------------------------------------------------------------------------------------- build
EIGEN = ["-I/usr/include/eigen3"]
BASE = ["g++", "-std=c++17", "-O1", "-w", "-ftrivial-auto-var-init=pattern"]
_cache = os.environ.get("VERIF_CACHE")
_hdr_hash = None


def headers_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha1()
        for root in (VERIF + "/sx", VERIF + "/harness", REPO + "/include", REPO + "/baselines", REPO + "/ROS"):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".cpp")) and (f.endswith((".h", ".hpp")) or d.startswith(REPO + "/include") or "baselines" in d):
                        h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


_tok = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|(?<![\w.])(?:\d+\.\d*|\.\d+|\d+(?=[eE][-+]?\d))(?:[eE][-+]?\d+)?[fFlL]?(?![\w.])|\blong\s+double\b', re.S)


def rewrite_literals(text):
    def f(m):
        t = m.group(0)
        if t[0] in "/\"'":
            return t
        return "double" if t[0] == "l" else "double(" + t.rstrip("fFlL") + ")"
    out = []
    for l in re.split(r"(?m)(^[ \t]*#[^\n]*(?:\n|$))", text):
        out.append(l if re.match(r"[ \t]*#", l) else _tok.sub(f, l))
    return "".join(out)


def compile_obj(cmd, src, out):
    """returns error text or None"""
    key = None
    if _cache:
        key = hashlib.sha1((" ".join(cmd).replace(CX.work, "W") + src + open(src).read() + headers_hash()).encode()).hexdigest()
        c = os.path.join(_cache, key)
        if os.path.exists(c):
            shutil.copyfile(c, out)
            return None
    r = sh(cmd + ["-c", src, "-o", out])
    if r.returncode and "cannot convert" in r.stderr and "sx::Real" in r.stderr:
        # second attempt for sources that rely on implicit conversions of floating values to integers (no precompiled prelude)
        alt = [c for c in cmd if not (c.startswith("-I") and "/pch_" in c)]
        r2 = sh(alt + ["-DSX_IMPLICIT", "-c", src, "-o", out])
        r = r2 if not r2.returncode else r
    if r.returncode and "sx::Real" in r.stderr and src.startswith(REPO):
        # further attempts: floating literals of the source become symbolic scalars before type deduction sees them
        lit = os.path.join(CX.work, "lit_" + os.path.basename(out)[:-2] + os.path.splitext(src)[1])
        with open(lit, "w") as f:
            f.write(rewrite_literals(open(src, errors="replace").read()))
        for alt in (cmd, [c for c in cmd if not (c.startswith("-I") and "/pch_" in c)] + ["-DSX_IMPLICIT"]):
            r2 = sh(alt + ["-iquote", os.path.dirname(src), "-c", lit, "-o", out])
            if not r2.returncode:
                r = r2; break
    if r.returncode:
        return r.stderr[:4000]
    if key:
        os.makedirs(_cache, exist_ok=True)
        shutil.copyfile(out, os.path.join(_cache, key))
    return None


def incs():
    i = ["-I" + VERIF + "/sx", "-I" + VERIF + "/harness", "-I" + REPO + "/include", "-I" + REPO]
    for extra in sorted(set(CX.directives.get("include", []))):
        i.append("-I" + extra.replace("REPO", REPO).replace("VERIF", VERIF))
    return i + EIGEN


def mode_flags(native):
    return ["-DSX_NATIVE"] if native else ["-DSX_PLAINFLOAT"] if CX.plain_float else []


def pch(native):
    d = os.path.join(CX.work, "pch_n" if native else "pch_s")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    src = os.path.join(d, "prelude.h")
    gch = src + ".gch"
    if _cache:
        k = hashlib.sha1((str(mode_flags(native)) + " ".join(BASE) + open(VERIF + "/sx/prelude.h").read() + open(VERIF + "/sx/sx.h").read()).encode()).hexdigest()
        c = os.path.join(_cache, "pch-" + k)
        if os.path.exists(c):
            shutil.copyfile(VERIF + "/sx/prelude.h", src); os.symlink(c, gch); return None
    shutil.copyfile(VERIF + "/sx/prelude.h", src)
    r = sh(BASE + mode_flags(native) + ["-I" + VERIF + "/sx"] + EIGEN + ["-x", "c++-header", src, "-o", gch])
    if r.returncode:
        return r.stderr[:4000]
    if _cache:
        os.makedirs(_cache, exist_ok=True); shutil.copyfile(gch, c)
    return None


def build(native, sources, harness_src, pool, with_pch):
    """compiles everything of one mode; returns dict name->obj, errors"""
    tag = "n" if native else "s"
    inc = ["-I" + os.path.join(CX.work, "pch_" + tag), "-include", "prelude.h"] + incs()
    jobs, objs = [], []

    def add(src, name):
        ins = [] if native or not src.startswith(REPO) else ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,/verif/sx,prelude.h,harness/"]
        o = os.path.join(CX.work, tag + "_" + name + ".o")
        objs.append(o)
        jobs.append((BASE + mode_flags(native) + ins + inc, src, o))
    add(harness_src, "harness")
    for s in sources:
        add(s, re.sub(r"\W", "_", os.path.relpath(s, REPO)))
    for nm in ["models"] + (["native"] if native else []):
        o = os.path.join(CX.work, tag + "_" + nm + ".o")
        objs.append(o)
        jobs.append((BASE + mode_flags(native) + ["-I" + VERIF + "/sx"], VERIF + f"/sx/{nm}.cpp", o))
    errs = [e for e in pool.map(lambda j: (lambda e: j[1] + ":\n" + e if e else None)(compile_obj(*j)), jobs) if e]
    return objs, errs


def link(objs, out, extra):
    r = sh(["g++", "-o", out] + objs + extra + ["-lyaml-cpp", "-lboost_system", "-lpthread"])
    return (r.returncode, r.stderr)


def read_directives(path):
    d = {}
    for l in open(path):
        m = re.match(r"\s*//\s*@(\w+)\s*(.*)", l)
        if m:
            d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d


def all_sources():
    main, robots = [], []
    for r, ds, fs in os.walk(REPO + "/src"):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".cxx")):
                p = os.path.join(r, f)
                (robots if "/kinematics/" in p else main).append(p)
    return main, robots


# ------------------------------------------------------------------------------------- main
def main():
    global CX
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay", help="run the real code on the inputs of a replay file")
    ap.add_argument("--all", action="store_true", help="do not stop at the first confirmed violation")
    a = ap.parse_args()
    CX = Ctx()
    CX.plain_float = False
    CX.a, CX.tier = a, ("thorough" if a.tier == "thorough" else "quick")
    try:
        CX.seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        CX.seed = 1
    CX.t0 = time.time()
    CX.work = tempfile.mkdtemp(prefix="vchk_")
    try:
        rc = run()
    finally:
        if not a.keep:
            shutil.rmtree(CX.work, ignore_errors=True)
        else:
            print("work dir", CX.work)
    sys.stdout.flush()
    sys.exit(rc)


def log(*x):
    print(*x, flush=True)


def run():
    prop = CX.a.prop
    hname = prop.lower()
    hsrc = f"{VERIF}/harness/{hname}.cpp"
    CX.directives = read_directives(hsrc)
    D = CX.directives
    main_src, robots = all_sources()
    need = set(" ".join(D.get("need", [])).split())
    sources = main_src + (robots if "robots" in need else [])
    for extra in D.get("source", []):
        sources.append(extra.replace("REPO", REPO).replace("VERIF", VERIF))
    zi, zl = find_z3()
    pool = cf.ThreadPoolExecutor(JOBS)
    if CX.a.replay:   # only the native build, run on the recorded inputs
        rec = json.load(open(CX.a.replay))
        e = pch(True)
        objs, errs = build(True, sources + (robots if "robots" not in need else []), hsrc, pool, True)
        natx, path = os.path.join(CX.work, "nat"), os.path.join(CX.work, "in.txt")
        if e or errs or link(objs, natx, [])[0]:
            log("ERROR: native build failed", e or errs); return 2
        with open(path, "w") as f:
            for k, v in rec["inputs"].items():
                f.write(f"{k}\t{v!r}\n" if not isinstance(v, str) else f"{k}\t{v}\n")
        out = sh([natx, "--harness", rec["harness"], "--assign", path, "--param", "tier=" + CX.tier], timeout=300).stdout
        log(out)
        return 1 if "FAIL\t" in out else 0
    # stage 1: precompiled headers of both modes and the engine, in parallel
    engine_o = os.path.join(CX.work, "engine.o")
    f_eng = pool.submit(compile_obj, ["g++", "-std=gnu++17", "-O2", "-w"] + zi + ["-I" + VERIF + "/sx"], VERIF + "/sx/engine.cpp", engine_o)
    f_ps, f_pn = pool.submit(pch, False), pool.submit(pch, True)
    for f in (f_ps, f_pn):
        if f.result():
            log("ERROR: prelude does not compile\n", f.result()); return 2
    objs_s, errs = build(False, sources, hsrc, pool, True)
    if f_eng.result():
        log("ERROR: engine does not compile\n", f_eng.result()); return 2
    if errs and "F32" in "".join(errs):   # single precision as exact reals instead
        CX.plain_float = True
        e = pch(False)
        objs_s, errs = build(False, sources, hsrc, pool, True) if not e else ([], [e])
    if errs:
        log("ERROR: symbolic build failed\n", "\n".join(errs)); return 2
    zlibs = zl + ["-lquadmath", "-lgmpxx", "-lgmp"]
    symx, natx = os.path.join(CX.work, "sym"), os.path.join(CX.work, "nat")
    rc, e = link(objs_s + [engine_o], symx, zlibs + ["-rdynamic", "-ldl"])
    if rc and "undefined reference" in e and "robots" not in need:
        need.add("robots"); sources += robots
        objs_s, errs = build(False, sources, hsrc, pool, True)
        if errs:
            log("ERROR: symbolic build failed\n", "\n".join(errs)); return 2
        rc, e = link(objs_s + [engine_o], symx, zlibs + ["-rdynamic", "-ldl"])
    if rc:
        log("ERROR: link failed\n", e[:4000]); return 2
    t_build = time.time() - CX.t0
    # native build runs beside the exploration
    nat = {}

    def nat_build():
        p2 = cf.ThreadPoolExecutor(3)
        objs, errs = build(True, sources, hsrc, p2, True)
        p2.shutdown()
        if errs:
            return "\n".join(errs)
        rc, e = link(objs, natx, [])
        return e if rc else None
    natpool = cf.ThreadPoolExecutor(1)
    f_nat = natpool.submit(nat_build)

    names = [n for n in sh([symx, "--list"]).stdout.split() if n.startswith(hname + "_")]
    thorough_only = set(" ".join(D.get("thorough", [])).split())
    if CX.tier != "thorough":
        names = [n for n in names if n not in thorough_only]
    if CX.a.only:
        names = [n for n in names if n in CX.a.only.split(",")]
    if not names:
        log("ERROR: no harness"); return 2
    shards = {}
    for s in D.get("shards", []):
        p = s.split()
        shards[p[0]] = int(p[1])
    budgets = {"quick": 420.0, "thorough": 3000.0}
    budget = budgets[CX.tier]
    tasks = []
    for n in names:
        k = shards.get(n, 1)
        for i in range(k):
            tasks.append((n, i, k))
    tasks.sort(key=lambda t: -t[2])

    # ---------------------------------------------------------------- replay on the real code
    rdir = f"{VERIF}/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))

    def native(rec, path):
        with open(path, "w") as f:
            for k2, v in rec["assign"].items():
                f.write(f"{k2}\t{v!r}\n" if not isinstance(v, str) else f"{k2}\t{v}\n")
        try:
            r = sh([natx, "--harness", rec["harness"], "--assign", path, "--param", "tier=" + CX.tier], timeout=120)
            return r.stdout
        except subprocess.TimeoutExpired:
            return "FAIL\thang: the native run does not end\n"
    known = []
    kf = f"{VERIF}/known_findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            if l.strip():
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    known.append(d)

    def is_known(r):
        for d in known:
            if d["harness"] == r["harness"] and d["label"] == r["label"] and all(r["assign"].get(k) == v for k, v in d.get("match", {}).items()):
                return d
        return None
    # as soon as a counterexample is confirmed on the real code the remaining exploration of a quick run is skipped
    stop = threading.Event()
    deadline = CX.t0 + (720 if CX.tier == "quick" else 6 * 3600)
    tried, watching = set(), []

    def early(rec):
        key = (rec["harness"], rec["label"])
        if CX.tier != "quick" or CX.a.all or key in tried or len(tried) > 40 or is_known(rec):
            return
        tried.add(key)
        if f_nat.result():
            return
        path = os.path.join(CX.work, f"e{len(tried)}.txt")
        hits = [l.split("\t", 1)[1] for l in native(rec, path).splitlines() if l.startswith("FAIL\t")]
        if rec["label"] in hits or any(x.startswith(("crash", "uncaught", "Eigen assertion", "hang")) for x in hits):
            stop.set()

    def watch():
        pos = {}
        while not watch_end.wait(1.0):
            for n, out in list(watching):
                try:
                    with open(out, errors="replace") as f:
                        f.seek(pos.get(out, 0))
                        txt = f.read()
                except OSError:
                    continue
                txt = txt[:txt.rfind("\n") + 1]
                pos[out] = pos.get(out, 0) + len(txt.encode("utf-8", "replace"))
                for l in txt.splitlines():
                    if l.startswith('{"type":"fail"'):
                        try:
                            rec = json.loads(l)
                        except ValueError:
                            continue
                        rec["harness"] = n
                        early(rec)
    watch_end = threading.Event()

    def one(t):
        n, i, k = t
        if stop.is_set():
            return t, 0, []
        limit = min(budget, max(20.0, deadline - time.time()))
        out = os.path.join(CX.work, f"o_{n}_{i}.jsonl")
        cmd = [symx, "--harness", n, "--out", out, "--budget", str(limit), "--seed", str(CX.seed), "--shard", f"{i}/{k}",
               "--traces", "4" if CX.tier == "quick" else "12", "--param", "tier=" + CX.tier]
        t1 = time.time()
        watching.append((n, out))
        pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        rc = -99
        while time.time() - t1 < limit + (100 if CX.tier == "quick" else 240):
            try:
                rc = pr.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                if stop.is_set():
                    break
        if pr.poll() is None:
            pr.kill(); pr.wait()
        recs = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        if CX.a.v:
            log(f"  {n} {i}/{k}: rc={rc} {time.time()-t1:.1f}s")
        return t, rc, recs
    watcher = threading.Thread(target=watch, daemon=True)
    watcher.start()
    results = list(pool.map(one, tasks))
    watch_end.set(); watcher.join()
    stopped = stop.is_set()
    t_sym = time.time() - CX.t0 - t_build
    nerr = f_nat.result()
    if nerr:
        log("ERROR: native build failed\n", nerr[:4000]); return 2

    # ---------------------------------------------------------------- gather
    tot = {}
    labels, fails, unproved, traces, errors, methods = {}, [], [], [], [], {}
    exhausted = True
    funcs = set()
    seen = set()
    probed, late = {}, []
    for (n, i, k), rc, recs in results:
        probed[n] = probed.get(n, 0) + sum(r["paths"] for r in recs if r["type"] == "probe")
    for (n, i, k), rc, recs in results:
        summ = None
        for r in recs:
            r["harness"] = n
            if r["type"] == "functions":
                funcs.update(r["names"])
            elif r["type"] == "fail":
                fails.append(r)
            elif r["type"] == "unproved":
                unproved.append(r)
            elif r["type"] == "trace":
                traces.append(r)
            elif r["type"] == "summary":
                summ = r
        if summ is None:
            exhausted = False
            if stopped:
                continue
            if rc == -99 and probed[n]:
                late.append(f"{n} shard {i}/{k} (no summary in time)")
                continue
            errors.append(f"{n} shard {i}/{k}: no summary (exit {rc})")
            continue
        exhausted &= summ["exhausted"]
        for key, v in summ.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if key in ("paths", "decisions", "obligations", "stops", "infeasible") and (n, key) in seen:
                    continue
                seen.add((n, key))
                tot[key] = tot.get(key, 0) + v
        for l, c in summ["labels"].items():
            labels.setdefault(n, {})[l] = c
        if summ["unsupported"]:
            errors.append(f"{n}: outside the encodable fragment on {summ['unsupported_n']} paths: {summ['unsupported'][0]}")
        if not summ["found"]:
            errors.append(f"{n}: not found")
    # every harness must have had at least one reachable path
    for n in names:
        w = sum(r.get("witness", 0) for (h, i, k), rc, recs in results if h == n for r in recs if r["type"] == "summary")
        if w == 0 and not stopped and not exhausted and probed[n]:
            late.append(f"{n} (no path completed in time)")
        elif w == 0 and not stopped:
            errors.append(f"{n}: no reachable path")
    groups = {}
    for r in fails:
        groups.setdefault((r["harness"], r["label"]), []).append(r)
    confirmed, unconfirmed, known_hits = [], [], {}
    cnt = 0
    for (h, lab), rs in groups.items():
        done = 0
        for r in rs:
            k = is_known(r)
            if k is None and done >= 1:
                continue
            if k is not None and json.dumps(k) in known_hits:
                continue
            cnt += 1
            path = os.path.join(CX.work, f"r{cnt}.txt")
            o = native(r, path)
            hits = [l.split("\t", 1)[1] for l in o.splitlines() if l.startswith("FAIL\t")]
            ok = lab in hits or any(x.startswith(("crash", "uncaught", "Eigen assertion", "hang")) for x in hits)
            if ok and k is not None:
                known_hits[json.dumps(k)] = k
            elif ok:
                done += 1
                confirmed.append((r, path, o))
            elif cnt > 60:
                break
        if not done and not any(is_known(r) for r in rs):
            unconfirmed.append(rs[0])
    # ---------------------------------------------------------------- trace validation
    validated, mismatched, mism = 0, 0, []
    for j, r in enumerate(traces[:40]):
        o = native(r, os.path.join(CX.work, f"t{j}.txt"))
        got = {}
        for l in o.splitlines():
            p = l.split("\t")
            if p[0] == "CHK":
                got.setdefault(p[1], []).append(float(p[2]))
        okc = bad = 0
        want = {}
        for l, v in r["values"]:
            want.setdefault(l, []).append(v)
        for l, vs in want.items():
            if l.startswith("model: "):   # obligations of a model that the native build does not have
                continue
            g = [x for x in got.get(l, []) if x == x and abs(x) != float("inf")]
            if len(g) != len(vs) and not (len(g) > len(vs) and len(r["values"]) >= 400):
                bad += 1
                mism.append((r["harness"], l, "count", len(vs), len(g))); continue
            for x, y in zip(vs, g):
                if x is None:
                    continue
                if abs(x - y) <= 1e-5 * (1 + max(abs(x), abs(y))):
                    okc += 1
                else:
                    bad += 1
                    mism.append((r["harness"], l, x, y))
        if "ASSUME-FAILED" in o:
            bad += 1
            mism.append((r["harness"], "assume"))
        if bad:
            mismatched += 1
        else:
            validated += 1
    # ---------------------------------------------------------------- report
    for k, d in known_hits.items():
        log(f"KNOWN-FINDING: property={prop} {d['what']}")
    samples = []
    for r in traces[:3]:
        samples.append({"harness": r["harness"], "path_inputs": r["assign"], "library_values": r["values"][:12], "notes": r["notes"]})
    if not samples:
        samples = [{"harness": n, "obligation": l, "count": c} for n in labels for l, c in list(labels[n].items())[:2]][:4]
    for (r, path, o) in confirmed[:20]:
        name = f"{prop}-{len([1 for x in os.listdir(rdir)])}-{re.sub(r'[^A-Za-z0-9]+', '_', r['label'])[:40]}.json"
        p = os.path.join(rdir, name)
        chk = [l for l in o.splitlines() if l.startswith(("FAIL", "ASSUME"))][:20]
        json.dump({"property": prop, "harness": r["harness"], "label": r["label"], "inputs": r["assign"], "library_value": r.get("lib"), "expected": r.get("ref"),
                   "notes": r["notes"], "native_replay": chk, "how": f"driver/replay.py {p}"}, open(p, "w"), indent=1)
        log(f"VIOLATION property={prop} replay={p}")
        log(f"  {r['harness']}: {r['label']}")
    for r in unconfirmed[:10]:
        log(f"INCONCLUSIVE: candidate counterexample not confirmed by the native run: {r['harness']}: {r['label']}")
    byl = {}
    for u in unproved:
        byl.setdefault((u["harness"], u["label"], u["why"]), 0)
        byl[(u["harness"], u["label"], u["why"])] += 1
    for (h, l, w), c in list(byl.items())[:10]:
        log(f"UNDECIDED: {c} obligations: {h}: {l} ({w})")
    for e in late:
        log("UNDECIDED:", e)
    for e in errors:
        log("ERROR:", e)
    for m in mism[:5]:
        log("TRACE-MISMATCH:", m)
    if not exhausted:
        log("NOTE: exploration stopped " + ("at a confirmed violation" if stopped else "at its time budget"))
    wall = time.time() - CX.t0
    funcs = sorted(f for f in funcs if not f.startswith(('std::', 'Eigen::', 'YAML::', 'boost::', 'sx::', 'hx::', '__')) and not re.match(r'(void|bool|int|auto|unsigned long|[\w:<>&* ]+) (std|Eigen|YAML|boost|sx|hx|__gnu_cxx)::', f))
    assumptions = [
        "probe paths (one concrete input each, run beside the exploration) only serve to find violations early; nothing is concluded from a probe that finds none",
        "double arithmetic is treated as exact real arithmetic (rounding is outside; constants are their exact rational values)",
        "std::mutex/queue/thread are replaced by models with the same interface (lock discipline is checked, scheduling liveness is not)",
        "matrix inverses of symbolic matrices are used by contract (M * M^-1 = I, M non-singular)",
        "inputs range over the stated intervals, which the solver widens: [-a,a] with a >= 1 by a factor 500, [0,a] with a >= 1 and [a,b] with b >= 5a by a factor 50, time stamps of the queue properties to [0,2e9] (explicit four-bound ranges excepted); loop and sequence lengths are those of the harness",
    ] + D.get("assume", [])
    ev = {
        "property": prop, "tier": CX.tier, "seed": CX.seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)), "transitions": int(tot.get("decisions", 0)),
            "traces_validated_against_impl": validated, "trace_mismatches": mismatched,
            "samples": samples,
            "obligations": int(tot.get("mine", 0)), "discharged": int(tot.get("discharged", 0)),
            "undecided": int(tot.get("unproved", 0)), "undecided_list": [f"{h}: {l} ({w}) x{c}" for (h, l, w), c in list(byl.items())[:20]],
            "refuted_candidates": len(fails), "unconfirmed_candidates": len(unconfirmed),
            "paths_with_model_witness": int(tot.get("witness", 0)), "paths_without_model_witness": int(tot.get("nowitness", 0)),
            "infeasible_paths_dropped": int(tot.get("infeasible", 0)),
            "probe_paths": sum(probed.values()), "undecided_harnesses": late,
            "exhaustive": bool(exhausted and not errors),
            "solver_queries": int(tot.get("queries", 0)), "solver_unsat": int(tot.get("unsat", 0)), "solver_sat": int(tot.get("sat", 0)), "solver_unknown": int(tot.get("unknown", 0)),
            "solver_seconds": round(tot.get("solver_s", 0), 3), "solver_lemmas": int(tot.get("lemmas", 0)),
            "proved_by": {k: int(tot.get(k, 0)) for k in ("trivial", "reused", "by_cut", "by_normal_form", "by_query", "by_sweep")},
            "nonzero_denominator_queries": int(tot.get("nonzero_queries", 0)), "nonzero_denominator_undecided": int(tot.get("nonzero_undecided", 0)),
            "functions_encoded": funcs, "sources_encoded": [os.path.relpath(s, REPO) for s in main_src] + (["src/kinematics/** (%d files)" % len(robots)] if "robots" in need else []),
            "bounds": D.get("bound", []),
            "harnesses": {n: labels.get(n, {}) for n in names},
            "build_seconds": round(t_build, 1), "exploration_seconds": round(t_sym, 1),
            "errors": errors,
        },
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    log(f"{prop} [{CX.tier}]: {len(names)} harnesses, {ev['coverage']['states']} paths, {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations proved, "
        f"{len(confirmed)} violations, {len(known_hits)} known findings, {validated}/{validated+mismatched} traces validated, {ev['coverage']['solver_queries']} queries, "
        f"{ev['coverage']['solver_seconds']}s solver, {wall:.1f}s (build {t_build:.1f})")
    if confirmed:
        return 1
    if any("no summary" in e or "no reachable path" in e or "not found" in e for e in errors):
        return 2
    return 0


if __name__ == "__main__":
    main()
