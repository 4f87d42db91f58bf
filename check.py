#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's working tree.

  check.py PROP [--tier quick|thorough] [--replay FILE] [--build-only]

Builds the library together with the harness under the sanitizers the property needs, runs the workload in several
processes, merges what the monitors observed into evidence/PROP.json and reports.
exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: the check itself failed (no verdict).
"""
import array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = min(8, os.cpu_count() or 8)
BASE = ("-std=c++14 -fms-extensions -Wno-nonportable-include-path -w -isystem /opt/vp/shim/include -include msvc_compat.h "
        f"-I{REPO}/ColorMagic -I{VERIF}/harness -g1 -fno-omit-frame-pointer").split()
FLAVOURS = {
    "asan": ("-O1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR".split(), ["-fsanitize=address,undefined"]),
    "tsan": ("-O1 -fsanitize=thread -DVH_TSAN".split(), ["-fsanitize=thread"]),
    "plain": ("-O1 -DVH_PLAIN".split(), []),
    # the same program with every uninitialised variable holding another value: results must not differ
    "zeros": ("-O1 -DVH_PLAIN -ftrivial-auto-var-init=zero".split(), []),
    "pattern": ("-O1 -DVH_PLAIN -ftrivial-auto-var-init=pattern".split(), []),
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=16:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_thread_leaks=0:second_deadlock_stack=1:history_size=4",
}
# property -> list of stages (flavour, processes quick, processes thorough, extra arguments, runner)
ASAN = [("asan", 8, 64, [], [])]
STAGES = {f"C{i:02d}": ASAN for i in range(1, 26)}
# quick workloads, relative to the sizes in the harness, so that each check takes about 40 s on 8 idle cores
QUICK_LOAD = {"C02": 2, "C03": 2, "C04": 5, "C05": 6, "C06": 6, "C07": 3, "C08": 4, "C09": 4, "C10": 6, "C11": 5, "C13": 5, "C14": 2,
              "C16": 3, "C17": 3, "C18": 3, "C19": 3, "C20": 3, "C21": 3, "C22": 2, "C23": 2.5, "C24": 5, "C25": 8}
STAGES["C01"] = [("asan", 8, 64, [], []),
                 ("plain", 8, 16, ["--load", "0.02"], ["valgrind", "-q", "--error-exitcode=98", "--leak-check=no", "--undef-value-errors=yes", "--exit-on-first-error=yes"])]
DIFF = {"C01": ("zeros", "pattern", 8, 64, ["--load", "4"], ["--load", "1"])}  # last stage: (two flavours, processes quick and thorough, arguments)
STAGES["C25"] = [("tsan", 6, 32, [], [])]
TIMEOUT = {"quick": 400, "thorough": 3000}
ASSUME = [
    "The reference models in harness/*.cpp state the published formulas correctly; they are written independently of the library and in double precision.",
    "Deviations smaller than the stated tolerances (single precision rounding, widened by the measured condition of the formula at that input) are not reported.",
    "Only executions produced by the generators were observed; the result is 'held on what was explored', not a proof.",
]


def die(msg):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(2)


def sources():
    lib = sorted(glob.glob(f"{REPO}/ColorMagic/**/*.cpp", recursive=True))
    har = sorted(glob.glob(f"{VERIF}/harness/*.cpp"))
    return lib, har


def build(flavour, out):
    """Compiles library and harness from the current tree. Returns the path of the binary."""
    cfl, lfl = FLAVOURS[flavour]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    lib, har = sources()

    def comp(src, extra=()):
        obj = os.path.join(out, hashlib.md5(src.encode()).hexdigest()[:8] + "_" + os.path.basename(src) + ".o")
        r = subprocess.run(["clang++-18", *BASE, *cfl, *extra, "-c", src, "-o", obj], capture_output=True, text=True)
        return src, obj, r

    objs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src, obj, r in ex.map(comp, sorted(lib + har, key=lambda p: -os.path.getsize(p))):
            if r.returncode:
                # parts that use protected members of the library are optional
                opt = {"typed.cpp": "-DNO_TYPED", "gpd.cpp": "-DNO_GPD"}.get(os.path.basename(src))
                if opt and src in har:
                    src, obj, r2 = comp(src, [opt])
                    if r2.returncode == 0:
                        objs.append(obj)
                        continue
                die(f"{src} does not compile:\n{r.stderr[-3000:]}")
            objs.append(obj)
    exe = os.path.join(out, "vh")
    r = subprocess.run(["clang++-18", *lfl, *objs, "-lpthread", "-o", exe], capture_output=True, text=True)
    if r.returncode:
        die("link failed:\n" + r.stderr[-3000:])
    for o in objs:
        os.unlink(o)
    return exe


def run_one(flavour, exe, prop, tier, seed, chunk, chunks, extra, runner, out):
    """Returns (kind, data): ok/crash/hang/inconclusive."""
    cmd = [*runner, exe, prop, "--tier", tier, "--seed", str(seed), "--chunk", str(chunk), "--chunks", str(chunks), "--out", out, *extra]
    env = dict(os.environ, **{k: v for k, v in ENV.items() if (k == "TSAN_OPTIONS") == ("-DVH_TSAN" in FLAVOURS[flavour][0])})
    if prop != "C01" and chunk % 2 and "ASAN_OPTIONS" in env:  # addresses are reused at once, so that state kept by address goes stale
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("quarantine_size_mb=16", "quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
    err = out + ".err"
    try:
        with open(err, "wb") as e:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=e, env=env, timeout=TIMEOUT[tier])
    except subprocess.TimeoutExpired:
        return "inconclusive", "wall clock limit"
    text = open(err, errors="replace").read()
    if r.returncode == 0 or (r.returncode == 66 and os.path.exists(out)):
        try:
            d = json.load(open(out))
        except Exception as e:
            return "inconclusive", f"unreadable report: {e}"
        d["races"] = text.count("WARNING: ThreadSanitizer")
        d["stderr"] = text[:20000]
        if r.returncode == 66 and not d["races"]:
            return "crash", f"exit 66\n{text[-4000:]}"
        return "ok", d
    if "VH-ERROR" in text or r.returncode in (2, 3):
        return "inconclusive", text[-2000:]
    if "hard rss limit" in text or "out-of-memory" in text or r.returncode == -9:
        return "inconclusive", f"memory limit (rc {r.returncode})\n" + text[-2000:]
    if "VH-HANG" in text:
        return "hang", text[-2000:]
    return "crash", f"exit {r.returncode}\n" + text[:6000]


def differential(prop, tier, seed, bdir, only=None):
    """Runs the same cases in two builds that fill uninitialised stack and heap memory differently; results have to agree.

    Returns (number of results compared, [(chunk, chunks, operation, case, count)], [inconclusive])."""
    fa, fb, nq, nt, eq, et = DIFF[prop]
    n, extra = (nq, eq) if tier == "quick" else (nt, et)
    exes = {f: build(f, os.path.join(bdir, f)) for f in (fa, fb)}

    def job(k):
        recs, names = [], []
        for f, fill in ((fa, "255"), (fb, "85")):
            dig = os.path.join(bdir, f"{f}.{k}.digest")
            cmd = [exes[f], prop, "--tier", tier, "--seed", str(seed), "--chunk", str(k), "--chunks", str(n), "--out", dig + ".json", "--digest", dig, *extra]
            try:
                r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, MALLOC_PERTURB_=fill), timeout=TIMEOUT[tier])
            except subprocess.TimeoutExpired:
                return k, None, "wall clock limit"
            if r.returncode or not os.path.exists(dig + ".ops"):
                return k, None, f"{f} exit {r.returncode} {r.stderr[-800:].decode(errors='replace')}"
            v = array.array("Q")
            v.frombytes(open(dig, "rb").read())
            recs.append(v)
            names = open(dig + ".ops").read().split("\n")
            for x in (dig, dig + ".ops", dig + ".json", dig + ".json.cov"):
                if os.path.exists(x):
                    os.unlink(x)
        x, y = recs
        found = {}
        if x != y:
            for i in range(0, min(len(x), len(y)), 2):
                if x[i] != y[i]:
                    break
                if x[i + 1] != y[i + 1]:
                    f = found.setdefault(names[x[i] & 65535], [x[i] >> 16, 0])
                    f[1] += 1
            if not found:
                return k, None, "the two runs do not show the same cases"
        return k, (len(x) // 2, found), ""

    total, diffs, inconcl = 0, [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for k, res, err in ex.map(job, [only] if only is not None else range(n)):
            if res is None:
                inconcl.append(f"{fa}/{fb} chunk {k}: {err}")
                continue
            total += res[0]
            diffs += [(k, n, op, case, cnt) for op, (case, cnt) in res[1].items()]
    return total, diffs, inconcl


def summary_of_crash(text):
    m = re.search(r"runtime error: [^\n]*|AddressSanitizer: [^\n]*|ThreadSanitizer: [^\n]*|Assertion[^\n]*|==\d+== [A-Z][^\n]*|VH-TERMINATE[^\n]*", text)
    s = m.group(0) if m else text.strip().split("\n")[0]
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?/ColorMagic/[^\n]*)|(?:at|by) 0x[0-9A-F]+: ([^\n]*)", text)
    loc = next((a or b for a, b in fr), "")
    site = re.search(r"VH-(?:DEATH|TERMINATE|HANG) prop=\S+ site=(.*?) case=(\d+)", text)
    return s[:200], loc[:160], (site.group(1) if site else "?")


def known_findings():
    res = set()
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) id=(\S+)", l)
        if m:
            res.add((m.group(1), m.group(2)))
    return res


def main():
    a = sys.argv[1:]
    if not a:
        die("usage: check.py PROP")
    if a[0] == "--setup":  # nothing is kept between runs; only checks that the tools are there
        r = subprocess.run(["clang++-18", "--version"], capture_output=True)
        return 0 if r.returncode == 0 and shutil.which("valgrind") else 2
    prop, tier, seed, replay = a[0], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1), None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        replay = json.load(open(a[a.index("--replay") + 1]))
        prop, tier, seed = replay["property"], replay["tier"], replay["seed"]
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", f"{prop}.{os.getpid()}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    try:
        return body(prop, tier, seed, replay, bdir, t0, a)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def body(prop, tier, seed, replay, bdir, t0, a):
    if prop not in STAGES:
        die("unknown property " + prop)
    viol, known, events, samples, inconcl = [], {}, {}, [], []
    evals = ill = races = 0
    distinct, rss, typed, rule, procs = set(), 0, True, "", 0
    for si, (flavour, nq, nt, extra, runner) in enumerate(STAGES[prop]):
        if replay and replay["stage"] != si:
            continue
        exe = build(flavour, os.path.join(bdir, flavour))
        if "--build-only" in a:
            continue
        n = nq if tier == "quick" else nt
        if tier == "quick" and prop in QUICK_LOAD:
            extra = [*extra, "--load", str(QUICK_LOAD[prop])]
        chunks = [replay["chunk"]] if replay else list(range(n))
        if replay:
            n = replay["chunks"]
        par = JOBS if flavour != "tsan" else 2

        def job(k):
            out = os.path.join(bdir, f"{flavour}.{k}.json")
            kind, d = run_one(flavour, exe, prop, tier, seed, k, n, extra, runner, out)
            if kind in ("hang", "inconclusive"):  # once more before anything is said
                kind, d = run_one(flavour, exe, prop, tier, seed, k, n, extra, runner, out)
            return k, kind, d, out

        with cf.ThreadPoolExecutor(par) as ex:
            for k, kind, d, out in ex.map(job, chunks):
                procs += 1
                where = {"property": prop, "tier": tier, "seed": seed, "stage": si, "flavour": flavour, "chunk": k, "chunks": n}
                if kind == "inconclusive":
                    inconcl.append(f"{flavour} chunk {k}: {d}")
                    continue
                if kind == "crash":
                    s, loc, site = summary_of_crash(d)
                    viol.append(dict(where, site="crash " + s, msg=f"{s} at {loc} during '{site}'", detail=d))
                    continue
                if kind == "hang":
                    s, loc, site = summary_of_crash(d)
                    viol.append(dict(where, site="hang in " + site, msg=f"an operation did not return within 40 s of CPU time during '{site}'", detail=d))
                    continue
                evals += d["evals"]; ill += d["illconditioned"]; rss = max(rss, d["maxrss_kb"]); typed = typed and d["typed"]; rule = d["rule"]
                for e, c in d["events"].items():
                    events[e] = events.get(e, 0) + c
                if len(samples) < 40:
                    samples += d["samples"][:: max(1, len(d["samples"]) // 5)]
                raw = open(out + ".cov", "rb").read()
                distinct.update(raw[i:i + 8] for i in range(0, len(raw), 8))
                os.unlink(out + ".cov")
                for v in d["viols"]:
                    viol.append(dict(where, **v))
                if d["races"]:
                    races += d["races"]
                    rep = d["stderr"]
                    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", rep)
                    fr = re.findall(r"#\d+ ([^\n]*?/ColorMagic/[^\n]*?) \(vh", rep)
                    viol.append(dict(where, site="race " + (m.group(1).strip() if m else ""), msg=f"{d['races']} reports; {' / '.join(fr[:2])[:300]}", detail=rep))
                for v in d["known"]:
                    q = known.setdefault(v["site"], dict(where, **v))
                    q["total"] = q.get("total", 0) + v["count"]
    if prop in DIFF and "--build-only" not in a and (not replay or replay["stage"] == len(STAGES[prop])) and not viol:
        total, diffs, bad = differential(prop, tier, seed, bdir, replay["chunk"] if replay else None)
        evals += total
        events["results compared between differently filled memories"] = total
        inconcl += bad
        for k, n, op, case, cnt in diffs:
            viol.append({"property": prop, "tier": tier, "seed": seed, "stage": len(STAGES[prop]), "flavour": "zeros/pattern", "chunk": k, "chunks": n, "case": case, "count": cnt,
                         "site": op + " uses an uninitialised value", "msg": f"the result depends on what unwritten memory holds (case {case}, {cnt} cases in this process)"})
    if "--build-only" in a:
        return 0
    listed = known_findings()
    kf = []
    for i, v in sorted(known.items()):
        if (prop, i) in listed:
            kf.append((i, v))
        else:
            viol.append(dict(v, site="unlisted deviation " + i))
    if not viol and not inconcl and (evals == 0 or not events):
        die(f"{prop}: nothing was observed")
    # one violation line per site
    sites = {}
    for v in viol:
        s = sites.setdefault(v["site"], v)
        s["occurrences"] = s.get("occurrences", 0) + v.get("count", 1)
    lines = []
    for s, v in sites.items():
        name = os.path.join("replay", f"{prop}-{hashlib.md5((s + str(seed)).encode()).hexdigest()[:8]}.json")
        json.dump(v, open(os.path.join(VERIF, name), "w"), indent=1)
        lines.append((name, s, v))
    if not replay:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": rule, "samples": samples[:40] or ["none"],
                           "events": dict(sorted(events.items())), "observed_events_total": sum(events.values()), "sites_observed": len(events),
                           "processes": procs, "ill_conditioned": ill, "race_reports": races, "direct_conversions_reached": typed,
                           "known_findings_observed": {i: v["total"] for i, v in kf}, "inconclusive": inconcl, "max_rss_kb": rss},
              "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(sites)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for i, v in kf:
        print(f"KNOWN-FINDING: property={prop} {i}: {v['total']} occurrences, e.g. {v['msg']}"[:600])
    for name, s, v in lines[:40]:
        print(f"VIOLATION property={prop} replay={name}")
        print(f"  {s}: {v['msg']}"[:700])
    if len(lines) > 40:
        print(f"  ... and {len(lines) - 40} more sites")
    print(f"{prop} {tier} seed={seed}: {evals} evaluations, {len(distinct)} distinct, {sum(events.values())} monitored events at {len(events)} sites, {len(sites)} violated sites, {time.time() - t0:.1f} s")
    if lines:
        return 1
    if inconcl:
        die(f"{prop}: inconclusive: {inconcl[0][:1500]}")
    return 0


sys.exit(main())
