"""python check.py PID [quick|thorough]   |   python check.py --replay FILE

Runs every contract of a property: the symbolic reading discharges the obligations generated from
/repo/python/src as it is now; the concrete reading executes the same contract on the real code (replay of
counterexamples; bounded stand-in where an obligation is not discharged)."""
import sys, os, time, json, importlib, multiprocessing as mp, traceback, hashlib, resource, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(REPO, "python"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
os.environ.setdefault("VC_SRC", os.path.join(REPO, "python", "src"))
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ[v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")

SEED = int(os.environ.get("VERIF_SEED", "1"))
TRUSTED = ["vc/ (loader, term rewriting, models of numpy/scipy/sympy calls)", "z3 4.x (integer and real side conditions, path feasibility)", "CPython's ast module"]

def contracts_of(pid):
    importlib.import_module("contracts." + pid.lower())
    from vc import world
    return world.CONTRACTS.get(pid, [])

def limits(mem_gb):
    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VC_DEBUG"): os.dup2(devnull, 2)

class Hang(Exception): pass

def guarded(secs, f, *a):
    """run f with a wall-clock limit (the code under test may not terminate)"""
    def boom(*_): raise Hang()
    old = signal.signal(signal.SIGALRM, boom); signal.alarm(secs)
    try: return f(*a)
    except Hang: return "hang", f"no result within {secs} s", None
    finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)

def job(pid, ci, case, mode, tier, conn):
    try:
        limits(6)
        from vc.ctx import Ctx
        from vc import world, loader, prove
        Ctx.cur = Ctx()
        ct = contracts_of(pid)[ci]
        thorough = tier == "thorough"
        if mode == "sym":
            t0 = time.time()
            try: pkg = loader.Package(os.environ["VC_SRC"])
            except Exception as e:
                conn.send(dict(kind="unsupported", err=f"loading: {type(e).__name__}: {e}", obs=[], paths=0, queries=0, solver_time=0, wall=0, conf=(0, []))); return
            r = world.run_sym(ct, case, pkg, SEED, ct.secs * (3 if thorough else 1))
            out = dict(kind=r["kind"], err=r["err"], paths=r["paths"], queries=r["queries"], solver_time=r["solver_time"], funcs=sorted(loader.FUNCS))
            obs = []; n = 0
            for o in r["obs"]:
                d = o.json()
                if o.status == "refuted":
                    d["inst"], d["exc"] = o.inst, o.exc
                    if o.inst is not None and ct.conc and n < 12:
                        n += 1
                        k, txt, w = guarded(60, world.run_conc, ct, case, world.load_inst(o.inst))
                        d["replay"] = [k, str(txt)[:1500]]
                obs.append(d)
            out["obs"] = obs
            cn, cb = 0, []
            if ct.conc and r["kind"] == "done":
                for sd in range(4 if thorough else 2):
                    a, b = world.conform(ct, case, r, SEED * 7919 + sd)
                    cn += a; cb += b
            out["conf"] = (cn, cb[:5]); out["wall"] = time.time() - t0
            conn.send(out)
        else:
            t0 = time.time(); n = 0; checks = 0; skip = 0; bad = None; harness = None; sample = None
            total = ct.seeds * (25 if thorough else 1)
            for sd in range(total):
                if time.time() - t0 > (400 if thorough else 60): break
                inst = prove.Instance(SEED * 100003 + sd, {})
                k, d, w = guarded(60, world.run_conc, ct, case, inst)
                if k == "ok":
                    n += 1; checks += d
                    if sample is None: sample = dict(contract=ct.name, case=str(case), ints=dict(inst.ints), inputs={a: (b if isinstance(b, (int, float)) else repr(b)[:160]) for a, b in list(w.inputs.items())[:8]}, checks=d)
                elif k == "skip": skip += 1
                elif k == "fail": bad = (d, world.dump_inst(inst)); break
                else: harness = d; break
            conn.send(dict(kind="conc", n=n, checks=checks, skip=skip, bad=bad, harness=harness, sample=sample, wall=time.time() - t0))
    except MemoryError:
        conn.send(dict(kind="unsupported", err="memory limit", obs=[], paths=0, queries=0, solver_time=0, wall=0, conf=(0, [])) if mode == "sym" else dict(kind="conc", n=0, checks=0, skip=0, bad=None, harness="memory limit", sample=None, wall=0))
    except BaseException as e:
        t = "".join(traceback.format_exception(e))[-1500:]
        conn.send(dict(kind="unsupported", err="verifier error: " + t, obs=[], paths=0, queries=0, solver_time=0, wall=0, conf=(0, [])) if mode == "sym" else dict(kind="conc", n=0, checks=0, skip=0, bad=None, harness=t, sample=None, wall=0))
    finally: conn.close()

def run_jobs(jobs, nproc=8):
    """jobs: [(key, args, hard limit)] -> {key: result}"""
    ctxm = mp.get_context("fork")
    todo = list(jobs); live = []; res = {}
    while todo or live:
        while todo and len(live) < nproc:
            key, args, lim = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=job, args=args + (b,), daemon=True); p.start(); b.close()
            live.append((key, p, a, time.time() + lim))
        for x in list(live):
            key, p, a, end = x
            if a.poll(0.02):
                try: res[key] = a.recv()
                except EOFError: res[key] = None
                p.join(5)
                if p.is_alive(): p.kill()
                live.remove(x)
            elif not p.is_alive() and not a.poll(0):
                res[key] = None; live.remove(x)
            elif time.time() > end:
                p.kill(); p.join(); res[key] = None; live.remove(x)
    return res

def known_findings():
    try: return json.load(open(os.path.join(HERE, "known-findings.json")))
    except FileNotFoundError: return []

def main(pid, tier):
    t0 = time.time()
    cts = contracts_of(pid)
    jobs = []
    for ci, ct in enumerate(cts):
        for case in ct.cases:
            if ct.sym: jobs.append(((ci, repr(case), "sym"), (pid, ci, case, "sym", tier), ct.secs * (3 if tier == "thorough" else 1) + 240))
            if ct.conc: jobs.append(((ci, repr(case), "conc"), (pid, ci, case, "conc", tier), 560 if tier == "thorough" else 150))
    jobs.sort(key=lambda j: (j[0][2] != "sym", -cts[j[0][0]].secs))
    res = run_jobs(jobs)
    violations = []; undecided = []; funcs = {}; tot = dis = 0; solver = 0.0; queries = 0; confn = 0; evals = 0; nchecks = 0; samples = []; assumptions = set(); perc = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    def replay_file(ct, case, label, inst, text, extra=None):
        h = hashlib.sha1(f"{ct.name}|{case}|{label}".encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", f"{pid}-{h}.json")
        json.dump(dict(property=pid, contract=ct.name, case=case, obligation=label, instance=inst, what=text, verifier=extra,
                       how=f"bash run.sh --replay {os.path.relpath(path, HERE)}"), open(path, "w"), indent=1, default=str)
        return path
    for ci, ct in enumerate(cts):
        for a in ct.notes: assumptions.add(a)
        for case in ct.cases:
            s = res.get((ci, repr(case), "sym")) if ct.sym else None
            k = res.get((ci, repr(case), "conc")) if ct.conc else None
            name = ct.name + (f" [{case}]" if case is not None else "")
            proved = None
            if ct.sym:
                if s is None: undecided.append(f"{name}: verifier killed at its limit"); proved = False
                else:
                    solver += s["solver_time"]; queries += s["queries"]; confn += s["conf"][0]
                    proved = s["kind"] == "done" and s["paths"] > 0 and len(s["obs"]) > 0 and not s["conf"][1]
                    if s["kind"] != "done": undecided.append(f"{name}: {s['kind']}: {s['err'][-300:]}")
                    elif not s["paths"] or not s["obs"]: undecided.append(f"{name}: vacuous ({s['paths']} paths)")
                    if s["conf"][1]: undecided.append(f"{name}: terms disagree with the real code: {s['conf'][1][0]}")
                    for o in s["obs"]:
                        tot += 1
                        if o["status"] == "proved": dis += 1; continue
                        proved = False
                        rp = o.get("replay")
                        if rp and rp[0] == "fail":
                            violations.append((replay_file(ct, case, o["label"], o["inst"], rp[1], o), f"{name}: {o['label']}: {rp[1].splitlines()[0]}", True)); continue
                        what = f"{name}: {o['label']}: {o['status']} {o['detail'][:200]}" + (f" (on the real code: {rp[0]})" if rp else "")
                        # an obligation the verifier does not discharge is the violation, unless the verifier itself is in doubt:
                        # its clock ran out, its model of a call raised, or its terms disagree with a run of the real code
                        if s["kind"] == "done" and not s["conf"][1] and not o["starved"] and not o.get("exc"):
                            violations.append((replay_file(ct, case, o["label"], o.get("inst"), o["detail"], o), what, False))
                        else: undecided.append(what)
            if ct.conc:
                if k is None: undecided.append(f"{name}: concrete run killed at its limit")
                else:
                    evals += k["n"]; nchecks += k["checks"]
                    if k["sample"] and len(samples) < 4: samples.append(k["sample"])
                    if k["bad"]:
                        violations.append((replay_file(ct, case, "concrete run", k["bad"][1], k["bad"][0]), f"{name}: {k['bad'][0].splitlines()[0]}", True))
                    if k["harness"]: undecided.append(f"{name}: concrete run: {k['harness'][-300:]}")
                    elif not k["n"] and not k["bad"]: undecided.append(f"{name}: no concrete instance satisfied the precondition")
            for f in (s or {}).get("funcs", []) or ct.funcs: funcs.setdefault(f, []).append("proved" if proved else "bounded")
            perc.append(dict(contract=name, status="proved" if proved else ("bounded" if k and k["n"] else "undecided"),
                             obligations=len(s["obs"]) if s else 0, discharged=sum(o["status"] == "proved" for o in s["obs"]) if s else 0, paths=s["paths"] if s else 0,
                             seconds=round((s or {}).get("wall", 0), 2), runs=k["n"] if k else 0, run_checks=k["checks"] if k else 0))
    # known findings: shown as long as the real code still exhibits them
    from vc import world
    mod = sys.modules["contracts." + pid.lower()]
    for kf in known_findings():
        if kf.get("property") != pid or kf.get("status") != "open": continue
        fn = getattr(mod, "finding_" + kf["id"].lower(), None)
        try: still = fn() if fn else True
        except Exception as e: still = True
        if still: print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    real = [v for v in violations if v[2]]
    seen = set()
    for path, text, ok in (real or violations):
        if path in seen: continue
        seen.add(path)
        print(f"# {text[:600]}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if ok else " no-failing-input-found"))
    mani = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]} if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {}
    level = mani.get(pid, {}).get("level", "proof")
    nproved = sum(p["status"] == "proved" for p in perc)
    cov = dict(obligations=tot, discharged=dis, checker_cmd=f"bash run.sh {pid} {tier}", trusted_base=TRUSTED,
               contracts=perc, contracts_proved=nproved, contracts_bounded=sum(p["status"] == "bounded" for p in perc),
               functions_under_contract=sorted(f for f, v in funcs.items() if "proved" in v), functions_bounded=sorted(f for f, v in funcs.items() if "proved" not in v),
               solver_queries=queries, solver_seconds=round(solver, 3), conformance_comparisons=confn,
               evaluations=evals, distinct_nontrivial=evals, rule="concrete runs of each contract on the real code: random sizes and values, every assertion of the contract evaluated; a run counts when its preconditions hold and it evaluates at least one assertion",
               run_checks=nchecks, samples=samples, undecided=undecided[:40],
               explanation=f"{nproved} of {len(perc)} contract instances discharged for all inputs; the others ran as bounded checks on the real code")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
                   assumptions=sorted(assumptions) + ["real arithmetic stands for floating point", "matrices that the code inverts are invertible; divisors do not vanish"],
                   violations=len(seen)), open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid} {tier}: {dis}/{tot} obligations discharged, {nproved}/{len(perc)} contract instances proved, {evals} concrete runs ({nchecks} checks), {confn} conformance comparisons, {time.time() - t0:.1f} s")
    for u in undecided[:12]: print("UNDECIDED " + u.replace("\n", " | ")[:500])
    return 1 if seen else 0

def replay(path):
    d = json.load(open(path))
    from vc.ctx import Ctx
    from vc import world
    Ctx.cur = Ctx()
    ct = [c for c in contracts_of(d["property"]) if c.name == d["contract"]][0]
    case = d["case"]
    for c in ct.cases:
        if json.loads(json.dumps(c, default=str)) == case: case = c
    if d["instance"] is None: print("no instance:", d["what"]); return 1
    k, txt, w = world.run_conc(ct, case, world.load_inst(d["instance"]))
    print(k, txt)
    return 1 if k == "fail" else 0

if __name__ == "__main__":
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
