"""check <property> [--tier quick|thorough]: compile /repo's current sources with the contracts, discharge every
obligation, replay counterexamples natively, write evidence."""
import argparse
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import multiprocessing as mp
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build


# needed by static initialisers of headers that every contract includes
BASE_N = ["parser_library/src/checking/instr_operand.cpp", "parser_library/src/diagnostic.cpp", "parser_library/src/ebcdic_encoding.cpp"]


def parse_harness(h):
    src, nsrc, opts, notes = [], [], {}, []
    for l in open(os.path.join(VERIF, "harness", h)):
        m = re.match(r"// SRC: (.*)", l)
        if m:
            src += m.group(1).split()
        m = re.match(r"// NSRC: (.*)", l)
        if m:
            nsrc += m.group(1).split()
        m = re.match(r"// IRINC: (.*)", l)
        if m:
            opts.setdefault("irinc", []).extend(os.path.join(VERIF, x) for x in m.group(1).split())
        m = re.match(r"// OPT ([\w*]+): (.*)", l)
        if m:
            d = opts.setdefault(m.group(1), {})
            for kv in m.group(2).split():
                k, v = kv.split("=", 1)
                d[k] = int(v) if re.fullmatch(r"-?\d+", v) else v
        m = re.match(r"// CASES (\S+): (.*)", l)
        if m:
            opts.setdefault("cases", []).append((m.group(1), m.group(2)))
        m = re.match(r"// NOTE: (.*)", l)
        if m:
            notes.append(m.group(1))
    txt = open(os.path.join(VERIF, "harness", h)).read()
    entries = re.findall(r"^VP_ENTRY\((\w+)\)", txt, re.M)
    return src, nsrc, opts, notes, entries


def run_engine(mods, entry, opts):
    import engine

    e = engine.Engine(mods, opts)
    why = None
    try:
        e.run_entry("vp_entry_" + entry)
    except engine.Unsupported as x:
        why = "unsupported: " + str(x)[:300]
    except RecursionError:
        why = "recursion"
    except MemoryError:
        why = "memory"
    except z3exc() as x:
        why = "solver: " + str(x)[:200]
    except Exception as x:
        why = "internal: " + repr(x)[:200] + " " + traceback.format_exc()[-600:]
    return e, why


def z3exc():
    import z3

    return z3.Z3Exception


def summarize(e, why):
    obs = e.obligations
    per = {}
    for o in obs:
        per.setdefault(o["name"], []).append(o["status"])
    return {
        "why": why,
        "n": len(obs),
        "proved": sum(o["status"] == "proved" for o in obs),
        "unknown": [o for o in obs if o["status"] == "unknown"],
        "failed": [o for o in obs if o["status"] == "fail"],
        "names": sorted(per),
        "covers": e.covers,
        "solver_s": round(e.solver_time, 2),
        "queries": e.nq,
        "steps": e.steps,
        "paths": e.paths,
        "cvc5": getattr(e, "cvc5_used", 0),
        "inlined": sorted(e.short(n) for n in e.inlined),
        "modelled": sorted(e.short(n) for n in e.modelled),
        "contracts_used": sorted(e.contracts_used),
        "assumptions": sorted(e.models.assumptions),
        "loops": e.loops_cut,
        "cutoff": getattr(e, "cutoff", 0),
        "done": getattr(e, "done_paths", 0),
    }


def write_inputs(path, cex, extra):
    with open(path, "w") as f:
        for l in extra:
            f.write("# " + l.replace("\n", "\n# ") + "\n")
        for name, k, v in cex or []:
            if k == "int":
                f.write(f"IN int {name} {v}\n")
            else:
                f.write(f"IN {k} {name} " + " ".join(str(x) for x in v) + "\n")


def _lift():
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def native(exe, args, tmo):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=9:allocator_may_return_null=1:symbolize=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=9"
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=tmo, env=env, errors="replace", preexec_fn=_lift)
    except subprocess.TimeoutExpired:
        return None, "timeout", ""
    return r.returncode, r.stdout, r.stderr


def is_failure(rc, out):
    """did a native replay reproduce a violation?"""
    if rc is None or rc in (0, 2, 4, 77):
        return None
    m = re.search(r"^FAIL (.*)$", out, re.M)
    if m:
        return m.group(1)
    return "runtime error (sanitizer or signal, rc=%s)" % rc


def work(job):
    (h, entry, lls, exe, opts, tier, outdir, seed, deadline) = job
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, resource.RLIM_INFINITY))
    sys.setrecursionlimit(20000)
    import ir

    t0 = time.time()
    res = {"harness": h, "entry": entry, "status": "undecided", "violation": None}
    kf = entry.startswith("kf_")
    left = lambda: max(5, deadline - time.time())
    mode = opts.get("mode", "proof")
    tmo = 20000 if tier == "quick" else 120000
    mods = None
    proof = None
    cexs = []
    eo = {"timeout": tmo, "wall": min(opts.get("wall", 120), left() - 60) if tier == "quick" else 1500}
    for k in ("unroll", "shortloop", "max_paths", "inline_limit", "use"):
        if opts.get(k):
            eo[k] = opts[k]
    if not kf:
        mods = [ir.Module(open(f).read(), f) for f in lls]
    if not kf and mode == "proof":
        e, why = run_engine(mods, entry, eo)
        proof = summarize(e, why)
        aux = [o for o in proof["failed"] if o["name"].startswith("aux:")]
        weak = [o for o in proof["failed"] if o.get("approx") or o.get("cut")]
        hard = [o for o in proof["failed"] if not o["name"].startswith("aux:") and not o.get("approx") and not o.get("cut")]
        cexs += [(o, "proof") for o in proof["failed"] if o.get("cex") is not None]
        vac = [c for c, ok in proof["covers"].items() if not ok] or (proof["done"] == 0)
        if why is None and not proof["failed"] and not proof["unknown"] and not vac and proof["n"]:
            res["status"] = "bounded" if opts.get("cases") else "proved"
            res["cases"] = opts.get("cases")
        res["hard"] = [{k: v for k, v in o.items() if k != "cex"} for o in hard]
        res["vacuous"] = bool(vac)
        proof["failed"] = [{k: v for k, v in o.items() if k != "cex"} for o in proof["failed"]]
    res["proof"] = proof
    t1 = time.time()
    res["t_proof"] = round(t1 - t0, 2)

    def confirm(lst):
        for o, src in lst[:12]:
            f = os.path.join(outdir, f"{entry}.{src}.in")
            write_inputs(f, o["cex"], [f"harness {h} entry {entry}", f"failed obligation: {o['name']} at {o['where']} ({src})"])
            rc, out, err = native(exe, [entry, "replay", f], 60)
            w = is_failure(rc, out)
            if w:
                res["violation"] = {"obligation": o["name"], "observed": w, "input": open(f).read(), "native": out[-3000:] + err[-3000:], "by": src}
                return True
        return False

    if exe:
        if cexs and confirm(cexs):
            res["status"] = "violated"
    if res["status"] == "undecided" and not kf and mode != "native":
        bo = dict(eo)
        bo.update({"bounded": opts.get("bound", 12), "strcap": opts.get("strcap", 4) + (2 if tier != "quick" else 0), "wall": min(opts.get("bwall", 60), left()) if tier == "quick" else 1200, "timeout": 10000})
        e, why = run_engine(mods, entry, bo)
        b = summarize(e, why)
        lst = [(o, "bounded") for o in b["failed"] if o.get("cex") is not None and not o["name"].startswith("aux:")]
        bhard = [o for o in b["failed"] if not o["name"].startswith("aux:") and not o.get("approx")]
        res["hard"] = (res.get("hard") or []) + [{k: v for k, v in o.items() if k != "cex"} for o in bhard]
        b["failed"] = [{k: v for k, v in o.items() if k != "cex"} for o in b["failed"]]
        b["bound"] = f"strings/vectors of symbolic content up to length {bo['strcap']}, symbolic loops up to {bo['bounded']} iterations"
        b["complete"] = why is None and not b["unknown"]
        res["bounded"] = b
        if exe and lst and confirm(lst):
            res["status"] = "violated"
        elif not b["failed"] and b["n"]:
            res["status"] = "bounded"
    # native search: confirms unreproduced failures; otherwise a cheap cross check of the trusted models
    if exe and res["status"] != "violated":
        secs = opts.get("secs", 3) if tier == "quick" else 60
        if res["status"] == "undecided":
            secs = max(secs, 25)
        if kf:
            secs = 1
        rc, out, err = native(exe, [entry, "search", seed, secs, 10_000_000], secs + 120)
        m = re.search(r"RUNS (\d+) REJECTED (\d+) DISTINCT (\d+)", out or "")
        res["search"] = {"runs": int(m.group(1)), "rejected": int(m.group(2)), "distinct": int(m.group(3))} if m else {"note": (out or "")[-200:]}
        if "UNRESOLVED" in (out or ""):
            res["search"]["note"] = "unresolved symbol reached"
        m = re.search(r"FOUND (\d+) (.*)", out or "")
        if m:
            rc2, out2, err2 = native(exe, [entry, "one", seed, m.group(1)], 60)
            w = is_failure(rc2, out2)
            if w:
                res["violation"] = {"obligation": w, "observed": w, "input": "\n".join(l for l in out2.split("\n") if l.startswith("IN ")), "native": out2[-3000:] + err2[-3000:], "by": "search"}
                res["status"] = "violated"
        if res["status"] == "undecided" and not res.get("hard") and res["search"].get("distinct", 0) > 100 and not (res.get("bounded") or {}).get("failed"):
            res["status"] = "bounded"
    if res["status"] == "undecided" and res.get("hard"):
        res["status"] = "violated-unreplayed"
    res["t"] = round(time.time() - t0, 2)
    return res


def _worker(job, q):
    try:
        q.put(work(job))
    except BaseException as x:
        q.put({"harness": job[0], "entry": job[1], "status": "undecided", "violation": None, "error": repr(x)[:300] + traceback.format_exc()[-800:]})


def run_jobs(jobs, nproc, deadline):
    """process pool that survives killed workers"""
    out = []
    pend = list(jobs)
    run = []
    while pend or run:
        while pend and len(run) < nproc:
            j = pend.pop(0)
            q = mp.Queue()
            p = mp.Process(target=_worker, args=(j, q))
            p.start()
            run.append((p, q, j))
        time.sleep(0.05)
        for t in list(run):
            p, q, j = t
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:
                        r = {"harness": j[0], "entry": j[1], "status": "undecided", "violation": None, "error": f"worker ended rc={p.exitcode}"}
                elif time.time() > deadline + 20:
                    p.kill()
                    r = {"harness": j[0], "entry": j[1], "status": "undecided", "violation": None, "error": "deadline"}
            if r is not None:
                run.remove(t)
                p.join(5)
                out.append(r)
                if os.environ.get("VP_VERBOSE"):
                    print(f"  {r['entry']:32s} {r['status']:12s} t={r.get('t')} proof={r.get('t_proof')} " + ((r.get('proof') or {}).get('why') or '') + str([(o['name'], o['where'][-100:]) for o in ((r.get('proof') or {}).get('failed') or [])][:4]) + str(((r.get('proof') or {}).get('unknown') or [])[:2]) + " B:" + str((r.get('bounded') or {}).get('why')) + str(r.get("search")) + (r.get("error") or ""), flush=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = json.load(open(os.path.join(VERIF, "props.json")))
    P = props[a.prop]
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    deadline = t0 + (780 if tier == "quick" else 5400)
    scratch = tempfile.mkdtemp(prefix="vp_" + a.prop + "_")
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    results, errors, notes = [], [], []
    try:
        jobs = []
        import concurrent.futures as cf

        def prep(u):
            h = u["h"]
            src, nsrc, opts, nts, entries = parse_harness(h)
            d = os.path.join(scratch, h)
            if u.get("entries"):
                entries = [e for e in entries if any(re.fullmatch(x, e) for x in u["entries"])]
            if a.only:
                entries = [e for e in entries if re.fullmatch(a.only, e)]
            lls = exe = None
            err = []
            with cf.ThreadPoolExecutor(1) as ex2:
                fut = ex2.submit(build.compile_ir, ["harness/" + h] + ["rt/rt.cpp"] + src, d + "/ir", [y for x in opts.get("irinc", []) for y in ("-include", x)])
                exe, err = nat(h, src, nsrc, d, err)
                try:
                    lls = fut.result()
                except build.BuildError as x:
                    err.append("IR: " + str(x)[-1500:])
            return h, opts, nts, entries, lls, exe, err

        def nat(h, src, nsrc, d, err):
            exe = None
            try:
                exe = build.compile_native(["harness/" + h, "rt/native.cpp"] + src + [x for x in nsrc + BASE_N if x not in src], d + "/n", d + "/exe")
            except build.BuildError as x:
                err.append("native: " + str(x)[-1500:])
            return exe, err

        with cf.ThreadPoolExecutor(4) as ex:
            for h, opts, nts, entries, lls, exe, err in ex.map(prep, P["units"]):
                errors += [f"{h}: {x}" for x in err]
                notes += nts
                for en in entries:
                    o = dict(opts.get("*", {}))
                    o.update(opts.get(en, {}))
                    o["cases"] = next((t for rx, t in opts.get("cases", []) if re.fullmatch(rx, en)), None)
                    if lls is None:
                        o["mode"] = "native"
                    if lls is None and exe is None:
                        results.append({"harness": h, "entry": en, "status": "undecided", "violation": None, "error": "does not compile"})
                        continue
                    jobs.append((h, en, lls or [], exe, o, tier, scratch, seed, deadline))
        tb = time.time()
        jobs.sort(key=lambda j: -j[4].get("prio", 0))
        results += run_jobs(jobs, 8, deadline)
        viol = []
        kfl = [k for k in known if k["property"] == a.prop and k["kind"] == "known"]
        for r in results:
            if r["status"] not in ("violated", "violated-unreplayed"):
                continue
            k = [k for k in kfl if k["entry"] == r["entry"]]
            if k and r["entry"].startswith("kf_"):
                print(f"KNOWN-FINDING: property={a.prop} {k[0]['what']}")
                r["status"] = "known-finding"
                continue
            rp = os.path.join(VERIF, "evidence", "replay", f"{a.prop}_{r['entry']}.txt")
            v = r["violation"]
            with open(rp, "w") as f:
                f.write(f"property {a.prop}\nharness harness/{r['harness']} entry {r['entry']}\n")
                if v:
                    f.write(f"failed obligation: {v['obligation']}\nobserved on the real code: {v['observed']}\nfound by: {v['by']}\n")
                    f.write(f"replay: build the harness natively (vp/replay.sh {a.prop} {r['entry']} <this file>)\n\n{v['input']}\n\n--- native run\n{v['native']}\n")
                else:
                    f.write("failed obligations (no failing input found):\n" + json.dumps(r.get("hard"), indent=1) + "\n")
            viol.append((r, rp))
        for r, rp in viol:
            print(f"VIOLATION property={a.prop} replay={rp}" + ("" if r["violation"] else " no-failing-input-found"))
        proved = [r for r in results if r["status"] == "proved"]
        real = [r for r in results if not r["entry"].startswith("kf_")]
        bounded = [r for r in results if r["status"] == "bounded"]
        und = [r for r in results if r["status"] == "undecided"]
        nob = sum(r["proof"]["n"] for r in results if r.get("proof"))
        ndis = sum(r["proof"]["proved"] for r in results if r.get("proof"))
        inl, mod, ass = set(), set(), set()
        for r in results:
            for k in ("proof", "bounded"):
                if r.get(k):
                    inl.update(r[k]["inlined"])
                    mod.update(r[k]["modelled"])
                    ass.update(r[k]["assumptions"])
        inrepo = sorted(x for x in inl if "hlasm_plugin" in x and not x.startswith("std::") and "__gnu_cxx" not in x.split("(")[0])
        cov = {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": f"python3-vt vp/runner.py {a.prop} --tier {tier}",
            "trusted_base": [
                "vp/ir.py, vp/engine.py: LLVM IR semantics of the verifier (clang 18 -O0 IR of /repo's current sources)",
                "vp/stl.py: models of std::string, std::vector<integer>, string_view search, ctype (C locale), allocation",
                "z3 " + __import__("z3").get_version_string() + ", cvc5 1.1.2",
            ],
            "functions_under_contract": inrepo,
            "library_functions_modelled": sorted(mod)[:200],
            "entries_proved": [r["entry"] for r in proved],
            "entries_bounded": [{"entry": r["entry"], "bound": r.get("cases") or (r.get("bounded") or {}).get("bound", "native search only"), "complete": bool(r.get("cases")) or (r.get("bounded") or {}).get("complete", False), "paths": (r.get("bounded") or {}).get("paths"), "obligations": (r.get("proof" if r.get("cases") else "bounded") or {}).get("n", 0), "why_not_proved": (r.get("proof") or {}).get("why") or [o["name"] for o in ((r.get("proof") or {}).get("failed") or []) + ((r.get("proof") or {}).get("unknown") or [])][:5]} for r in bounded],
            "entries_undecided": [{"entry": r["entry"], "why": (r.get("proof") or {}).get("why") or r.get("error") or "unknown"} for r in und],
            "evaluations": sum((r.get("search") or {}).get("runs", 0) for r in results),
            "distinct_nontrivial": sum((r.get("search") or {}).get("distinct", 0) for r in results),
            "rule": "native executions of the same contracts on random inputs (cross-check of the trusted models); non-trivial: passed the preconditions with a new combination of drawn values",
            "solver_s": round(sum(r["proof"]["solver_s"] for r in results if r.get("proof")), 2),
            "queries": sum(r["proof"]["queries"] for r in results if r.get("proof")),
            "discharged_by_cvc5": sum(r["proof"]["cvc5"] for r in results if r.get("proof")),
            "per_entry": {r["entry"]: {"status": r["status"], "obligations": (r.get("proof") or {}).get("n", 0), "names": (r.get("proof") or r.get("bounded") or {}).get("names", []), "seconds": r.get("t"), "loops": (r.get("proof") or {}).get("loops", {}), "covers": (r.get("proof") or {}).get("covers", {})} for r in results},
            "build_errors": errors,
        }
        level = P.get("level", "proof")
        if level == "other" or und or (bounded and not proved):
            level = "other"
            cov["explanation"] = "part of the contracts is decided by a bounded symbolic unrolling / native search only (entries_bounded, entries_undecided); see entries_proved for what was discharged without a bound"
        ev = {
            "property": a.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": sorted(ass | set(notes) | set(P.get("assumptions", []))),
            "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        }
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{a.prop}: {len(real)} contracts: {len(proved)} proved, {len(bounded)} bounded, {len(und)} undecided, {len(viol)} violated; {ndis}/{nob} obligations discharged; {ev['wall_s']} s (build {tb-t0:.1f} s)")
        for x in errors:
            print("note: " + "\n".join(l for l in x.split("\n") if "error:" in l or "undefined" in l)[:1500])
        if viol:
            return 1
        if not results or all(r["status"] == "undecided" for r in real):
            print(f"{a.prop}: no contract could be decided")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
