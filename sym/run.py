"""Decide one property:  python3-vt -m sym.run C09 [--tier quick|thorough] [--case name]

Exit 0: every obligation in every case was shown by the solver (within the stated bounds).
Exit 1: a solver counterexample was confirmed by replaying it on the real code.
Exit 2: anything else (undecided, engine limits, model mismatch)."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"


def worker(a):
    prop, name, tier, seed = a
    sys.dont_write_bytecode = True
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)
    from . import env as E
    mod = importlib.import_module("harness." + prop.lower())
    case = next(c for c in mod.cases(tier) if c["name"] == name)
    t = time.time()
    try:
        return E.run_case(mod, case, tier, seed)
    except BaseException as e:
        import traceback
        return dict(case=name, error="engine: %s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-3000:], exc=[], paths=0, aborted=0,
                    decisions=0, divzero=0, cands=[], unknowns=[], stats={}, labels=[], functions={}, witnesses=[], solver={},
                    wall=time.time() - t, vars=0, known=case.get("known"))


class Conc:
    """pool of replay processes on the real build"""

    def __init__(self, prop, n):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")
        self.procs = [subprocess.Popen([VENV, os.path.join(VERIF, "sym", "conc.py"), prop], stdin=subprocess.PIPE,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=VERIF, env=env) for _ in range(n)]

    def map(self, reqs):
        res = [None] * len(reqs)
        lock = threading.Lock()
        todo = list(enumerate(reqs))

        def go(p):
            while True:
                with lock:
                    if not todo:
                        return
                    i, rq = todo.pop(0)
                try:
                    p.stdin.write(json.dumps(rq) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                    res[i] = json.loads(line)
                except Exception:
                    err = ""
                    try:
                        p.kill()
                        err = p.stderr.read()[-1500:]
                    except Exception:
                        pass
                    res[i] = dict(failed=[], obs={}, exc=None, error="replay process died: " + err, assumption=False)
                    return
        ths = [threading.Thread(target=go, args=(p,)) for p in self.procs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for i, r in enumerate(res):
            if r is None:
                res[i] = dict(failed=[], obs={}, exc=None, error="replay not run", assumption=False)
        return res

    def close(self):
        for p in self.procs:
            try:
                p.stdin.close()
                p.wait(10)
            except Exception:
                p.kill()


def close_to(a, b, rtol, atol):
    if isinstance(a, str) or isinstance(b, str):
        return False
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    t0 = time.time()
    prop = a.prop.upper()
    mod = importlib.import_module("harness." + prop.lower())
    tier = "thorough" if a.tier == "thorough" else "quick"
    cases = mod.cases(tier)
    if a.case:
        cases = [c for c in cases if c["name"].startswith(a.case)]
    conc = Conc(prop, min(4, max(1, len(cases))))          # starts importing torch in the background
    ctx = mp.get_context("fork")
    results = []
    with ctx.Pool(min(a.j, len(cases)), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(worker, [(prop, c["name"], tier, seed) for c in cases], chunksize=1):
            results.append(r)
            if a.v:
                print("  case %-28s paths=%d aborted=%d dec=%d checks=%s unk=%s cands=%d err=%s wall=%.1f" % (
                    r["case"], r["paths"], r["aborted"], r["decisions"], r["stats"], r["unknowns"], len(r["cands"]), r["error"], r["wall"]), flush=True)
                if r["error"] and r.get("tb"):
                    print(r["tb"])
                for e in r["exc"][:2]:
                    print("   EXC", e["msg"], e["where"], e["tb"][-1200:] if a.v else "")
    results.sort(key=lambda r: r["case"])
    # ---- replay
    reqs, what = [], []
    for r in results:
        for c in r["cands"]:
            for f64 in (False, True):
                reqs.append(dict(case=r["case"], assign=c["assign"], f64=f64))
                what.append(("cand", r, c, f64))
        for w in r["witnesses"]:
            for f64 in (False, True):
                reqs.append(dict(case=r["case"], assign=w["assign"], f64=f64))
                what.append(("wit", r, w, f64))
    reps = conc.map(reqs)
    conc.close()
    violations, problems, unconf = [], [], []
    validated = mism = 0
    samples = []
    by = {}
    for (kind, r, c, f64), rp in zip(what, reps):
        by.setdefault(id(c), {})[f64] = rp
    seen = set()
    mism_notes = []
    for (kind, r, c, f64), rp in zip(what, reps):
        if id(c) in seen:
            continue
        seen.add(id(c))
        r32, r64 = by[id(c)][False], by[id(c)][True]
        for x in (r32, r64):
            if x.get("error"):
                problems.append("%s: %s" % (r["case"], x["error"]))
        if kind == "cand":
            hit = None
            for x in (r32, r64):
                if x["assumption"]:
                    continue
                if x["exc"] and c["label"].startswith("exception"):
                    hit = x
                    break
                if c["label"] in x["failed"] or (x["failed"] and not c["label"].startswith("exception")):
                    hit = x
                    break
                if x["exc"]:
                    hit = x
                    break
            if hit:
                violations.append((r, c, hit))
            else:
                unconf.append((r, c, r32, r64))
        else:
            if r32["assumption"] or r64["assumption"]:
                continue
            bad = None
            if not r32["assumption"] and not r64["assumption"]:
                if (r32["failed"] and set(r32["failed"]) & set(r64["failed"])):
                    bad = r32
                elif r32["exc"] and r64["exc"]:
                    bad = r32
            if bad is not None:
                lab = (sorted(set(r32["failed"]) & set(r64["failed"])) or ["exception:" + str(bad["exc"])])[0]
                violations.append((r, dict(label=lab, assign=c["assign"]), bad))
                continue
            ok = True
            for k, v in c["obs"].items():
                if v is None or c["divzero"]:
                    continue
                got = r64["obs"].get(k)
                if got is None or not close_to(v, got, 1e-5, 1e-9):
                    got32 = r32["obs"].get(k)
                    if got is None or got32 is None or not close_to(v, got32, 2e-3, 1e-6):
                        ok = False
                        mism_notes.append("%s: %s encoded %r, real %r/%r" % (r["case"], k, v, got, got32))
                        break
            if ok:
                validated += 1
            else:
                mism += 1
            if len(samples) < 4:
                samples.append(dict(case=r["case"], inputs={k: c["assign"][k] for k in list(c["assign"])[:12]},
                                    encoded={k: c["obs"][k] for k in list(c["obs"])[:4]}, real={k: r32["obs"].get(k) for k in list(c["obs"])[:4]}))
    for r in results:
        if r["error"]:
            problems.append("%s: %s" % (r["case"], r["error"]))
        if r["unknowns"]:
            problems.append("%s: undecided %s" % (r["case"], r["unknowns"]))
        if not r["error"] and r["paths"] == 0 and not r["exc"]:
            problems.append("%s: vacuous (no feasible path)" % r["case"])
        if not r["error"] and not r["labels"] and not r["exc"]:
            problems.append("%s: no obligation reached" % r["case"])
        for e in r["exc"]:
            if not e["inrepo"] and not r["cands"]:
                problems.append("%s: harness exception %s" % (r["case"], e["msg"]))
    confirmed_cases = {v[0]["case"] for v in violations}
    for r, c, x, y in unconf:
        if r["case"] not in confirmed_cases:
            problems.append("%s: counterexample for %s did not reproduce on the real code (%s)" % (r["case"], c["label"], "weak" if c.get("weak") else "exact"))
    nw = sum(len(r["witnesses"]) for r in results)
    if not violations and not any(r["cands"] for r in results):
        if mism > 0.3 * max(1, validated + mism):
            problems.append("encoding disagrees with the real code on %d of %d sampled inputs: %s" % (mism, validated + mism, mism_notes[:3]))
        for r in results:
            if not r["error"] and not r["witnesses"]:
                problems.append("%s: no concrete input found for any explored path (vacuous?)" % r["case"])
    # ---- report
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = load_known()
    nviol = 0
    printed = set()
    for r, c, hit in violations:
        key = (r["case"], c["label"])
        if key in printed:
            continue
        printed.add(key)
        kid = r.get("known")
        if kid and (prop, kid) in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, kid)]))
            continue
        nviol += 1
        path = os.path.join(VERIF, "evidence", "replay_%s_%d.json" % (prop, nviol))
        with open(path, "w") as f:
            json.dump(dict(property=prop, case=r["case"], label=c["label"], assign=c["assign"], real=hit,
                           how="echo '{\"case\":..., \"assign\":..., \"f64\":false}' | %s sym/conc.py %s" % (VENV, prop)), f, indent=1, default=str)
        if nviol <= 3:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case=%s check=%s failed-on-real=%s exc=%s" % (r["case"], c["label"], hit["failed"][:4], hit["exc"]))
            if a.v:
                print("  ", {k: str(v)[:20] for k, v in list(c["assign"].items())[:30]})
                if hit.get("tb"):
                    print(hit["tb"])
    solver = {}
    funcs = {}
    for r in results:
        for k, v in r["solver"].items():
            solver[k] = solver.get(k, 0) + v
        for k, v in r["functions"].items():
            funcs[k] = funcs.get(k, 0) + v
    wall = time.time() - t0
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=nviol,
              coverage=dict(states=sum(r["paths"] for r in results), transitions=sum(r["decisions"] for r in results),
                            traces_validated_against_impl=validated, samples=samples or [dict(case=r["case"], paths=r["paths"]) for r in results[:3]],
                            infeasible_paths=sum(r["aborted"] for r in results), obligations=st, solver={k: round(v, 3) for k, v in solver.items()},
                            functions_encoded=sorted(funcs), bounds=getattr(mod, "BOUNDS", ""),
                            cases=[dict(name=r["case"], paths=r["paths"], obligations=r["stats"].get("checks", 0), symbolic_inputs=r["vars"],
                                        wall=round(r["wall"], 2), error=r["error"]) for r in results],
                            encoding_mismatches=mism, mismatch_notes=mism_notes[:5], division_by_zero_points=sum(r["divzero"] for r in results),
                            explanation="states = symbolic paths completed; transitions = solver-decided branch points; traces = concrete inputs on explored paths whose encoded values matched the real torch run"),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: cases=%d paths=%d obligations=%d queries=%d solver=%.1fs validated=%d/%d wall=%.1fs" % (
        prop, len(results), ev["coverage"]["states"], st.get("checks", 0), solver.get("queries", 0), solver.get("time", 0) + solver.get("feas_time", 0),
        validated, validated + mism, wall))
    if nviol:
        sys.exit(1)
    if problems:
        for p in problems[:20]:
            print("UNDECIDED " + p)
        if a.v:
            for r, c, x, y in unconf:
                print("   unconfirmed", r["case"], c["label"], {k: v[:24] for k, v in list(c["assign"].items())[:40]}, x, y)
            print(mism_notes[:10])
        sys.exit(2)
    sys.exit(0)


COMMON_ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real arithmetic (rounding, overflow and NaN propagation are outside the claim)",
    "torch, numpy and the standard library behave as documented (they are replaced by symbolic models, validated against the real build on sampled inputs)",
]


def load_known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = line[len("known: "):].split(" ", 2)
                out[(f[0].split("=")[1], f[1].split("=")[1])] = f[2]
    return out


if __name__ == "__main__":
    main()
