"""Runs one property's check: CBMC instances (lib/engine.py) plus optional direct SMT queries."""
import os, sys, json, time, shutil, importlib.util, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import engine
from engine import OK, BAD, UNK, VERIF


def load(pid):
    p = os.path.join(VERIF, "checks", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Obligation:
    """result of a direct SMT obligation (no CBMC): same reporting as an Instance result"""
    def __init__(self, name, status, detail="", what="", bounds="", functions=(), solver_s=0.0, queries=1, wall_s=0.0,
                 replay_txt="", values=None, props=1, validated=0):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k["status"] == "open"]
    except FileNotFoundError:
        return []


def main(pid, tier):
    t0 = time.time()
    mod = load(pid)
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "7200"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="lessvc_")
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rows, viol = [], []

    def log(r):
        print("[%6.1fs] %-58s %-12s props=%d vars=%d solver=%.1fs wall=%.1fs %s" % (
            time.time() - t0, r.inst.key(), r.status, r.props, r.vars, r.solver_s, r.wall_s, (r.detail or r.note)[:600]), flush=True)
    try:
        insts = mod.instances(tier) if hasattr(mod, "instances") else []
        only = os.environ.get("VERIF_ONLY")
        if only:
            insts = [i for i in insts if only in i.key()]
        obls = []
        if hasattr(mod, "extra") and not only:
            engine.BUDGET_END[0] = time.time() + budget
            obls = mod.extra(tier, work)
            for o in obls:
                print("[%6.1fs] %-58s %-12s %s" % (time.time() - t0, o.name, o.status, o.detail[:600]), flush=True)
        res = []
        if insts and not any(o.status == BAD for o in obls):
            res, _, _ = engine.run_instances(insts, log=log, budget=max(30, budget - (time.time() - t0)), work=work)
        kf = known(pid)
        for r in res:
            i = r.inst
            rows.append(dict(name=i.key(), what=i.what, status=r.status, detail=r.detail[:800], bounds=i.bounds,
                             overrides=i.ov, defines=i.d, cut_functions=sorted(i.remove), assertions=r.props, vccs=r.vccs, ssa_steps=r.steps,
                             sat_variables=r.vars, sat_clauses=r.clauses, queries=r.queries, solver="symx/z3" if i.engine == "symx" else "cbmc/" + i.solver,
                             solver_s=round(r.solver_s, 2), wall_s=round(r.wall_s, 2), unwind=r.unwind_used,
                             witnesses_reached=len(r.reached), functions=sorted(r.functions), validated=r.validated, note=r.note))
            if r.status == BAD:
                viol.append((i.key(), r))
        for o in obls:
            rows.append(dict(name=o.name, what=o.what, status=o.status, detail=o.detail[:800], bounds=o.bounds, assertions=o.props,
                             queries=o.queries, solver_s=round(o.solver_s, 2), wall_s=round(o.wall_s, 2),
                             functions=sorted(o.functions), validated=o.validated, solver="z3"))
            if o.status == BAD:
                viol.append((o.name, o))
        ok = [r for r in rows if r["status"] == OK]
        und = [r for r in rows if r["status"] == UNK]
        newv = []
        for name, r in viol:
            hit = [k for k in kf if k["instance"] == name and k["assertion"] in r.detail]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            else:
                newv.append((name, r))
        funcs = sorted({f for r in rows for f in r["functions"]})
        cov = dict(
            obligations=sum(r["assertions"] for r in rows), discharged=sum(r["assertions"] for r in ok),
            queries=sum(r["queries"] for r in rows), solver_s=round(sum(r["solver_s"] for r in rows), 2),
            instances=len(rows), instances_decided=len(ok) + len(viol), functions_encoded=funcs,
            traces_validated_against_impl=sum(r["validated"] for r in rows),
            states=sum(r.get('ssa_steps', 0) for r in rows), transitions=sum(r.get('vccs', 0) for r in rows),
            states_meaning='states: symbolic program steps (SSA) encoded; transitions: verification conditions generated',
            evaluations=len(rows), distinct_nontrivial=len([r for r in ok if r.get("witnesses_reached", 1)]),
            rule="one case = one symbolic query batch (implementation x parameter set x bounds); non-trivial = decided, "
                 "and its reachability witness shown reachable by the solver",
            explanation=getattr(mod, "EXPLANATION", "") or mod.LEVEL_NOTE,
            undecided=[r["name"] + ": " + r["detail"][:200] for r in und], samples=rows)
        json.dump(dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
                       assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
                       violations=len(newv)), open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
        for r in und:
            print("UNDECIDED %s: %s" % (r["name"], r["detail"][:300]))
        print("%s: %d of %d cases decided and holding, %d assertions, %d queries, %.1fs solver, %.1fs wall" % (
            pid, len(ok), len(rows), cov["discharged"], cov["queries"], cov["solver_s"], time.time() - t0))
        if newv:
            for n, (name, r) in enumerate(newv):
                rd = os.path.join(evdir, "replay", "%s_%d" % (pid, n))
                shutil.rmtree(rd, ignore_errors=True)
                os.makedirs(rd)
                with open(os.path.join(rd, "what.txt"), "w") as f:
                    f.write("%s\n%s\n%s\n" % (name, r.detail, r.replay_txt))
                json.dump(dict(property=pid, instance=name, detail=r.detail, values=r.values), open(os.path.join(rd, "replay.json"), "w"))
                if r.values is not None and hasattr(r, "inst"):
                    open(os.path.join(rd, "vc_values.h"), "w").write(engine.values_text(r.values))
                print("violated: %s: %s" % (name, r.detail))
                print("VIOLATION property=%s replay=%s" % (pid, os.path.join(rd, "replay.json")))
            return 1
        if not ok:
            print("nothing decided")
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    j = json.load(open(path))
    mod = load(j["property"])
    for tier in ("quick", "thorough"):
        for i in mod.instances(tier):
            if i.key() == j["instance"]:
                w = tempfile.mkdtemp(prefix="lessvc_")
                try:
                    ok, txt = engine.replay(i, engine.Build(w), w, j["values"], None)
                    print(txt)
                    return 1 if ok else 0
                finally:
                    shutil.rmtree(w, ignore_errors=True)
    print("no such instance")
    return 2
