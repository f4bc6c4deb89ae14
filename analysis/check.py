#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property from the current source of /repo."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

import build
import registry


T0 = time.time()


def known():
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: "):
                d = json.loads(l[len("finding: "):])
                out.append(d)
    except OSError:
        pass
    return out


def worker(args, panics=None):
    dump, modname, name = args
    import heap as H
    import mir
    import interp
    import spec
    global _prog
    try:
        interp.DEADLINE = T0 + (680 if os.environ.get("VERIF_TIER", "quick") == "quick" else 7200)
        if "_prog" not in globals() or _prog[0] != dump:
            p = mir.Program(dump)
            H.set_layout(H.Layout(p))
            _prog = (dump, p)
        prog = _prog[1]
        H.set_layout(H.Layout(prog))
        mod = importlib.import_module(modname)
        pr = [p for p in mod.PROBES if p.name == name][0]
        t = time.time()
        f, s = spec.run_probe(prog, pr, panics)
        s["wall"] = time.time() - t
        return name, f, s, None
    except Exception as e:
        return name, [], {}, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])


def shapes(ws, cfgs):
    """every shape analysis, over another configuration -> ([(key, text)], functions analysed)"""
    tag = "-x"
    dump = ws.dump_probes(ws.compile_crate(cfgs=cfgs, out="libtrees%s.rmeta" % tag), out="mono%s.json" % tag)
    jobs = [(dump, m, p.name) for m in registry.MODULES for p in importlib.import_module(m).PROBES]
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(worker, jobs, chunksize=1)
    viol, fns = [], set()
    for name, finds, st, err in res:
        if err:
            viol.append(("%s|analysis" % name, "%s: %s" % (name, err)))
            continue
        fns |= st["fns"]
        viol += [("%s|%s|%s" % (f.probe, f.rule, f.where), "%s: [%s] %s  at %s" % (f.probe, f.rule, f.msg, f.where)) for f in finds]
    return viol, fns


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ent = registry.PROPS[pid]
    viol = []      # (key, text)
    cov = {"explanation": ent["explanation"], "rule": ent["rule"]}
    totals = {"entry_points": 0, "abstract_paths": 0, "abstract_steps": 0, "loop_invariants": 0, "exit_states_checked": 0}
    fns, models, names = set(), set(), []
    ws = None
    try:
        ws = build.Workspace()
        facts = {}
        todo = [(m, p) for m in ent["modules"] for p in importlib.import_module(m).PROBES
                if pid in p.props or any(a in p.props for a in ent["also"])]
        if todo:
            lib = ws.compile_crate()
            dump = ws.dump_probes(lib)
            jobs = [(dump, m, p.name) for m, p in todo]
            n = min(8, len(jobs), os.cpu_count() or 1)
            with multiprocessing.Pool(n) as pool:
                res = pool.map(worker, jobs, chunksize=1)
            for name, finds, st, err in res:
                names.append(name)
                if err:
                    viol.append(("%s|analysis" % name, "%s: analysis failed: %s" % (name, err)))
                    continue
                totals["entry_points"] += 1
                totals["abstract_paths"] += st["paths"]
                totals["abstract_steps"] += st["steps"]
                totals["loop_invariants"] += st["loops"]
                totals["exit_states_checked"] += st["checks"]
                fns |= st["fns"]
                models |= st.get("models", set())
                for f in finds:
                    if pid in f.props or (f.rule in ent["only_rules"] and any(a in f.props for a in ent["also"])):
                        key = "%s|%s|%s" % (f.probe, f.rule, f.where)
                        viol.append((key, "%s: [%s] %s  at %s" % (f.probe, f.rule, f.msg, f.where)))
        for extra in ent["extras"]:
            m, fn = extra.split(":")
            r = getattr(importlib.import_module(m), fn)(ws, pid, tier)
            for k, v in r["coverage"].items():
                cov[k] = v
            viol += r["violations"]
            names += r.get("names", [])
    except build.BuildError as e:
        viol.append(("build", "the current source could not be analysed: %s" % e))
    except Exception as e:
        viol.append(("internal", "analysis failed: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])))
    finally:
        if ws:
            ws.close()
    if totals["entry_points"]:
        for k, v in totals.items():
            cov[k] = cov.get(k, 0) + v if isinstance(v, int) and isinstance(cov.get(k, 0), int) else v
        names_ = {x.replace("opq::Elem", "T") for x in fns} | set(cov["functions"] if isinstance(cov.get("functions"), list) else ())
        cov["functions_analysed"] = max(len(names_), cov.get("functions_analysed", 0) if isinstance(cov.get("functions_analysed", 0), int) else 0)
        cov["functions"] = sorted(names_)[:200]
        cov["std_models_used"] = sorted(set(models) | set(cov.get("std_models_used", ())))[:200]
    cov["obligations_of"] = names
    uniq = {}
    for k, v in viol:
        uniq.setdefault(k, []).append(v)
    kn = {d["key"]: d for d in known() if d["property"] == pid}
    reported = []
    for k in list(uniq):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]["what"]))
            del uniq[k]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    vs = []
    for k, v in uniq.items():
        vs.append({"key": k, "count": len(v), "first": v[0]})
    rp = os.path.join(VERIF, "evidence", "%s.violations.json" % pid)
    if vs:
        with open(rp, "w") as f:
            json.dump(vs, f, indent=1)
    elif os.path.exists(rp):
        os.remove(rp)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": registry.ASSUMPTIONS + ent.get("assumptions", []), "violations": len(vs)}
    if vs:
        cov["violations_found"] = [x["key"] + ": " + x["first"] for x in vs]
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    if vs:
        for x in vs[:12]:
            print("  %s (x%d)\n    %s" % (x["key"], x["count"], x["first"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
    return 0


if __name__ == "__main__":
    sys.exit(main())
