"""Check runner:  python -m vf.run <PROPERTY> [--tier quick|thorough] [--only NAME] [--replay FILE]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from vf import REPO, engine  # noqa: E402


class Harness:
    """One solver-decided obligation family.

    fn(ctx)        the harness
    bounds         text: what is quantified and up to where
    witnesses      labels that must be reached on some path (vacuity guard)
    budget         seconds (quick tier), `tbudget` thorough
    """

    def __init__(self, name, fn, bounds, witnesses=(), budget=120, tbudget=None, opts=None,
                 jobs=None, tier="both", stubs=()):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.witnesses = list(witnesses)
        self.budget, self.tbudget = budget, tbudget or budget * 6
        self.opts = opts or {}
        self.jobs = jobs
        self.tier = tier
        self.stubs = list(stubs)


def load(prop):
    return importlib.import_module("vf.checks." + prop.lower())


def guarded(fn):
    """An exception escaping from /repo code on admissible inputs is a violation."""

    def h(ctx):
        try:
            return fn(ctx)
        except Exception as e:
            if engine.pending_stop() is not None:
                raise engine.pending_stop()
            from vf.prog import stub_gap

            if stub_gap(e):
                raise
            tb = e.__traceback__
            last = None
            while tb is not None:
                # the innermost frame of the code under test or of the machinery; frames of a
                # library called from there (a compiled one shows its own) do not count
                name = tb.tb_frame.f_code.co_filename
                if name.startswith((REPO + "/", HERE + "/")):
                    last = name
                tb = tb.tb_next
            if last and last.startswith(REPO + "/"):
                ctx.fail("unexpected exception", "".join(traceback.format_exception(e))[-1500:])
            raise

    h.__name__ = getattr(fn, "__name__", "h")
    return h


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                d = dict(kv.split("=", 1) for kv in line[8:].split(" | ")[0].split() if "=" in kv)
                out.append((d.get("harness"), d.get("label"), line.split(" | ", 1)[1]))
    return out


def do_replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    for tier in ("quick", "thorough"):
        for h in mod.harnesses(tier):
            if h.name == d["harness"]:
                ok, label, detail, trace = engine.replay(guarded(h.fn), d["model"])
                print(("REPRODUCED " if ok else "NOT REPRODUCED ") + label, detail)
                for t in trace:
                    print("  ", t)
                return 1 if ok else 0
    print("harness not found")
    return 2


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count())
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return do_replay(a.replay)
    t0 = time.time()
    prop, tier = a.prop.upper(), a.tier
    mod = load(prop)
    known = known_findings(prop)
    hs = [h for h in mod.harnesses(tier) if h.tier in ("both", tier) and (not a.only or a.only in h.name)]
    rows, violations, errors, functions, samples = [], [], [], set(), []
    known_hit = set()
    tot = engine.new_stats()
    validated = 0
    # whole-run guard: never run into the 900 s limit in the quick tier
    deadline = t0 + (720 if tier == "quick" else 6 * 3600)
    for h in hs:
        budget = h.budget if tier == "quick" else h.tbudget
        budget = max(5, min(budget, deadline - time.time()))
        fn = guarded(h.fn)
        res = engine.explore(fn, opts=h.opts, jobs=h.jobs or a.jobs, budget_s=budget)
        mode = "symbolic"
        unreal = bool(res.violations) and not any(
            engine.replay(fn, v["model"])[0] for v in res.violations)
        if (res.problems and not res.violations) or unreal:
            if unreal:
                v = res.violations[0]
                res.problems.append(("not-reproduced", v["label"] + " " + v["detail"]))
                res.violations = []
            # the code does something the symbolic values do not support: decide the same
            # harness with the solver enumerating the input values instead
            o = dict(h.opts)
            o["eager"] = True
            res2 = engine.explore(fn, opts=o, jobs=h.jobs or a.jobs,
                                  budget_s=max(5, min(90, deadline - time.time())))
            if res2.problems and not res2.violations:
                errors.append((h.name, res.problems[0], res2.problems[0]))
            else:
                mode = "solver-enumerated inputs (fallback: %s)" % str(res.problems[0][1])[-200:]
                res2.complete = False
                res = res2
        for k, v in res.stats.items():
            tot[k] = tot[k] + v
        functions |= res.functions
        missing = [w for w in h.witnesses if w not in res.reached]
        status = "held on every path" if res.complete else "held on every explored path; frontier left"
        for v in res.violations:
            ok, label, detail, trace = engine.replay(fn, v["model"])
            if not ok:
                errors.append((h.name, ("not-reproduced", v["label"] + " " + v["detail"]), label))
                continue
            k = [x for x in known if x[0] == h.name and x[1] == label.replace(" ", "_")]
            if k:
                known_hit.add(k[0])
                continue
            violations.append(dict(property=prop, harness=h.name, label=label, detail=detail,
                                   model=v["model"], trace=trace[-100:]))
            status = "VIOLATED"
        if missing and res.complete and not res.violations:
            errors.append((h.name, ("vacuous", "witness not reached: %s" % missing), ""))
        # engine validation: models of explored paths are re-run on plain values
        nval = 0
        for m in res.models:
            try:
                ok, label, detail, trace = engine.replay(fn, m)
            except Exception as e:  # pragma: no cover
                errors.append((h.name, ("validation", repr(e)), m))
                continue
            if ok:
                if not res.violations and not known:
                    errors.append((h.name, ("validation", "path model violates concretely: " + label + " " + detail), m))
            else:
                nval += 1
                if len(samples) < 12:
                    samples.append({"harness": h.name, "model": dict(list(m.items())[:25]), "trace": trace[:6]})
        validated += nval
        rows.append(dict(harness=h.name, bounds=h.bounds, mode=mode, paths=res.stats["paths"],
                         queries=res.stats["queries"], solver_s=round(res.stats["solver_s"], 2),
                         assertions=res.stats["assertions"],
                         assertions_proved_by_solver=res.stats["assertions_proved"],
                         decisions=res.stats["decisions"],
                         complete=res.complete, frontier=res.frontier, wall_s=round(res.wall, 1),
                         witnesses={w: res.reached.get(w, 0) for w in h.witnesses}, status=status,
                         stubs=h.stubs, concrete_replays=nval))
        if a.v or not res.complete:
            print(f"[{prop}] {h.name}: {status} paths={res.stats['paths']} queries={res.stats['queries']} "
                  f"solver={res.stats['solver_s']:.1f}s wall={res.wall:.1f}s frontier={res.frontier} "
                  f"reached={res.reached} mode={mode}", flush=True)
        if violations and tier == "quick":
            break
    for k in known:
        if k in known_hit:
            print(f"KNOWN-FINDING: property={prop} {k[2]}")
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0),
        level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["decisions"],
            traces_validated_against_impl=validated,
            samples=samples,
            explanation="bounded symbolic execution of the real functions: states = symbolic paths (each "
                        "covers every value satisfying its path condition), transitions = solver-decided "
                        "branch/choice points, every assertion decided by z3 on every path",
            exhaustive=bool(rows) and all(r["complete"] for r in rows),
            queries=tot["queries"], solver_s=round(tot["solver_s"], 2),
            assertions=tot["assertions"], assertions_needing_solver=tot["assertions_proved"],
            solver_unknown=tot["unknown"], infeasible_paths=tot["infeasible"],
            functions_encoded=sorted(functions), harnesses=rows,
            outside=list(getattr(mod, "OUTSIDE", [])),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    extra = getattr(mod, "extra_evidence", None)
    if extra:
        ev["coverage"].update(extra())
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if violations:
        out = os.path.join(HERE, "out")
        os.makedirs(out, exist_ok=True)
        for i, v in enumerate(violations[:3]):
            p = os.path.join(out, f"{prop}-{i}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"  {v['harness']}: {v['label']}: {str(v['detail'])[:600]}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR", *[str(x)[-2500:] for x in e], sep="\n  ")
        return 2
    print(f"OK property={prop} tier={tier} paths={tot['paths']} queries={tot['queries']} "
          f"solver_s={tot['solver_s']:.1f} wall_s={time.time()-t0:.1f} "
          f"exhaustive_within_bounds={ev['coverage']['exhaustive']}")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
