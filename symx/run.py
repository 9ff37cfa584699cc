"""Exploration of harness cases, replay of solver models on the plain package, evidence and exit status."""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CodeRaised(Exception):
    """The code under test raised an exception during a concrete replay."""


class JobTimeout(BaseException):
    pass


def call(fn, *a, **k):
    """Call of the plain package in a replay: its exceptions are reported as such."""
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except Exception as e:
        raise CodeRaised(f"{type(e).__name__}: {str(e)[:160]}") from e


class Obl:
    """Obligations of one path."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.bad = []  # (name, z3 formula)
        self.failed = []  # names that fail for every input of the path
        self.count = 0
        self.trivial = 0
        self._seen = set()

    def true(self, name, cond):
        self.count += 1
        if cond:
            self.trivial += 1
        else:
            self.failed.append(name)

    def zero(self, name, e, tol=1e-6):
        """Complex Sym or number must vanish."""
        from . import values as V

        self.count += 1
        if not isinstance(e, V.Sym):
            if abs(complex(e)) > tol:
                self.failed.append(name)
            else:
                self.trivial += 1
            return
        e = V.norm(e)
        if not e.t or max(abs(c) for c in e.t.values()) * len(e.t) < tol * 1e-2:
            self.trivial += 1
            return
        if e.is_const():
            if abs(e.value()) > tol:
                self.failed.append(name)
            else:
                self.trivial += 1
            return
        key = tuple(sorted((k, repr(complex(round(c.real, 8), round(c.imag, 8)))) for k, c in e.t.items()))
        if key in self._seen:
            return
        self._seen.add(key)
        r = self.ctx.eq_forms_nofork(e)
        if r is True:
            self.trivial += 1
        elif r is False:
            self.failed.append(name)
        else:
            self.bad.append((name, r))

    def equal(self, name, got, want, tol=1e-6):
        """got == want; polynomial sides are compared by the solver even when the difference cancels term by term."""
        from . import values as V

        g, w = V.norm(V.Sym.lift(got)), V.norm(V.Sym.lift(want))
        if (g.t or w.t) and not (g.is_const() and w.is_const()) and not g.has_phase() and not w.has_phase() and len(self.bad) < 400:
            d = V.norm(g - w)
            if not d.t:
                self.count += 1
                a, b = self.ctx.zreim(g), self.ctx.zreim(w)
                self.bad.append((name, V.z3.Or(a[0] != b[0], a[1] != b[1])))
                return
        self.zero(name, g - w, tol)

    def never(self, name, formula):
        """z3 formula that must be impossible."""
        self.count += 1
        self.bad.append((name, formula))


class Case:
    """One harness: symbolic() and concrete() are implemented by the checks."""

    opts: dict = {}
    replay_all = True

    def __init__(self, **params):
        self.params = params
        self.name = json.dumps(params, sort_keys=True, default=str)

    def inputs(self, ctx):
        """Create the unknowns; returns dict name -> Sym (flat)."""
        raise NotImplementedError

    def symbolic(self, ctx, L, inp, obl):
        raise NotImplementedError

    def concrete(self, vals):
        """Replay on the plain package. None when the property holds, else a message."""
        raise NotImplementedError


def model_values(ctx, model, inp):
    from fractions import Fraction

    out = {}
    for k, s in inp.items():
        v = ctx.model_value(model, s)
        if isinstance(v, Fraction):
            v = float(v)
        out[k] = complex(v) if isinstance(v, complex) else float(v)
    return out


def replay(case, vals):
    """(status, message): ok | fail | oracle-error"""
    try:
        msg = case.concrete(vals)
        return ("ok", None) if msg is None else ("fail", msg)
    except CodeRaised as e:
        return "fail", "raised " + str(e)
    except JobTimeout:
        raise
    except Exception as e:
        return "oracle-error", f"{type(e).__name__}: {e} @ {traceback.format_exc()[-300:]}"


def explore(case, budget_s, tier, seed=0, max_paths=100000):
    from . import values as V
    from .loader import symbolic_spgrep

    L = symbolic_spgrep()
    stats = V.Stats()
    res = {
        "job": case.params,
        "paths": 0,
        "infeasible": 0,
        "degraded": {},
        "replayed": 0,
        "oracle_errors": [],
        "obligations": 0,
        "solver_obligations": 0,
        "violations": [],
        "unreproduced": [],
        "samples": [],
        "assumptions": set(),
        "complete": True,
        "reachable": 0,
        "unknown_final": 0,
        "mutations": [],
    }
    t_end = time.time() + budget_s
    stack = [[]]
    rng = np.random.default_rng(seed)
    t0 = time.time()
    replay_time = 0.0
    first_err = None
    while stack:
        if time.time() > t_end or res["paths"] >= max_paths:
            res["complete"] = False
            break
        prefix = stack.pop()
        opts = dict(case.opts)
        if case.params.get("opts") == "exact":
            opts["tol_mode"] = "exact"
        opts["deadline"] = t_end
        ctx = V.Path(prefix, stats, opts)
        V.CTX = ctx
        obl = Obl(ctx)
        inp = {}
        status = "ok"
        why = None
        try:
            inp = case.inputs(ctx)
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                case.symbolic(ctx, L, inp, obl)
        except V.Infeasible:
            status = "infeasible"
        except V.PathLimit as e:
            status, why = "limit", str(e)
        except V.Unsupported as e:
            status, why = "unsupported", str(e)
            if first_err is None:
                first_err = traceback.format_exc()[-1500:]
        except JobTimeout:
            raise
        except RecursionError:
            status, why = "raised", "RecursionError"
        except Exception as e:
            status = "raised"
            why = f"{type(e).__name__}: {str(e)[:100]}"
            if first_err is None:
                first_err = traceback.format_exc()[-1500:]
        stack.extend(ctx.alternatives)
        res["assumptions"] |= ctx.assumptions_made
        if status == "infeasible":
            res["infeasible"] += 1
            continue
        verdict = None
        model = None
        names = []
        early = None
        try:
            if status == "ok" and obl.bad and not obl.failed:
                # obligations for the solver: a witness of the path first, it settles gross failures at once
                model0 = ctx.witness()
                if model0 is not None:
                    try:
                        v0 = model_values(ctx, model0, inp)
                    except Exception:
                        v0 = None
                    if v0 is not None:
                        V.CTX = None
                        tr = time.time()
                        st0, msg0 = replay(case, v0)
                        replay_time += time.time() - tr
                        V.CTX = ctx
                        if st0 == "fail":
                            res["paths"] += 1
                            res["reachable"] += 1
                            res["violations"].append({"vals": v0, "msg": msg0, "claims": sorted({n for n, _ in obl.bad})[:4], "status": status})
                            res["complete"] = False
                            break
                        if st0 == "ok":
                            early = v0
            if status == "ok":
                res["obligations"] += obl.count
                res["solver_obligations"] += len(obl.bad)
                if obl.failed:
                    names = sorted(set(obl.failed))[:4]
                    model = ctx.witness()
                    if model is None:
                        if ctx.check() == "unsat":
                            res["infeasible"] += 1
                            continue
                        verdict = "unknown"
                    else:
                        verdict = "violated"
                elif obl.bad:
                    v, m = "holds", None
                    for f in grouped(obl.bad):
                        v1, m1 = ctx.prove_not(f)
                        if v1 != "holds":
                            v, m = v1, m1
                        if v1 == "violated":
                            break
                    verdict = v
                    if v == "violated":
                        names = sorted({n for n, f in obl.bad if V.z3.is_true(m.eval(f, model_completion=True))})[:4]
                        model = ctx.witness([V.z3.Or(*[f for _, f in obl.bad])]) or m
                else:
                    verdict = "holds"
                if verdict == "unknown":
                    res["unknown_final"] += 1
                    res["degraded"]["solver unknown"] = res["degraded"].get("solver unknown", 0) + 1
                if verdict != "violated" and early is not None:
                    model = model0
                elif verdict != "violated":
                    model = ctx.witness()
                    if model is None and ctx.check() == "unsat":
                        res["infeasible"] += 1
                        continue
            else:
                model = ctx.witness()
                if model is None and ctx.check() == "unsat":
                    res["infeasible"] += 1
                    continue
                res["degraded"][f"{status}: {why}"] = res["degraded"].get(f"{status}: {why}", 0) + 1
        except (V.PathLimit, V.Unsupported) as e:
            res["degraded"][f"final: {e}"] = res["degraded"].get(f"final: {e}", 0) + 1
        res["paths"] += 1
        if model is None:
            continue
        res["reachable"] += 1
        try:
            vals = model_values(ctx, model, inp)
        except Exception as e:
            res["degraded"][f"model: {e}"] = res["degraded"].get(f"model: {e}", 0) + 1
            continue
        must = verdict == "violated" or status != "ok"
        spent = time.time() - t0
        if must or case.replay_all or replay_time < 0.5 * spent:
            V.CTX = None
            tr = time.time()
            st, msg = ("ok", None) if early is not None and vals == early else replay(case, vals)
            replay_time += time.time() - tr
            V.CTX = ctx
            if st == "ok":
                if verdict == "violated":
                    ok = False
                    for v2 in more_models(case, ctx, obl, inp, vals):
                        V.CTX = None
                        st2, msg2 = replay(case, v2)
                        V.CTX = ctx
                        if st2 == "fail":
                            res["violations"].append({"vals": v2, "msg": msg2, "claims": names})
                            ok = True
                            break
                    if not ok:
                        res["unreproduced"].append({"vals": vals, "claims": names})
                else:
                    res["replayed"] += 1
            elif st == "fail":
                res["violations"].append({"vals": vals, "msg": msg, "claims": names, "status": status})
            else:
                res["oracle_errors"].append(msg)
        if len(res["samples"]) < 3:
            res["samples"].append(
                {
                    "job": case.params,
                    "decisions": len(ctx.trace),
                    "trace": ctx.trace[-12:],
                    "obligations": obl.count,
                    "solver_obligations": len(obl.bad),
                    "verdict": verdict or status,
                    "witness": {k: str(v) for k, v in vals.items()},
                }
            )
        if res["violations"]:
            res["complete"] = False
            break
    V.CTX = None
    res["stats"] = dict(vars(stats))
    res["time"] = time.time() - t0
    res["assumptions"] = sorted(res["assumptions"])
    res["first_err"] = first_err
    if stack and not res["violations"]:
        res["complete"] = False
    if not res["violations"] and (not res["complete"] or res["degraded"]):
        fallback(case, res)
    return res


def generic_points(case, count, seed=0):
    """Models of the input constraints with the unknowns pinned one after another to generic values."""
    from . import values as V

    out = []
    rng = np.random.default_rng(12345 + seed)
    for _ in range(count):
        ctx = V.Path([], V.Stats(), dict(case.opts))
        V.CTX = ctx
        try:
            inp = case.inputs(ctx)
            ctx.solver.set("timeout", 1000)
            z3 = V.z3
            for a in list(ctx.atoms):
                if a.defn is not None:
                    continue
                for _ in range(12):
                    if a.kind == "int":
                        c = a.zv == int(rng.integers(-2, 50))
                    elif a.kind == "pos":
                        c = a.zv == z3.RealVal(f"{int(rng.integers(300, 2500))}/1009")
                    else:
                        c = a.zv == z3.RealVal(f"{int(rng.integers(-1500, 1500))}/1009")
                    ctx.solver.push()
                    ctx.solver.add(c)
                    if ctx.solver.check() == z3.sat:
                        break
                    ctx.solver.pop()
            if ctx.solver.check() == z3.sat:
                out.append(model_values(ctx, ctx.solver.model(), inp))
        except Exception:
            pass
        finally:
            V.CTX = None
    return out


def fallback(case, res, count=3):
    """Where the solver did not decide a job, at least replay the real code at generic points of its domain (not counted as decided)."""
    res["fallback"] = 0
    for v in generic_points(case, count):
        st, msg = replay(case, v)
        if st == "fail":
            res["violations"].append({"vals": v, "msg": msg, "claims": [], "status": "undecided"})
            return
        res["fallback"] += st == "ok"


def grouped(bad):
    """One query per claim for small numbers, otherwise disjunctions of at most 40 claims."""
    from . import values as V

    fs = [f for _, f in bad]
    if len(fs) <= 60:
        return fs
    return [V.z3.Or(*fs[i : i + 40]) for i in range(0, len(fs), 40)]


def more_models(case, ctx, obl, inp, vals):
    """A few other models of a violated path."""
    from . import values as V

    out = []
    cons = []
    base = [V.z3.Or(*[f for _, f in obl.bad])] if not obl.failed and obl.bad else []
    last = vals
    for _ in range(3):
        try:
            diff = []
            for k, s in inp.items():
                if isinstance(s, V.Sym) and len(s.t) == 1 and not s.has_phase():
                    z = ctx.zreal(s)
                    v = V.z3.RealVal(str(round(float(np.real(last[k])), 6)))
                    diff.append(z > v + V.z3.RealVal("1/7"))
                    diff.append(z < v - V.z3.RealVal("1/7"))
            if not diff:
                break
            cons.append(V.z3.Or(*diff))
            m = ctx.witness(base + cons)
            if m is None:
                break
            last = model_values(ctx, m, inp)
            out.append(last)
        except Exception:
            break
    return out


################################################################################


def _limit_memory(gb=5):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))
    except Exception:
        pass


def _alarm(signum, frame):
    raise JobTimeout()


def _worker(args):
    modname, params, budget, tier, seed = args
    try:
        mod = importlib.import_module("checks." + modname)
        case = mod.make(**params)
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, budget + 20)
        try:
            r = explore(case, budget, tier, seed)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return r
    except JobTimeout:
        r = {"job": params, "error": "job timeout"}
    except MemoryError:
        r = {"job": params, "error": "memory"}
    except Exception as e:
        r = {"job": params, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
    # the symbolic run gave no answer: at least run the real code on a few fixed inputs
    # (reported as "error" in the evidence, never counted as decided)
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 10)
        case = importlib.import_module("checks." + modname).make(**params)
        f = {"violations": []}
        fallback(case, f, 2)
        if f["violations"]:
            r["violations"] = f["violations"]
    except (JobTimeout, Exception):
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--job-budget", type=float, default=None)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay", default=None)
    ap.add_argument("--only", default=None, help="substring of the job name")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, VERIF)
    modname = prop.lower()
    mod = importlib.import_module("checks." + modname)
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        case = mod.make(**d["job"])
        st, msg = replay(case, {k: _unjson(v) for k, v in d["vals"].items()})
        print(st, msg)
        return 1 if st == "fail" else 0
    t0 = time.time()
    budget = a.budget or (260 if tier == "quick" else 820)
    job_budget = a.job_budget or getattr(mod, "JOB_BUDGET", {}).get(tier, 90 if tier == "quick" else 240)
    jobs = mod.jobs(tier, seed)
    if a.only:
        jobs = [j for j in jobs if a.only in json.dumps(j, sort_keys=True)]
    tasks = [(modname, j, job_budget, tier, seed) for j in jobs]
    results = []
    pending = len(tasks)
    nviol = 0
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(a.procs, initializer=_limit_memory, maxtasksperchild=12)
    try:
        known = [k for k in load_known() if k.get("property") == prop and k.get("kind") == "finding"]
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        while pending:
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            try:
                r = it.next(timeout=left)
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            pending -= 1
            results.append(r)
            if a.v:
                print(
                    json.dumps(r["job"], default=str),
                    {k: r.get(k) for k in ("paths", "infeasible", "obligations", "solver_obligations", "replayed", "time", "error", "complete")},
                    "degraded", r.get("degraded"), "viol", r.get("violations"), "unrep", r.get("unreproduced"), "orc", r.get("oracle_errors"),
                    r.get("first_err") or "", r.get("tb") or "",
                    flush=True,
                )
            nviol += sum(not any(matches(k, r["job"], v) for k in known) for v in r.get("violations", []))
            if nviol >= 5:
                break
    finally:
        pool.terminate()
        pool.join()
    return finish(mod, prop, tier, seed, results, len(tasks), pending, t0, a)


def _json(v):
    return {"re": v.real, "im": v.imag} if isinstance(v, complex) else v


def _unjson(v):
    return complex(v["re"], v["im"]) if isinstance(v, dict) else v


def finish(mod, prop, tier, seed, results, ntasks, pending, t0, a):
    known = [k for k in load_known() if k.get("property") == prop and k.get("kind") == "finding"]
    lines = []
    nviol = 0
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for r in results:
        for v in r.get("violations", []):
            if any(matches(k, r["job"], v) for k in known):
                continue
            nviol += 1
            path = os.path.join(VERIF, "evidence", "replay", f"{prop}_{nviol}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "job": r["job"],
                        "vals": {k: _json(x) for k, x in v["vals"].items()},
                        "message": v["msg"],
                        "claims": v.get("claims"),
                        "how": f"python check.py {prop} --replay {path}",
                    },
                    f,
                    indent=1,
                    default=str,
                )
            lines.append(f"VIOLATION property={prop} replay={path}")
            print(f"# {json.dumps(r['job'], default=str)} inputs {v['vals']}: {v['msg']}")
    # known findings: shown while they still fail
    for k in known:
        try:
            msg = mod.known_finding(k)
        except Exception as e:
            msg = f"(could not be evaluated: {e})"
        if msg:
            print(f"KNOWN-FINDING: property={prop} {k['what']}: {msg}")
    tot = lambda key: int(sum(r.get(key, 0) or 0 for r in results))
    stat = lambda key: sum(r.get("stats", {}).get(key, 0) for r in results)
    degraded = {}
    for r in results:
        for k, n in (r.get("degraded") or {}).items():
            degraded[k] = degraded.get(k, 0) + n
        if r.get("error"):
            degraded["job: " + r["error"]] = degraded.get("job: " + r["error"], 0) + 1
    errs = [r["oracle_errors"][0] for r in results if r.get("oracle_errors")]
    assumptions = sorted(set(getattr(mod, "ASSUMPTIONS", [])) | {x for r in results for x in r.get("assumptions", [])})
    wall = time.time() - t0
    samples = [s for r in results for s in r.get("samples", [])][:8]
    cov = {
        "states": tot("paths"),
        "transitions": int(stat("decisions")),
        "traces_validated_against_impl": tot("replayed"),
        "samples": samples,
        "jobs": ntasks,
        "jobs_completed": sum(1 for r in results if r.get("complete")),
        "jobs_cut": sum(1 for r in results if not r.get("complete")) + pending,
        "paths_with_reachability_witness": tot("reachable"),
        "infeasible_paths_discarded": tot("infeasible"),
        "obligations": tot("obligations"),
        "obligations_sent_to_solver": tot("solver_obligations"),
        "queries": int(stat("queries")),
        "nonlinear_queries": int(stat("nl_queries")),
        "unknown_answers": int(stat("unknown")),
        "solver_s": round(stat("solver_s"), 2),
        "degraded_paths": degraded,
        "unreproduced_counterexamples": sum(len(r.get("unreproduced", [])) for r in results),
        "undecided_jobs_replayed_at_generic_points": tot("fallback"),
        "oracle_errors": errs[:3],
        "functions_encoded": getattr(mod, "FUNCTIONS", []),
        "bounds": getattr(mod, "BOUNDS", ""),
        "unknowns": getattr(mod, "UNKNOWNS", ""),
        "states_are": "feasible execution paths of the current source; each stands for all inputs of its path condition",
        "transitions_are": "branch decisions taken on symbolic conditions",
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    if not a.no_evidence:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(
        f"{prop} {tier}: jobs {len(results)}/{ntasks} (complete {cov['jobs_completed']}), paths {cov['states']}, decisions {cov['transitions']}, "
        f"obligations {cov['obligations']} ({cov['obligations_sent_to_solver']} to solver), queries {cov['queries']}, solver {cov['solver_s']} s, "
        f"replayed {cov['traces_validated_against_impl']}, degraded {sum(degraded.values())}, unreproduced {cov['unreproduced_counterexamples']}, wall {wall:.1f} s"
    )
    if degraded:
        for k, n in sorted(degraded.items(), key=lambda x: -x[1])[:8]:
            print("  degraded:", n, k[:300])
    if errs:
        print("  oracle error:", errs[0])
    for line in lines[:5]:
        print(line)
    if nviol:
        return 1
    if cov["obligations"] == 0:
        print(f"{prop}: the solver decided nothing about the current source")
        if cov["states"] == 0 or not tot("fallback"):
            return 2
    return 0


def matches(k, job, v):
    """Known finding entries name the job parameters they concern."""
    return all(job.get(q) == x for q, x in k.get("job", {"_": 1}).items()) and k.get("msg", "") in v["msg"]
