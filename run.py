#!/opt/venv/bin/python
"""Decide one property: run.py <property id> [--thorough] [--only HARNESS] [--serial]

Exit 0: every assertion of every harness was discharged by the solver on every feasible path.
Exit 1: a counterexample was found and reproduced on the unpatched code (VIOLATION line).
Exit 2: some assertion could not be settled.
"""

import argparse
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vt import boot  # noqa: E402

EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVID, "replays")


def replay_file(prop, harness, env, label, thorough, n):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{harness}-{n}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "harness": harness,
                "label": label,
                "thorough": thorough,
                "inputs": env,
                "how": f"{sys.executable} {HERE}/replay.py {path}",
            },
            f,
            indent=1,
        )
    return path


def replay(path):
    """Re-run the counterexample in a fresh process on the unpatched code."""
    p = subprocess.run(
        [sys.executable, os.path.join(HERE, "replay.py"), path],
        capture_output=True,
        text=True,
        timeout=240,
    )
    return p.returncode == 1, p.stdout


class Functions:
    """Records which functions of the repository are executed symbolically."""

    def __init__(self):
        self.seen = set()
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        tool = mon.PROFILER_ID
        try:
            mon.use_tool_id(tool, "vt")
        except ValueError:
            return
        src = os.path.realpath(boot.SRC)

        def start(code, off):
            f = code.co_filename
            if f.startswith(src):
                self.seen.add(f"{os.path.relpath(f, boot.REPO)}:{code.co_qualname}")
            elif f.startswith("<lambdifygenerated"):
                self.seen.add(f"sympy.lambdify code {f}")
            return mon.DISABLE

        mon.register_callback(tool, mon.events.PY_START, start)
        mon.set_events(tool, mon.events.PY_START)


def worker(prop, h, thorough, deadline, seed, conn):
    """Child process: explore one harness."""
    from vt.harness import run_symbolic

    os.setpgid(0, 0)
    fns = Functions()
    out = {"reproduced": None}
    tried = [0]

    def on_candidate(cd):
        for env in cd.envs:
            if tried[0] >= 12:
                return False
            tried[0] += 1
            path = replay_file(prop, h.name, env, cd.label, thorough, tried[0])
            try:
                ok, text = replay(path)
            except subprocess.TimeoutExpired:
                continue
            if ok:
                out["reproduced"] = (path, cd.label, text[-600:])
                return True
        return False

    try:
        res = run_symbolic(h, thorough, deadline, on_candidate, seed)
    except BaseException:  # noqa: BLE001
        res = {"harness": h.name, "unsettled": [("machinery", traceback.format_exc()[-1500:])]}
    res["reproduced"] = out["reproduced"]
    res["functions"] = sorted(fns.seen)
    conn.write(pickle.dumps(res))
    conn.close()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    thorough = a.thorough
    budget = a.budget or (3300.0 if thorough else 780.0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)

    from vt import npstubs, stubs

    mod = None
    try:
        stubs.install()
        stubs.install_solver()
        mod = importlib.import_module(f"checks.{a.prop.lower()}")
        npstubs.wrap_package()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return import_failure(a.prop, thorough, t0, seed)

    from vt.harness import REGISTRY

    import tvemoves_rufbad

    f = getattr(tvemoves_rufbad, "__file__", None) or list(tvemoves_rufbad.__path__)[0] + "/x"
    if not os.path.realpath(f).startswith(os.path.realpath(boot.SRC)):
        print(f"the package was imported from {f}, not from {boot.SRC}")
        return 2
    hs = [
        h
        for h in REGISTRY.values()
        if (thorough or h.opts.get("tier", "quick") == "quick") and (not a.only or a.only == h.name)
    ]
    hs.sort(key=lambda h: -h.opts.get("cost", 1))
    deadline = t0 + budget
    results, violation = run_all(a.prop, hs, thorough, deadline, seed, a.j, a.v)
    return report(a.prop, mod, hs, results, violation, thorough, t0, seed, a.only)


def run_all(prop, hs, thorough, deadline, seed, jobs, verbose):
    pend, run, results = list(hs), {}, []
    violation = None
    while (pend or run) and violation is None:
        while pend and len(run) < jobs:
            h = pend.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                worker(prop, h, thorough, deadline, seed, os.fdopen(w, "wb"))
            os.close(w)
            os.set_blocking(r, False)
            run[pid] = [h, r, b"", time.time()]
        time.sleep(0.02)
        for pid in list(run):
            h, r, buf, st = run[pid]
            done = False
            try:
                while True:
                    chunk = os.read(r, 1 << 16)
                    if not chunk:
                        done = True
                        break
                    run[pid][2] += chunk
            except BlockingIOError:
                pass
            if not done and time.time() > deadline + 15:
                kill(pid)
                done = True
                run[pid][2] = pickle.dumps(
                    {"harness": h.name, "unsettled": [("time", "budget exhausted")]}
                )
            if done:
                os.close(r)
                _, stt = os.waitpid(pid, 0)
                try:
                    res = pickle.loads(run[pid][2])
                except Exception:  # noqa: BLE001
                    res = {"harness": h.name, "unsettled": [("worker", f"died with status {stt}")]}
                del run[pid]
                results.append(res)
                if verbose:
                    print(
                        f"  {h.name}: {time.time()-st:.1f}s {res.get('stats')} "
                        f"validated={res.get('validated')} mismatch={res.get('mismatch')} "
                        f"vacuous={res.get('vacuous')} unsettled={res.get('unsettled')[:3]}"
                    )
                    if res.get("tb") and res.get("unsettled"):
                        print(res["tb"])
                if res.get("reproduced"):
                    violation = res
    for pid in run:
        kill(pid)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    return results, violation


def kill(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def import_failure(prop, thorough, t0, seed):
    """The package cannot be imported at all: nothing it promises holds."""
    p = subprocess.run(
        [
            sys.executable,
            "-c",
            f"import sys; sys.path.insert(0,{boot.SRC!r}); "
            "import tvemoves_rufbad.simulation, tvemoves_rufbad.interpolation",
        ],
        capture_output=True,
        text=True,
    )
    if p.returncode:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-import.txt")
        with open(path, "w") as f:
            f.write(p.stderr)
        write_evidence(prop, {"error": "import"}, thorough, t0, seed, 1, [])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 2


def write_evidence(prop, coverage, thorough, t0, seed, violations, assumptions):
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": "thorough" if thorough else "quick",
                "seed": seed,
                "level": "model_checking",
                "coverage": coverage,
                "wall_s": round(time.time() - t0, 2),
                "assumptions": assumptions,
                "violations": violations,
            },
            f,
            indent=1,
            default=str,
        )
        f.write("\n")


def report(prop, mod, hs, results, violation, thorough, t0, seed, only):
    tot = {}
    for r in results:
        for k, v in (r.get("stats") or {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    unsettled = [(r["harness"],) + tuple(u) for r in results for u in r.get("unsettled", [])]
    empty = [
        r["harness"]
        for r in results
        if not r.get("unsettled") and not r.get("reproduced") and not r.get("stats", {}).get("checks")
    ]
    mism = [(r["harness"], m) for r in results for m in r.get("mismatch", [])]
    # a harness whose encoding disagrees with the real code on every validated path is not believed
    badenc = [r["harness"] for r in results if r.get("mismatch") and not r.get("validated")]
    samples = [
        {"harness": r["harness"], "path_inputs": s} for r in results for s in r.get("samples", [])
    ][:12]
    cov = {
        "states": int(tot.get("paths", 0)),
        "transitions": int(tot.get("decisions", 0)),
        "traces_validated_against_impl": int(tot.get("validated", 0)),
        "samples": samples or ["none"],
        "explanation": "states: feasible symbolic paths; transitions: branch decisions put to the solver; "
        "traces_validated: paths whose encoding was compared with a concrete run of the unpatched code",
        "paths_cut_by_assumptions": int(tot.get("aborted", 0)),
        "assertions_checked": int(tot.get("checks", 0)),
        "assertions_discharged": int(tot.get("discharged", 0)),
        "assertions_discharged_by_simplifier": int(tot.get("trivial", 0)),
        "solver_queries": int(tot.get("queries", 0)),
        "solver_time_s": tot.get("solver_s", 0.0),
        "transcendental_atoms": int(tot.get("atoms", 0)),
        "functions_encoded": sorted({f for r in results for f in r.get("functions", [])}),
        "bounds": {h.name: h.opts.get("bounds", "") for h in hs},
        "per_harness": [
            {
                "harness": r["harness"],
                "wall_s": r.get("wall_s"),
                "assertions": r.get("labels", [])[:60],
                "validated": r.get("validated"),
                "encoding_mismatches": len(r.get("mismatch", [])),
                "unreachable_paths": r.get("vacuous"),
                **{
                    k: (r.get("stats") or {}).get(k)
                    for k in ("paths", "decisions", "checks", "discharged", "queries", "solver_s")
                },
            }
            for r in results
        ],
        "unsettled": unsettled[:20],
        "outside_the_bounds": getattr(mod, "OUTSIDE", ""),
    }
    if not only:
        write_evidence(
            prop, cov, thorough, t0, seed, 1 if violation else 0, getattr(mod, "ASSUMPTIONS", [])
        )
    print(
        f"{prop}: {len(results)} harnesses, {cov['states']} paths, {cov['assertions_checked']} "
        f"assertions, {cov['solver_queries']} queries, {cov['solver_time_s']:.1f}s solver, "
        f"{cov['traces_validated_against_impl']} paths validated, {time.time()-t0:.1f}s"
    )
    if violation:
        path, label, text = violation["reproduced"]
        print(f"harness {violation['harness']}: {label}")
        print(text)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for u in unsettled[:10]:
        print("UNSETTLED", *[str(x)[:400] for x in u])
    for m in mism[:5]:
        print("encoding mismatch", m)
    if empty:
        print("VACUOUS", empty)
    # auxiliary harnesses look for violations with a second encoding of the numbers; what they leave
    # unsettled is reported, but the property is decided by the main harnesses
    aux = {h.name for h in hs if h.opts.get("auxiliary")}
    if [x for x in [u[0] for u in unsettled] + empty + badenc if x not in aux]:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
