"""Worker process: runs one contract symbolically, or concretely on inputs."""

import argparse
import importlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get("PYDED_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
Z3SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if Z3SITE not in sys.path:
    sys.path.append(Z3SITE)


def load_contracts(mod):
    importlib.import_module("contracts." + mod)


def check_import():
    import openclsim

    p = os.path.realpath(openclsim.__file__)
    want = os.path.realpath(os.path.join(REPO, "src"))
    if not p.startswith(want + os.sep):
        raise SystemExit(f"openclsim imported from {p}, expected under {want}")


HARNESS = ("contracts", "pyded")


def of_harness(name):
    return (name or "").split(".")[0] in HARNESS


def stub_fault(ex):
    """the exception says that a stub of the harness lacks something (an
    attribute, a parameter): nothing is known about the code then"""
    if isinstance(ex, AttributeError) and ex.obj is not None:
        t = ex.obj if isinstance(ex.obj, type) else type(ex.obj)
        return of_harness(t.__module__)
    if isinstance(ex, TypeError):
        m = re.match(r"^([\w.<>]+)\(\) (got|missing|takes)", str(ex))
        if m:
            first = m.group(1).split(".")[0]
            return any(of_harness(n) and of_harness(getattr(getattr(x, first, None), "__module__", None))
                       for n, x in list(sys.modules.items()))
        return any(isinstance(getattr(x, g, None), type) and of_harness(getattr(x, g).__module__)
                   for g in re.findall(r"'(\w+)'", str(ex)) for n, x in list(sys.modules.items()) if of_harness(n))
    return False


def run_symbolic(key, mod, budget):
    from pyded import instrument

    instrument.install(("openclsim", "simpy.resources.store"))
    check_import()
    from pyded import engine as E
    from pyded.ctx import SymCtx
    from pyded.registry import CONTRACTS
    from pyded.sim import OutOfContract

    load_contracts(mod)
    c = CONTRACTS[key]
    if c.opts.get("concrete"):
        return dict(key=key, status="concrete", targets=c.targets, bounded=c.opts["bounded"], obligations=0, discharged=0, undecided=[],
                    paths=0, completed=0, inv_checks=0, z3_calls=0, z3_time=0, wall=0, names={})
    en = E.Engine(key, budget_s=budget or c.budget, **{k: v for k, v in c.opts.items() if k in ("max_paths", "solver_timeout_ms")})
    if "loop_limit" in c.opts:
        en.loop_limit = c.opts["loop_limit"]
    res = dict(key=key, status="ok", targets=c.targets, bounded=c.opts.get("bounded"))

    def fn():
        K = SymCtx(en)
        try:
            c.fn(K)
        except E.DedControl:
            raise
        except OutOfContract as ex:
            raise E.Unsupported("outside a stub's contract: " + str(ex))
        except Exception as ex:  # noqa: BLE001
            if stub_fault(ex):
                raise E.Unsupported("outside a stub's contract: " + repr(ex))
            # the code (or the contract) raised on this path
            tb = traceback.format_exc()
            f = E.Failure("no-unexpected-exception", None, list(en.trace), en.abstract, tb[-3000:])
            m = None
            try:
                m = en.nice_model(E.z3.BoolVal(True))
            except Exception:  # noqa: BLE001
                pass
            f.model = m
            res.setdefault("exceptions", []).append(f.as_dict())

    try:
        en.explore(fn)
    except E.Unsupported as ex:
        res["status"] = "unsupported"
        res["reason"] = str(ex)
        res["where"] = traceback.format_exc()[-2500:]
    except RecursionError as ex:
        res["status"] = "unsupported"
        res["reason"] = "recursion limit"
    except Exception as ex:  # engine defect: undecided, never an alarm
        res["status"] = "unsupported"
        res["reason"] = "engine: " + repr(ex)
        res["where"] = traceback.format_exc()[-2500:]
    tot = sum(v[0] for v in en.obl.values())
    dis = sum(v[1] for v in en.obl.values())
    res.update(
        obligations=tot,
        discharged=dis,
        names={k: v for k, v in en.obl.items()},
        undecided=en.undecided,
        failures=[f.as_dict() for f in en.failures],
        paths=en.paths,
        completed=en.completed_paths,
        inv_checks=en.inv_checks,
        restarts=en.restarts,
        z3_calls=en.z3_calls,
        z3_time=round(en.z3_time, 3),
        wall=round(getattr(en, "wall", 0), 3),
        loops={k: dict(havoc=sorted("/".join(map(str, p[1:])) for p in en.persist[("loop", k)].changed))
               for k in en.loops_seen if ("loop", k) in en.persist},
        cut=[k[1] for k in en.persist if k[0] == "mode"],
        instrumented={k: v for k, v in instrument.STATS.items()},
    )
    return res


def run_concrete(key, mod, jobs):
    """jobs: list of dict(values=..., seed=...)"""
    check_import()
    from pyded import ctx
    from pyded.registry import CONTRACTS

    load_contracts(mod)
    c = CONTRACTS[key]
    out = []
    for job in jobs:
        out.append(one_concrete(ctx, c, job.get("values"), job.get("seed", 0), job.get("maxrun", 2)))
    return out


class NoEnd(BaseException):
    """a concrete run takes too long"""


def one_concrete(ctx, c, values, seed, maxrun):
    from pyded.sim import OutOfContract

    K = ctx.ConcCtx(values, seed, maxrun)

    def late(*a):
        raise NoEnd()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(20)
    try:
        c.fn(K)
    except NoEnd:
        return dict(outcome="skip", why="no end within 20 s", log=K.log, failures=K.failures)
    except OutOfContract as s:
        return dict(outcome="skip", why=str(s), log=K.log, failures=[])
    except ctx.Skip as s:
        return dict(outcome="skip", why=str(s), log=K.log, failures=K.failures)
    except Exception as ex:  # noqa: BLE001
        if stub_fault(ex):
            return dict(outcome="skip", why=repr(ex), log=K.log, failures=[])
        tb = traceback.format_exc()
        return dict(outcome="exception", tb=tb[-3000:], log=K.log, failures=K.failures, checked=K.checked)
    finally:
        signal.alarm(0)
    return dict(outcome="fail" if K.failures else "ok", failures=K.failures, log=K.log, checked=K.checked, known=K.known)


def search_concrete(key, mod, seed, n, seconds):
    check_import()
    from pyded import ctx
    from pyded.registry import CONTRACTS

    load_contracts(mod)
    c = CONTRACTS[key]
    t0 = time.time()
    st = dict(ok=0, skip=0, exception=0, fail=0, distinct=0)
    seen = set()
    bad = []
    sample = None
    names, known = {}, {}
    i = 0
    while i < n and time.time() - t0 < seconds:
        r = one_concrete(ctx, c, None, seed * 1000003 + i, 2 + (i % 3))
        i += 1
        st[r["outcome"]] += 1
        known.update(dict.fromkeys(r.get("known", ())))
        for k, v in r.get("checked", {}).items():
            names[k] = names.get(k, 0) + v
        sig = json.dumps(r["log"], sort_keys=True, default=str)
        if r["outcome"] == "ok" and sig not in seen:
            seen.add(sig)
            if sample is None:
                sample = r["log"]
        if r["outcome"] in ("exception", "fail"):
            bad.append(r)
            if len(bad) >= 3:
                break
    st["distinct"] = len(seen)
    return dict(stats=st, bad=bad, sample=sample, wall=round(time.time() - t0, 2), checked=names, known=list(known))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["sym", "conc", "search"])
    ap.add_argument("key")
    ap.add_argument("--mod", required=True)
    ap.add_argument("--jobs")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-n", type=int, default=200)
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    sys.setrecursionlimit(5000)
    if a.mode == "sym":
        r = run_symbolic(a.key, a.mod, a.budget)
    elif a.mode == "conc":
        r = run_concrete(a.key, a.mod, json.load(open(a.jobs)))
    else:
        r = search_concrete(a.key, a.mod, a.seed, a.n, a.seconds)
    with open(a.out, "w") as f:
        json.dump(r, f, default=str)


if __name__ == "__main__":
    main()
