#!/usr/bin/env python3
"""check.py Cxx  -- decide one property.

1. every contract of the property is discharged by the symbolic verifier on
   the current source of /repo (one worker process per contract);
2. refuted obligations are replayed on the uninstrumented code;
3. whatever could not be decided deductively falls back to a bounded concrete
   check of the same contract (reported as bounded);
4. a bounded concrete cross-check of the contracts and end-to-end scenarios.
"""

import argparse
import concurrent.futures
import glob
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
from contracts.index import ASSUMPTIONS, CONCRETE, PROPS, TRUSTED  # noqa: E402

ENVV = dict(os.environ)
ENVV.update(
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    PROJ_NETWORK="OFF",
    MPLBACKEND="Agg",
)


def worker(args, timeout, tmp):
    fd, out = tempfile.mkstemp(suffix=".json", dir=tmp)
    os.close(fd)
    cmd = [PY, "-m", "pyded.worker", *args, "--out", out]
    try:
        p = subprocess.run(cmd, cwd=VERIF, env=ENVV, timeout=timeout, capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        return dict(error="timeout", cmd=" ".join(cmd))
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:  # noqa: BLE001
        return dict(error=(p.stderr or p.stdout)[-2500:] or f"exit {p.returncode}", cmd=" ".join(cmd))


def in_repo_frame(tb):
    """the exception was raised by code of the repository (or its libraries),
    not by the harness"""
    last = None
    for line in tb.splitlines():
        line = line.strip()
        if line.startswith('File "'):
            last = line.split('"')[1]
    return last is not None and not last.startswith(VERIF + os.sep)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.spec = PROPS[prop]
        self.violations = []
        self.bounded = []
        self.known = []
        self.results = {}
        self.conc = {}
        self.notes = []
        self.scale = 1 if tier == "quick" else 8
        self.deadline = self.t0 + (650 if tier == "quick" else 6 * 3600)

    def left(self):
        return max(5, self.deadline - time.time())

    def run(self, tmp):
        self.tmp = tmp
        budget = 240 if self.tier == "quick" else 1800
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = {}
            for mod, key in self.spec["contracts"]:
                a = ["sym", key, "--mod", mod, "--budget", str(budget)]
                futs[key] = ex.submit(worker, a, min(budget + 60, self.left()), tmp)
            cross = {}
            for mod, key in self.spec["contracts"]:
                n, secs = 200 * self.scale, 10 * self.scale
                if key in CONCRETE:  # decided by concrete runs only: never counted as proved
                    n, secs = 1500 * self.scale, 30 * self.scale
                a = ["search", key, "--mod", mod, "-n", str(n), "--seconds", str(secs), "--seed", str(self.seed)]
                cross[key] = ex.submit(worker, a, min(secs + 60, self.left()), tmp)
            for mod, key in self.spec["contracts"]:
                self.results[key] = futs[key].result()
                self.conc[key] = cross[key].result()
            todo = [ex.submit(self.judge, mod, key) for mod, key in self.spec["contracts"]]
            for t in todo:
                t.result()

    # -- verdict of one contract
    def judge(self, mod, key):
        r, c = self.results[key], self.conc[key]
        if c.get("error"):
            self.notes.append(f"{key}: concrete cross-check: {c['error'][-300:]}")
        for k in c.get("known", []):
            if k not in self.known:
                self.known.append(k)
        for b in c.get("bad", []):
            if self.real(b):
                self.violation(key, self.what(b), dict(kind="conc", mod=mod, key=key, values=b["log"], result=b))
                return
        if r.get("error"):
            if key in CONCRETE:
                return
            r["status"] = "error"
            self.notes.append(f"{key}: {r['error'][-600:]}")
            return self.fallback(mod, key, "worker: " + r["error"][-200:])
        if r["status"] == "concrete":
            self.bounded.append(dict(contract=key, reason="bounded stand-in: " + r["bounded"], runs=c.get("stats"), error=c.get("error")))
            return
        fails = r.get("failures", [])
        excs = r.get("exceptions", [])
        if fails or excs:
            jobs, srcs = [], []
            seen = {}
            for f in fails + excs:
                if f.get("model") is None or seen.get(f["name"], 0) >= 3 or len(jobs) >= 24:
                    continue
                seen[f["name"]] = seen.get(f["name"], 0) + 1
                for s in range(3):
                    jobs.append(dict(values=f["model"], seed=self.seed + s))
                    srcs.append(f)
            if jobs:
                fd, jf = tempfile.mkstemp(suffix=".json", dir=self.tmp)
                with os.fdopen(fd, "w") as f:
                    json.dump(jobs, f)
                out = worker(["conc", key, "--mod", mod, "--jobs", jf], min(120, self.left()), self.tmp)
                if isinstance(out, list):
                    for o, f in zip(out, srcs):
                        if self.real(o):
                            self.violation(
                                key, self.what(o),
                                dict(kind="conc", mod=mod, key=key, values=o["log"], obligation=f["name"], result=o),
                            )
                            return
            s = self.search(mod, key, 1500 * self.scale, 45 * self.scale)
            for b in s.get("bad", []):
                if self.real(b):
                    self.violation(key, self.what(b), dict(kind="conc", mod=mod, key=key, values=b["log"], result=b))
                    return
            if fails:
                f = fails[0]
                self.violation(
                    key, f["name"], dict(kind="obligation", mod=mod, key=key, obligation=f["name"], verifier=fails[:6]), False
                )
                return
            return self.fallback(mod, key, "exception on a symbolic path: " + excs[0]["detail"][-300:], searched=s)
        if r["status"] != "ok" or r["undecided"] or r["obligations"] == 0 or r["completed"] == 0:
            why = r.get("reason") or (
                "undecided: " + ", ".join(r["undecided"][:3]) if r.get("undecided") else "no completed path"
            )
            return self.fallback(mod, key, why)
        if r.get("bounded"):
            self.bounded.append(dict(contract=key, reason="bounded stand-in: " + r["bounded"], obligations=r["obligations"],
                                     discharged=r["discharged"]))

    def search(self, mod, key, n, secs):
        secs = min(secs, self.left() - 4)
        return worker(
            ["search", key, "--mod", mod, "-n", str(n), "--seconds", str(secs), "--seed", str(self.seed + 17)],
            secs + 60, self.tmp,
        )

    def fallback(self, mod, key, why, searched=None):
        s = searched or self.search(mod, key, 1500 * self.scale, 45 * self.scale)
        for b in s.get("bad", []):
            if self.real(b):
                self.violation(key, self.what(b), dict(kind="conc", mod=mod, key=key, values=b["log"], result=b))
                return
        self.bounded.append(dict(contract=key, reason=why[:500], runs=s.get("stats"), error=s.get("error")))

    def real(self, o):
        if o.get("outcome") == "fail":
            return True
        return o.get("outcome") == "exception" and in_repo_frame(o.get("tb", ""))

    def what(self, o):
        if o.get("failures"):
            return o["failures"][0][0]
        tb = o.get("tb", "").strip().splitlines()
        return "exception: " + (tb[-1] if tb else "?")

    def violation(self, key, what, replay, replayed=True):
        n = len(self.violations)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.replay{n}.json")
        replay.update(property=self.prop, contract=key, violated=what)
        with open(path, "w") as f:
            json.dump(replay, f, indent=1, default=str)
        self.violations.append((key, what, path, replayed))

    # -- report
    def evidence(self):
        res = {k: r for k, r in self.results.items() if not r.get("error")}
        bkeys = {b["contract"] for b in self.bounded}
        full = [r for r in res.values() if not r.get("bounded")]
        obl = sum(r["obligations"] for r in full)
        dis = sum(r["discharged"] for r in full)
        targets = sorted({t for r in full for t in r.get("targets", [])})
        btargets = sorted({t for r in res.values() for t in r.get("targets", [])} - set(targets))
        runs = sum(c.get("stats", {}).get("ok", 0) for c in self.conc.values())
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level="proof" if full else "other",
            coverage=dict(
                obligations=obl,
                discharged=dis,
                checker_cmd=f"{PY} {VERIF}/check.py {self.prop} (z3 via pyded)",
                trusted_base=TRUSTED,
                functions_under_contract=targets,
                functions_checked_within_bounds_only=btargets,
                contracts={
                    k: dict(
                        status="bounded" if k in bkeys else ("proved" if r["obligations"] == r["discharged"] and r["status"] == "ok" and not r.get("exceptions") else "failed"),
                        obligations=r["obligations"], discharged=r["discharged"], undecided=len(r["undecided"]),
                        paths=r["paths"], completed_paths=r["completed"], loop_invariants_checked=r["inv_checks"],
                        loops_cut=r.get("cut"), z3_calls=r["z3_calls"], z3_seconds=r["z3_time"], wall_s=r["wall"],
                        names={n: v for n, v in r["names"].items()},
                    )
                    for k, r in res.items()
                },
                solver="z3 (python package in /opt/veriftools/pyvenv)",
                solver_seconds=round(sum(r["z3_time"] for r in res.values()), 2),
                bounded_stand_ins=self.bounded,
                bounded_note="bounded stand-ins (contracts over a bounded domain, or concrete runs of a contract) are not counted in obligations/discharged",
                cross_check=dict(
                    contract_runs=runs,
                ),
                samples=[c.get("sample") for c in list(self.conc.values())[:2]],
                known_findings=self.known,
                notes=self.notes,
            ),
            assumptions=ASSUMPTIONS + self.spec.get("assumptions", []),
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        self.within = sum(r["obligations"] for r in res.values()) - obl + runs
        if not full:
            b = [r for r in res.values() if r["z3_calls"]]
            ev["coverage"].update(
                explanation="Bounded only. Within the bounds stated under bounded_stand_ins, the contract was decided symbolically on the real "
                f"code (all values of the inputs, z3): {sum(r['discharged'] for r in b)} of {sum(r['obligations'] for r in b)} obligations on "
                f"{sum(r['completed'] for r in b)} paths; and by {runs} runs of the contract on random inputs. Nothing of it is counted as proved.",
                evaluations=runs,
            )
        p = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(p, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        return ev


def replay(path):
    with open(path) as f:
        r = json.load(f)
    with tempfile.TemporaryDirectory() as tmp:
        if r["kind"] == "conc":
            jf = os.path.join(tmp, "j.json")
            with open(jf, "w") as f:
                json.dump([dict(values=r["values"])], f)
            out = worker(["conc", r["key"], "--mod", r["mod"], "--jobs", jf], 300, tmp)
        else:
            out = worker(["sym", r["key"], "--mod", r["mod"]], 900, tmp)
        print(json.dumps(out, indent=1, default=str))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.prop == "replay":
        return 0
    if a.prop.endswith(".json"):
        replay(a.prop)
        return 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for f in glob.glob(os.path.join(VERIF, "evidence", a.prop + ".replay*.json")):
        os.unlink(f)
    c = Check(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)
    with tempfile.TemporaryDirectory(prefix="pyded") as tmp:
        c.run(tmp)
    ev = c.evidence()
    cov = ev["coverage"]
    print(f"{a.prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, "
          f"{len(c.results)} contracts ({len(c.bounded)} bounded), {ev['wall_s']} s")
    for b in c.bounded:
        print(f"BOUNDED: {b['contract']}: {b['reason'][:200]}")
    for n in c.notes:
        print("NOTE:", n[:600])
    for k in c.known:
        print(f"KNOWN-FINDING: property={a.prop} {k}")
    for key, what, path, replayed in c.violations:
        print(f"  {key}: {what}")
    if c.violations:
        c.violations.sort(key=lambda v: not v[3])
        key, what, path, replayed = c.violations[0]
        print(f"VIOLATION property={a.prop} replay={path}" + ("" if replayed else " no-failing-input-found"))
        return 1
    if not cov["obligations"] and not c.within:
        print("no obligation was generated")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
