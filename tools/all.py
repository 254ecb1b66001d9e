"""Run every contract symbolically once: python3 tools/all.py [pattern]"""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.index import PROPS

seen = {}
for p in PROPS.values():
    for m, k in p["contracts"]:
        seen[k] = m
pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")


def one(k):
    fd, f = tempfile.mkstemp()
    os.close(fd)
    subprocess.run(["/opt/venv/bin/python", "-m", "pyded.worker", "sym", k, "--mod", seen[k], "--budget", "400", "--out", f], cwd=V, capture_output=True)
    try:
        r = json.load(open(f))
    except Exception as e:
        return k, dict(status="crash " + repr(e))
    os.unlink(f)
    return k, r


with cf.ThreadPoolExecutor(8) as ex:
    for k, r in ex.map(one, [k for k in sorted(seen) if pat.search(k)]):
        ok = r.get("status") == "ok" and r["obligations"] == r["discharged"] and not r["undecided"] and not r.get("exceptions") and r["completed"]
        print("ok " if ok else "BAD", k, r.get("status"), r.get("reason", "")[:100], f'{r.get("discharged")}/{r.get("obligations")}', "wall", r.get("wall"), r.get("undecided", [])[:2], [f["name"] for f in r.get("failures", [])][:2], "bounded" if r.get("bounded") else "")
