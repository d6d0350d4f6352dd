#!/usr/bin/env python3
"""Regenerates checks/reach.json: which functions of the workspace each check enters (used by C53 to decide which
specifications a function that differs between configurations can affect) and how long it takes."""
import json, os, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT); os.chdir(ROOT)
import multiprocessing as mp
import check
from checks import config
def job(pid, q):
    from checks import lib
    t = time.time(); c = lib.Check(pid); check.table()[pid](c)
    q.put((sorted(c.fns), round(time.time() - t, 1)))
out = {}
for pid in sorted(set(x for l in config.SPECS.values() for x in l)):
    q = mp.Queue(); p = mp.Process(target=job, args=(pid, q)); p.start(); f, t = q.get(); p.join()
    out[pid] = {"t": t, "fns": f}; print(pid, t, len(f), flush=True)
json.dump(out, open("checks/reach.json", "w"), indent=0)
