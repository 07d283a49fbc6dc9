#!/usr/bin/env python3
"""Builds the engine and the bitcode once (the checks also do this on demand)."""
import concurrent.futures as cf, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, jobs
if __name__ == "__main__":
    pool = cf.ThreadPoolExecutor(8)
    e = pool.submit(build.build_engine)
    hs = sorted({(j.harness, j.mode) for t in jobs.TABLES.values() for j in t()})
    build.build_bc(hs, pool)
    e.result()
    print("ready:", len(hs), "harness builds")
