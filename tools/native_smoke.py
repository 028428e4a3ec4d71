#!/usr/bin/env python3
"""Run contracts natively on random inputs (sanity check of the contracts themselves): native_smoke.py A17 [count]"""
import sys, os, glob, re, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import check as C
work = tempfile.mkdtemp(prefix="vc-smoke-")
try:
    N = C.Native(work)
    for cpp in sorted(glob.glob(os.path.join(C.ROOT, "contracts", sys.argv[1] + "*.cpp"))):
        txt = open(cpp).read()
        extra = [x for l in re.findall(r"^// FLAGS: (.*)$", txt, re.M) for x in l.split()]
        for nm in re.findall(r"^CONTRACT(?:_THOROUGH)?\((\w+)\)", txt, re.M):
            r = N.sample(cpp, extra, nm, 1, int(sys.argv[2]) if len(sys.argv) > 2 else 300)
            print(nm, "FAILED" if r and r["failed"] else "ok", (r or {}).get("out", "no build")[-int(os.environ.get("TAIL","300")):] if r and (r["failed"] or r.get("rc")) else "", flush=True)
finally:
    shutil.rmtree(work)
