"""Debug view: python3 engine/pf.py root-rx [anchor-rx...]; env TU, CFG, W (width), N (disjuncts), A=1 (all sites)"""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(os.path.dirname(H), "rules"))
import build
from ir import Fn, show
from paths import PF
from signal import signal, SIGPIPE, SIG_DFL
signal(SIGPIPE, SIG_DFL)
W, N = int(os.environ.get("W", 220)), int(os.environ.get("N", 2))
tu, cfg = os.environ.get("TU", "tcmalloc/tcmalloc.cc"), os.environ.get("CFG", "release")
A = sys.argv[2:] + [r"SpinLock::(Lock|Unlock|lock|unlock)", "^absl::", "ReportCorruptedFree", "ReportDoubleFree"]
bc = build.tu_bc(tu, cfg) if tu != "ALL" else build.module(cfg)[0]
ds, h = build.extract(bc, [sys.argv[1]], A)


def sf(x):
    return show(x) if x[0] != "cmp" else "%s %s %s" % (show(x[2]), x[1], show(x[3]))


def facts(S):
    return " ; ".join(sorted((sf(x) for x in S), key=len))[:W]


for d in ds:
    f = Fn(d)
    if len(f.blocks) < 400:
        f = f.feasible()
    print("##", f.name[:200], len(f.ins), len(f.blocks))
    if len(f.blocks) > 400:
        continue
    P = PF(f, inv=None)
    for i in f.live():
        if i.b in f.crash:
            continue
        if i.op in ("call", "store", "icall", "atomicrmw", "cmpxchg") or os.environ.get("A"):
            if i.op == "phi" or i.op == "br":
                continue
            print("  @%d b%s" % (i.id, i.b), i.op, (i.cshort if i.op == "call" else ""), (", ".join(show(f.term(o)) for o in i.ops))[:W], i.ord or "")
            for S in list(P.at(i))[:N]:
                print("       S:", facts(S))
    for t, S in P.rets():
        print("  RET", show(t)[:W] if t else None, "|", facts(S))
