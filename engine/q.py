"""Debug: python3 engine/q.py 'root-regex' ['anchor-regex' ...]
env: CFG=config TU=translation unit ONE=1 (first match only) RAW=1 LIST=1"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, ir
cfg = os.environ.get("CFG", "release")
tu = os.environ.get("TU")
bc = build.tu_bc(tu, cfg) if tu else build.module(cfg)[0]
fns, h = build.extract(bc, [sys.argv[1]], sys.argv[2:] + [r"SpinLock::(Lock|Unlock|lock|unlock)", "^absl::"])
for f in fns:
    F = ir.Fn(f)
    if os.environ.get("LIST"):
        print(F.name, len(F.blocks), len(F.ins), F.note)
        continue
    if not os.environ.get("RAW") and len(F.blocks) < 400:
        F = F.feasible()
    ir.dump(F)
    if os.environ.get("ONE"):
        break
