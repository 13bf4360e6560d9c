#!/usr/bin/env python3
"""Exercises the checks on broken and on behaviour-preserving variants.

selftest/<pid>.py holds a list M of (name, kind, file, old, new) with kind
"bad" (the check must report a violation) or "ok" (must stay quiet).  Every
variant is applied to a scratch copy of the sources; /repo is never touched.
usage: selftest/run.py [pid[:name] ...]"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load(pid):
    spec = importlib.util.spec_from_file_location("m" + pid, os.path.join(HERE, pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.M


REUSE = """
import sys, os, shutil
sys.path.insert(0, ".")
import build
clean, changed = sys.argv[1], sys.argv[2:]
d = os.path.join(build.workdir(), "tu-release")
os.makedirs(d, exist_ok=True)
me = build.REPO.strip("/").replace("/", "_")
for n in os.listdir(clean):
    if n.startswith("repo_") and n.endswith(".bc") and n[5:-3] not in [c.replace("/", "_") for c in changed]:
        shutil.copy(os.path.join(clean, n), os.path.join(d, me + n[4:]))
    elif n.startswith("verif_"):
        shutil.copy(os.path.join(clean, n), os.path.join(d, n))
"""


def one(job):
    pid, (name, kind, file, old, new) = job
    d = tempfile.mkdtemp(prefix="vmut")
    try:
        r = os.path.join(d, "repo")
        os.makedirs(r)
        shutil.copytree("/repo/tcmalloc", os.path.join(r, "tcmalloc"),
                        ignore=shutil.ignore_patterns("testing", "*_test.cc", "*_fuzz.cc", "*_benchmark.cc"))
        pairs = [(file, old, new)] if isinstance(old, str) else [(file, o, n) for o, n in zip(old, new)]
        for f, o, n in pairs:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(o) < 1:
                return pid, name, kind, "NOTFOUND", o
            s = s.replace(o, n) if kind.endswith("*") else s.replace(o, n, 1)
            open(p, "w").write(s)
        env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=os.path.join(d, "b"), VERIF_EVID=os.path.join(d, "ev"))
        os.makedirs(os.path.join(d, "b"))
        for x in os.listdir(os.path.join(VERIF, "build")):
            if x.startswith("irx-"):
                os.link(os.path.join(VERIF, "build", x), os.path.join(d, "b", x)) if False else shutil.copy(os.path.join(VERIF, "build", x), os.path.join(d, "b", x))
        # units that cannot see the change are taken over from the clean tree
        clean = os.environ.get("VERIF_CLEAN_TU")
        if clean and all(f.endswith(".cc") for f, _, _ in pairs):
            subprocess.run([sys.executable, "-c", REUSE, clean] + [f for f, _, _ in pairs], env=env, cwd=os.path.join(VERIF, "engine"))
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid], env=env, capture_output=True, text=True, cwd=VERIF)
        return pid, name, kind, p.returncode, (p.stdout + p.stderr)[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sel = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(HERE) if f[0] == "C" and f.endswith(".py"))
    jobs = []
    sys.path.insert(0, os.path.join(VERIF, "engine"))
    import build
    build.module()
    os.environ["VERIF_CLEAN_TU"] = os.path.join(build.workdir(), "tu-release")
    for s in sel:
        pid, _, nm = s.partition(":")
        jobs += [(pid, m) for m in load(pid) if not nm or nm in m[0]]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for pid, name, kind, rc, out in ex.map(one, jobs):
            want = 1 if kind.startswith("bad") else 0
            ok = rc == want
            bad += not ok
            print("%s %s %-28s %-5s rc=%s %s" % ("ok  " if ok else "FAIL", pid, name, kind, rc, "" if ok and "-v" not in os.environ.get("V", "") else out.strip()))
    print("failures:", bad)
    sys.exit(bool(bad))
