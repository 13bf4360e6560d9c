#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py, confirming each change in a
scratch copy: demo passes without it, fails with it.
usage: mkseed.py [--nobuild] id..."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from seeds import S
HEAD = '''#!/bin/bash
# Runs in the repository root; every file it writes is in its own scratch folder.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
R=$PWD
'''
HDR = HEAD + '''g++ -std=c++17 -O1 -w {flags} -I"$R" "$D/demo.cc" {srcs} -o "$T/demo" -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread || exit 2
{env}timeout {tmo} "$T/demo"
'''
SHIM = HEAD + '''g++ -std=c++17 -O1 -w {flags} -DNDEBUG -DTCMALLOC_INTERNAL_8K_PAGES -include "$D/shim/prelude.h" -I"$D/shim" -I"$R" "$D/demo.cc" {srcs} -o "$T/demo" -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread || exit 2
{env}timeout {tmo} "$T/demo"
'''
FULL = HEAD + '''F="-std=c++17 -O1 -w {flags} -DNDEBUG -DTCMALLOC_INTERNAL_8K_PAGES -fno-builtin-malloc -include $D/shim/prelude.h -I$D/shim -I$R"
mkdir -p "$T/o"
for f in "$R"/tcmalloc/*.cc "$R"/tcmalloc/internal/*.cc; do
  case "$(basename "$f")" in
    profile_builder.cc|profile_marshaler.cc|logging_test_helper.cc|*_test.cc|*_fuzz.cc|*_benchmark.cc|mock_*|want_*|enable_heap_partitioning*|alloc_at_least.cc{skip}) continue;;
  esac
  echo "$f"
done > "$T/files.txt"
xargs -P 8 -I{{}} sh -c 'g++ '"$F"' -c {{}} -o '"$T"'/o/$(echo {{}} | tr / _).o' < "$T/files.txt" || exit 2
for s in "$R"/tcmalloc/internal/percpu_rseq_asm.S; do gcc -I"$R" -I"$D/shim" -DTCMALLOC_INTERNAL_8K_PAGES -c "$s" -o "$T/o/$(basename "$s").o" || exit 2; done
g++ $F "$D/demo.cc" "$T"/o/*.o -o "$T/demo" -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread -ldl || exit 2
{env}timeout {tmo} "$T/demo"
'''
KIND = {"hdr": HDR, "shim": SHIM, "full": FULL}


def make(s):
    d = os.path.join(H, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if s["kind"] != "hdr":
        shutil.copytree(os.path.join(H, "shim"), os.path.join(d, "shim"))
    open(os.path.join(d, "demo.cc"), "w").write(s["demo"])
    sh = KIND[s["kind"]].format(flags=s.get("flags", ""), srcs=" ".join('"$R/%s"' % x for x in s.get("srcs", [])),
                                env=s.get("env", ""), tmo=s.get("tmo", 120), skip=s.get("skip", ""))
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(sh)
    os.chmod(p, 0o755)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
        r = w + "/repo"
        for f, o, n in s["edits"]:
            q = os.path.join(r, f)
            t = open(q).read()
            if t.count(o) != 1:
                return "%s: %d matches in %s" % (s["id"], t.count(o), f)
            open(q, "w").write(t.replace(o, n))
        diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        bad = subprocess.run(["bash", p], cwd=r, capture_output=True, text=True)
        subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
        good = subprocess.run(["bash", p], cwd=r, capture_output=True, text=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    m = {"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}
    json.dump(m, open(os.path.join(d, "meta.json"), "w"), indent=1)
    msg = "%s: good=%d bad=%d" % (s["id"], good.returncode, bad.returncode)
    if good.returncode or bad.returncode in (0, 2):
        msg += " NOT USABLE\n" + (good.stdout + good.stderr)[-600:] + "\n--\n" + (bad.stdout + bad.stderr)[-600:]
    return msg


def catch(s):
    """Runs this property's check on a patched scratch copy."""
    d = os.path.join(H, "seeded", s["id"])
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
        subprocess.check_call(["git", "-C", w + "/repo", "apply", d + "/patch.diff"])
        e = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_EVID=w + "/ev")
        c = subprocess.run(["python3", os.path.join(H, "check.py"), s["prop"]], env=e, capture_output=True, text=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    ok = c.returncode == 1 and "VIOLATION property=" + s["prop"] in c.stdout
    mj = os.path.join(d, "meta.json")
    m = json.load(open(mj))
    m["caught"] = s["prop"] if ok else "missed"
    json.dump(m, open(mj, "w"), indent=1)
    return "   check rc=%d %s" % (c.returncode, "\n".join(c.stdout.splitlines()[-3:])[:500])


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    for s in S:
        if not a or s["id"] in a or s["prop"] in a:
            if "--nobuild" not in sys.argv:
                print(make(s), flush=True)
            print(catch(s), flush=True)
