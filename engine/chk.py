"""Obligation bookkeeping shared by every rule file."""
import json, os, re, shutil, sys, time
import build, ir
from ir import Fn, short

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))


class Broken(Exception):
    """The analysis lost something it is anchored on."""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        self.t0 = time.time()
        self.obs = []            # (rule, ok, instance, where, msg)
        self.rules = {}
        self.roots = set()
        self.units = set()
        self.nins = 0
        self._names = {}
        self.known = self._known()

    def _known(self):
        out = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"KNOWN: property=(\S+) rule=(\S+) instance=(\S+)", l)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3), l.strip()))
        return out

    # -- loading -----------------------------------------------------------
    def fns(self, roots, anchors=(), config="release", tu=None, mode=(),
            floor=1, pick=None, prune=True):
        """Canonical functions for root regexes (over demangled names)."""
        if isinstance(roots, str):
            roots = [roots]
        if isinstance(anchors, str):
            anchors = [anchors]
        if tu:
            bc = build.tu_bc(tu, config)
            self.units.add(tu)
        else:
            bc, m = build.module(config)
            self.units.update(m["units"])
        ds, h = build.extract(bc, roots, list(anchors), mode)
        out = [Fn(d) for d in ds]
        if prune:
            out = [f.feasible() if len(f.blocks) < 1500 else f for f in out]
        if pick:
            out = [f for f in out if pick(f)]
        self.need(len(out) >= floor,
                  "anchor functions %s: found %d, need %d" % (roots, len(out), floor))
        for f in out:
            if "size-limit" in (f.note or ""):
                raise Broken("inlining limit reached in " + f.name)
            self.roots.add(f.name)
            self.nins += len(f.ins)
        return out

    def fn(self, root, anchors=(), **kw):
        L = self.fns(root, anchors, **kw)
        return L[0]

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)
        return cond

    def has(self, rx, tu=None, config="release"):
        """Some function matching rx is defined or declared in the unit."""
        import subprocess
        bc = build.tu_bc(tu, config) if tu else build.module(config)[0]
        key = str(bc)
        if key not in self._names:
            nm = next((x for x in ("llvm-nm-18", "/usr/lib/llvm-18/bin/llvm-nm", "llvm-nm") if shutil.which(x)), "llvm-nm")
            o = subprocess.run("%s -C %s" % (nm, key), shell=True, capture_output=True, text=True).stdout
            self._names[key] = [l.split(None, 2 if l[:1] != " " else 1)[-1] for l in o.splitlines() if l.strip()]
        r = re.compile(rx)
        return any(r.search(n) for n in self._names[key])

    def expect(self, cond, rule, inst, where, msg, rx, tu=None, config="release"):
        """A required action is missing: a violation when the functions that
        perform it still exist, a lost anchor otherwise."""
        if not cond:
            self.need(self.has(rx, tu, config) or self.named(rx), "no function %s left" % rx)
            self.ob(rule, False, inst, where, msg)
        return cond

    def named(self, rx):
        """The sources still declare a function of that name (the compiler drops
        declarations nobody calls)."""
        import glob
        ids = re.findall(r"[A-Za-z_]\w{3,}", rx)
        if not ids:
            return False
        r = re.compile(r"\b%s\w*\s*\(" % re.escape(ids[-1]))
        base = os.path.join(REPO, "tcmalloc")
        return any(r.search(open(p, errors="replace").read())
                   for d in (base, base + "/internal") for p in glob.glob(d + "/*.h"))

    # -- obligations ---------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, ok, instance, where="", msg=""):
        if hasattr(where, "where"):
            where = where.where()
        instance = str(instance).replace(" ", "")
        self.obs.append((rule, bool(ok), instance, str(where), msg))
        return bool(ok)

    def each(self, fs, g):
        """g(f) for every f, on all cores; obligations are collected here."""
        import multiprocessing, traceback
        fs = list(fs)
        n = min(int(os.environ.get("VERIF_JOBS", "8")), os.cpu_count() or 1, len(fs))
        if n <= 1:
            for f in fs:
                g(f)
            return
        ctx = multiprocessing.get_context("fork")
        todo = ctx.Value("i", 0)
        ps = []
        for _k in range(n):
            r, w = ctx.Pipe(False)

            def work(w=w):
                base = len(self.obs)
                out = ("ok", "")
                try:
                    while True:
                        with todo.get_lock():
                            k = todo.value
                            todo.value += 1
                        if k >= len(fs):
                            break
                        g(fs[k])
                except (Broken, build.BuildError) as e:
                    out = ("broken", str(e))
                except BaseException:
                    out = ("error", traceback.format_exc())
                w.send((out, self.obs[base:], self.roots, self.units, self.nins))
                w.close()
                os._exit(0)
            pr = ctx.Process(target=work)
            pr.start()
            w.close()
            ps.append((pr, r))
        n0, bad = self.nins, []
        for pr, r in ps:
            out, obs, roots, units, nins = r.recv()
            pr.join()
            self.obs += obs
            self.roots |= roots
            self.units |= units
            self.nins += nins - n0
            if out[0] != "ok":
                bad.append(out)
        for k, m in bad:
            if k == "error":
                raise RuntimeError(m)
        if bad:
            raise Broken(bad[0][1])

    # -- end -------------------------------------------------------------------
    def finish(self):
        if not self.obs:
            raise Broken("no obligation was generated")
        for r in self.rules:
            if not any(o[0] == r for o in self.obs):
                raise Broken("rule %s matched no site" % r)
        bad = [o for o in self.obs if not o[1]]
        viol, seen_known = [], []
        for o in bad:
            k = [x for x in self.known if x[0] == o[0] and x[1] == o[2]]
            if k:
                seen_known.append((o, k[0]))
            else:
                viol.append(o)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": "static analysis of /repo's current sources; "
                "every obligation is one rule instance decided on the "
                "canonical SSA control-flow graph of the named root",
                "rules": self.rules,
                "obligations": len(self.obs),
                "discharged": sum(1 for o in self.obs if o[1]),
                "per_rule": {r: sum(1 for o in self.obs if o[0] == r)
                             for r in sorted({o[0] for o in self.obs})},
                "roots_analysed": sorted(ir.short(x) for x in self.roots)[:200],
                "n_roots": len(self.roots),
                "n_translation_units": len(self.units),
                "n_instructions": self.nins,
                "samples": ["%s [%s] %s" % (o[0], o[2], o[3])
                            for o in self.obs[:: max(1, len(self.obs) // 25)]][:40],
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o, k in seen_known:
            print("KNOWN-FINDING: property=%s rule=%s instance=%s at %s: %s" %
                  (self.pid, o[0], o[2], o[3], o[4]))
        if viol:
            rp = os.path.join(EVID, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for o in viol:
                    f.write("rule %s: %s\ninstance: %s\nat: %s\n%s\n\n" %
                            (o[0], self.rules.get(o[0], ""), o[2], o[3], o[4]))
            for o in viol:
                print("%s: rule %s broken for %s: %s" % (o[3], o[0], o[2], o[4]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s obligations=%d roots=%d" %
              (self.pid, len(self.obs), len(self.roots)))
        return 0


def main(pid, run):
    c = Check(pid)
    try:
        run(c)
        rc = c.finish()
    except build.BuildError as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        rc = 3
    except Broken as e:
        # A broken obligation that was already established stays a violation.
        if any(not o[1] for o in c.obs):
            c.rules = {r: t for r, t in c.rules.items()
                       if any(o[0] == r for o in c.obs)}
            rc = c.finish()
            if rc == 1:
                return rc
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        rc = 3
    return rc
