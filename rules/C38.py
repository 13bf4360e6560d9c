"""Live-sample recorder: every record is on the list once and live or dead, never both."""
from tcm import *
from lib import _, iterations, lock_named
from C05 import n_

A = ["^absl::base_internal", "SpinLock::", "^absl::", "LockAnd", "FunctionRef"]
D = "drivers/d_tmpl.cc"
G = "arg0->graveyard_"
GL = G + "->lock"
GD = G + "->dead"


def run(c):
    c.rule("empty", "a new recorder has no records and an empty graveyard")
    c.rule("register", "a registration revives one dead record or creates and publishes one, and fills it in before anyone can see it live")
    c.rule("unregister", "an unregistered record is disposed of once and joins the graveyard once")
    c.rule("visit", "exactly the live records are visited, each under its lock")
    c.rule("locked", "liveness changes only under the graveyard lock and the record's own lock")
    c.rule("route", "the recorder's users hand it the record they mean")
    R = r"SampleRecorder<.*>::"
    for f in c.fns(R + r"SampleRecorder\(", A, tu=D, floor=1):
        st = {show(w.addr): show(w.val) for w in writes(f)}
        c.ob("empty", st.get(GD) == G, "graveyard", f, "the graveyard does not start out empty")
        c.ob("empty", st.get("arg0->all_") in ("null", "0"), "list", f, "the list does not start out empty")
    for f in c.fns(R + r"Register<", A, tu="tcmalloc/tcmalloc.cc", floor=1):
        register(c, f)
    for f in c.fns(R + r"Unregister\(", A, tu=D, floor=1):
        one = lambda i: "dispose" if i.op == "call" and i.callee is None or i.op == "icall" else None
        P = PF(f, events=lock_named(f, lambda i: one(i) or ("bury" if i.op == "store" and show(f.term(i.ops[1])) == GD else "dead" if i.op == "store" and show(f.term(i.ops[1])) == "arg1->dead" else None)))
        for t, S in P.rets():
            d = [x for x in S if x[0] == "cmp" and "dispose_" in show(x[2])]
            none = any(x[1] == "eq" for x in d)
            c.ob("unregister", n_(P, S, "dispose") == (0 if none else 1), "dispose", f, "the dispose callback is run %s times" % n_(P, S, "dispose"))
            c.ob("unregister", n_(P, S, "bury") == 1 and n_(P, S, "dead") == 1, "once", f, "the record joins the graveyard %s times" % n_(P, S, "bury"))
            c.ob("locked", not held(S), "freed", f, "returns with a lock held")
        bury(c, f, P, "arg1", ("arg", 1), "unregister")
        for i in f.live("call"):
            if one(i):
                c.ob("unregister", f.term(i.ops[-1]) == ("arg", 1), "dispose-arg", i, "disposes of another record")
                for S in P.at(i):
                    c.ob("unregister", n_(P, S, "dead") == 0, "dispose-first", i, "the record is already reusable when it is disposed of")
    for f in c.fns(R + r"UnregisterAll\(", A, tu=D, floor=1):
        sweep(c, f)
    for f in c.fns(R + r"Iterate\(", A, tu=D, floor=1):
        visit(c, f)
    for f in c.fns(R + r"SetDisposeCallback\(", A, tu=D, floor=1):
        x = [i for i in f.live("atomicrmw")]
        c.ob("unregister", len(x) == 1 and x[0].d.get("rop") == "xchg" and f.term(x[0].ops[1]) == ("arg", 1) and all(f.term(r.ops[0]) == f.term(x[0]) for r in f.rets), "set-dispose", f, "the callback is not exchanged")
    users(c)


def bury(c, f, P, name, v, rule):
    """v.dead = graveyard.dead; graveyard.dead = v, under both locks."""
    ws = [w for w in writes(f) if w.kind == "store"]
    a = [w for w in ws if show(w.addr) == GD]
    b = [w for w in ws if show(w.addr) == name + "->dead"]
    c.ob(rule, len(a) == 1 and len(b) == 1, "bury-stores", f, "graveyard changed in %d places" % (len(a) + len(b)))
    for w in b:
        c.ob(rule, w.val[0] == "load" and show(w.val[1]) == GD, "bury-next", w.ins, "the graveyard's tail is lost: " + show(w.val)[:60])
        for x in a:
            i = [k for k in f.live("load") if f.term(k) == w.val]
            c.ob(rule, any(f.dom(k, x.ins) for k in i), "bury-order", w.ins, "the graveyard's tail is read after it changed")
    for w in a:
        c.ob(rule, w.val == v, "bury-head", w.ins, "another record joins the graveyard")
    for w in a + b:
        for S in P.at(w.ins):
            c.ob("locked", ("held", GL) in S, "graveyard", w.ins, "the graveyard changes without its lock")
            c.ob("locked", ("held", name + "->lock") in S, "record", w.ins, "a record's liveness changes without its lock")


def register(c, f):
    def kindof(i):
        if i.op == "store":
            a = show(f.term(i.ops[1]))
            if a == GD:
                return "pop"
            if a.endswith("->dead"):
                return "revive"
            if a.endswith("->next") and "sampled" not in a:
                return "next"
        if i.op == "cmpxchg" and show(f.term(i.ops[0])) == "arg0->all_":
            return "push"
        if i.op in ("store", "atomicrmw") and show(f.term(i.ops[0 if i.op == "atomicrmw" else 1])) == "arg0->all_":
            return "rawpush"
        if i.op == "call" and re.search(r"memcpy|memmove|PrepareForSampling$|StackTrace::operator=", i.cshort or "") and ("arg", 1) in [f.term(o) for o in i.ops]:
            return "fill"
    P = PF(f, K=48, events=lock_named(f, kindof))
    G0 = ("load",)
    for t, S in P.rets():
        for v, F in cases(f, t, S):
            if entails(F, cmp("eq", v, ("null",))):
                continue
            pops = n_(P, S, "pop")
            old = v[0] == "load" and show(v[1]) == GD
            c.ob("locked", not held(S), "reg-freed", f, "returns with a lock held")
            c.ob("register", n_(P, S, "fill") in (1, 2), "fill", f, "the record is not filled in")
            c.ob("register", n_(P, S, "rawpush") == 0 if "rawpush" in P.labels else True, "push-kind", f, "the list head is overwritten")
            if old:
                c.ob("register", pops == 1 and n_(P, S, "revive") == 1, "revive", f, "the revived record leaves the graveyard %s times" % pops)
                c.ob("register", n_(P, S, "push") == 0, "revive-push", f, "a revived record is added to the list again")
                c.ob("register", any(x[0] == "cmp" and x[1] == "ne" and {show(x[2]), show(x[3])} == {G, "*" + GD} for x in F), "revive-real", f, "the graveyard itself is revived")
            else:
                # a record popped and found null cannot exist: the graveyard is circular
                if pops:
                    c.ob("register", any(x == cmp("eq", y, ("null",)) for x in F for y in [z for z in x[1:] if isinstance(z, tuple)] if show(y) == "*" + GD), "lost", f, "a dead record is dropped")
                c.ob("register", n_(P, S, "push") in (1, 2), "push", f, "a new record is never added to the list")
                ok = v[0] == "phi" or v[0] == "load" or v[0] == "call"
                c.ob("register", ok, "new", f, "returns another record: " + show(v)[:60])
    rv = {v for t, S in P.rets() for v, F in cases(f, t, S)} | {f.term(r.ops[0]) for r in f.rets}
    for i in f.live("cmpxchg"):
        if kindof(i) != "push":
            continue
        new, exp = f.term(i.ops[2]), f.term(i.ops[1])
        c.ob("register", i.ord in REL or i.ord2 in REL if hasattr(i, "ord2") else i.ord in REL, "publish", i, "a record is published without release order")
        c.ob("register", new in rv or any(new in {v for v, _F in cases(f, x)} for x in rv), "push-what", i, "another record is added to the list")
        nx = [w for w in writes(f) if w.kind == "store" and show(w.addr) == show(new) + "->next" and f.dom(w.ins, i)]
        c.ob("register", any(w.val == exp for w in nx), "push-next", i, "the list's tail is lost")
        fills = [k for k in f.live() if kindof(k) == "fill" and f.dom(k, i)]
        c.ob("register", bool(fills), "fill-first", i, "a record is published before it is filled in")
        # a failed exchange retries
        hdr = loop_of(f, i)
        c.ob("register", hdr is not None or not i.d.get("weak", True), "retry", i, "a failed publication is not retried")
        okv = ("ext", f.term(i), (1,))
        for S in [S for r in f.rets for S in P.at(r)]:
            if n_(P, S, "push"):
                c.ob("register", any(x == okv or (x[0] == "cmp" and x[1] == "ne" and x[2] == okv and x[3] == I(0)) for x in S), "retry", i, "gives up a failed publication")
    for w in writes(f):
        if w.kind != "store":
            continue
        k = kindof(w.ins)
        if k == "pop":
            c.ob("register", w.val[0] == "load" and show(w.val[1]) == "*" + GD + "->dead", "pop-next", w.ins, "the graveyard's tail is lost")
            for S in P.at(w.ins):
                c.ob("locked", ("held", GL) in S, "pop", w.ins, "the graveyard changes without its lock")
        if k == "revive" and show(w.addr) == "*" + GD + "->dead":
            c.ob("register", w.val == ("null",), "revive-null", w.ins, "a revived record still looks dead")
            for S in P.at(w.ins):
                c.ob("locked", ("held", GL) in S and ("held", "*" + GD + "->lock") in S, "revive", w.ins, "a record is revived without its locks")
    for i in f.live():
        if kindof(i) == "fill":
            dst = [show(f.term(o)) for o in i.ops if f.term(o) != ("arg", 1)]
            if any(("*" + GD) in x for x in dst[:1]):
                for S in P.at(i):
                    c.ob("locked", ("held", "*" + GD + "->lock") in S, "fill", i, "a revived record is filled in without its lock")
    nw = [w for w in writes(f) if w.kind == "store" and show(w.addr).endswith("->dead") and show(w.addr) != GD and "graveyard" not in show(w.addr)]
    c.ob("register", nw and all(w.val == ("null",) for w in nw), "new-live", f, "a new record looks dead")


def chain(c, f, rule):
    """Loop phi walking the list from its head, or None."""
    for L in f.loops:
        for p in [i for i in f.blocks[L["header"]] if i.op == "phi"]:
            ini = phi_inits(f, p.id)
            if len(ini) == 1 and ini[0][0] == "load" and show(ini[0][1]) == "arg0->all_":
                ld = [i for i in f.live("load") if f.term(i) == ini[0]]
                c.ob(rule, all(i.ord in ACQ for i in ld), "acquire", f, "the list is read without acquire order")
                its = iterations(f, L["header"])
                for ins, F, nx in its:
                    n = nx.get(p.id)
                    c.ob(rule, n is not None and n[0] == "load" and show(n[1]) == show(("phi", p.id)) + "->next", "step", f, "the walk skips records: " + (show(n)[:60] if n else "?"))
                ex = [x for b in L["blocks"] for s in f.succ[b] if s not in L["blocks"] and s not in f.crash for x in [f.edge_facts(b, s)]]
                for F in ex:
                    c.ob(rule, any(x == cmp("eq", ("phi", p.id), ("null",)) for x in F), "end", f, "the walk stops early")
                c.ob(rule, bool(its) and bool(ex), "walk", f, "the walk never advances")
                return L["header"], ("phi", p.id), its
    c.ob(rule, False, "walk", f, "the list is not walked from its head")
    return None


def isdead(F, s):
    """True dead, False live, None unknown, from facts."""
    for x in F:
        if x[0] == "cmp" and x[1] in ("eq", "ne") and x[3] == ("null",) and x[2][0] == "load" and show(x[2][1]) == s + "->dead":
            return x[1] == "ne"
    return None


def visit(c, f):
    w = chain(c, f, "visit")
    if not w:
        return
    h, p, its = w
    s = show(p)
    calls_ = lambda i: i.op == "icall" or i.op == "call" and (i.callee is None or "FunctionRef::operator()" in i.cshort)
    P = PF(f, events=lock_named(f))
    for ins, F, nx in its:
        k = [i for i in ins if calls_(i)]
        d = isdead(F, s)
        c.ob("visit", d is not None, "test", f, "liveness is not looked at")
        c.ob("visit", len(k) == (0 if d else 1), "once", f, "a %s record is visited %d times" % ("dead" if d else "live", len(k)))
        for i in k:
            c.ob("visit", f.term(i.ops[-1]) == p and ("arg", 1) in set(subterms(f.term(i.ops[0]))) , "what", i, "another record is visited")
    for i in f.live():
        if calls_(i) or (i.op == "load" and show(f.term(i.ops[0])) == s + "->dead"):
            for S in P.at(i):
                c.ob("visit", ("held", s + "->lock") in S, "locked", i, "a record is looked at without its lock")
    for S in [S for r in f.rets for S in P.at(r)]:
        c.ob("visit", not held(S), "freed", f, "returns with a lock held")


def sweep(c, f):
    w = chain(c, f, "unregister")
    if not w:
        return
    h, p, its = w
    s = show(p)
    P = PF(f, events=lock_named(f))
    for ins, F, nx in its:
        d = isdead(F, s)
        none = any(x[0] == "cmp" and x[1] == "eq" and "dispose_" in show(x[2]) for x in F)
        some = any(x[0] == "cmp" and x[1] == "ne" and "dispose_" in show(x[2]) for x in F)
        b = [i for i in ins if i.op == "store" and show(f.term(i.ops[1])) == GD]
        k = [i for i in ins if i.op == "icall" or i.op == "call" and i.callee is None]
        c.ob("unregister", d is not None, "sweep-test", f, "liveness is not looked at")
        c.ob("unregister", len(b) == (0 if d else 1), "sweep-once", f, "a %s record joins the graveyard %d times" % ("dead" if d else "live", len(b)))
        c.ob("unregister", len(k) == (1 if not d and not none else 0), "sweep-dispose", f, "the dispose callback is run %d times" % len(k))
    for i in f.live():
        if i.op == "icall" or i.op == "call" and i.callee is None:
            c.ob("unregister", f.term(i.ops[-1]) == p, "sweep-dispose-arg", i, "disposes of another record")
        if i.op == "load" and show(f.term(i.ops[0])) == s + "->dead":
            for S in P.at(i):
                c.ob("locked", ("held", s + "->lock") in S and ("held", GL) in S, "sweep", i, "a record is looked at without its lock")
    bury(c, f, P, s, p, "unregister")
    for S in [S for r in f.rets for S in P.at(r)]:
        c.ob("locked", not held(S), "sweep-freed", f, "returns with a lock held")


def users(c):
    """The peak tracker replaces its snapshot by all live samples."""
    fs = c.fns(r"^tcmalloc::[\w:]*PeakHeapTracker::MaybeSaveSample\(\)$", ["SampleRecorder", "^absl::", "SpinLock::", "IsNewPeak", "StatsCounter"], tu="tcmalloc/peak_heap_tracker.cc", floor=1)
    for f in fs:
        u = sites(f, "UnregisterAll$")
        it = sites(f, "SampleRecorder::Iterate$|Iterate$")
        c.expect(u, "route", "peak-clear", f, "the old peak is never discarded", "UnregisterAll", "tcmalloc/peak_heap_tracker.cc")
        c.expect(it, "route", "peak-copy", f, "the new peak is never recorded", "Iterate", "tcmalloc/peak_heap_tracker.cc")
        P = PF(f, events=lock_events(f, lambda i: "u" if i in u else "i" if i in it else None))
        for i in it:
            for S in P.at(i):
                c.ob("route", n_(P, S, "u") == 1, "peak-order", i, "the new peak is recorded before the old one is discarded")
                c.ob("route", held(S), "peak-locked", i, "the peak is replaced without a lock")
        for t, S in P.rets():
            c.ob("route", n_(P, S, "u") == n_(P, S, "i"), "peak-both", f, "the peak is discarded without being replaced")
