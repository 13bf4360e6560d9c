"""Hook lists: registration, removal, traversal and invocation."""
import re
from lib import *
from lib import _

TU = "drivers/d_hooks.cc"
HK = "tcmalloc/malloc_hook.cc"
CAP_RX = r"HookList<.*>::"


def inv(t):
    # class invariant 0 <= end <= 7, established by the END rules below
    if t[0] == "load" and is_field(t[1], "priv_end"):
        return [cmp("sge", t, 0), cmp("slt", t, 8)]


def run(c):
    c.rule("locked", "every write to the list happens with the list lock held")
    c.rule("publish", "entries and the end marker are published with release stores")
    c.rule("add", "a successful add stores the given non-null value once in a free slot in range and covers it by the end marker; a failed add writes nothing and only happens for null or a full list")
    c.rule("remove", "a successful removal clears one slot that held the value; the end marker only shrinks past empty slots; a failed one writes nothing and scanned every entry")
    c.rule("traverse", "traversal copies non-null entries below the end marker, never more than the caller's capacity, counting each copy once")
    c.rule("acquire", "lock-free readers load entries and the end marker with acquire ordering")
    c.rule("invoke", "invocation snapshots at most the array's capacity and calls every snapshotted hook exactly once with the caller's argument")
    c.rule("route", "each registration entry point operates on its own list, reports its result and notifies of changes exactly on success")
    c.rule("readonly", "traversal, emptiness and size never write the list")

    # ---------------------------------------------------------------- Add --
    for f in c.fns(CAP_RX + r"Add\(", ["^absl::"], tu=TU, floor=3):
        nm = short(f.name) + "/" + f.args[1][0]
        nm = f.name[f.name.index("HookList<"):].split(">::")[0][9:60]

        def more(i):
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                a = f.term(i.ops[1] if i.op == "store" else i.ops[0])
                if through(a, "priv_data"):
                    return "slot"
                if through(a, "priv_end"):
                    return "end"
        P = PF(f, inv=inv, events=lock_events(f, more))
        slots = list(writes(f, "priv_data"))
        ends = list(writes(f, "priv_end"))
        c.ob("add", slots, "stores-" + nm, f, "no slot is ever written")
        for w in slots + ends:
            c.ob("locked", all(held(S, "hooklist_spinlock_") for S in P.at(w.ins)),
                 "add-" + nm, w.ins, "list written without the lock")
            c.ob("publish", w.ord in REL, "add-" + nm, w.ins, "store is %s" % w.ord)
        for w in slots:
            idx = gep_index(w.addr, 8)
            ld = ("load", w.addr, _)
            c.ob("add", w.val == ("arg", 1), "value-" + nm, w.ins,
                 "stored value is not the caller's")
            for S in P.at(w.ins):
                free = any(match(("cmp", "eq", ld, ("int", 0)), x) is not None for x in S)
                rng = entails(S, cmp("sge", idx, 0)) and (
                    entails(S, cmp("ult", idx, 7)) or entails(S, cmp("slt", idx, 7)))
                c.ob("add", free, "free-" + nm, w.ins, "slot may be occupied")
                c.ob("add", rng, "range-" + nm, w.ins, "slot index may be out of range")
        for w in ends:
            ok = any(w.val == cmpadd(gep_index(s.addr, 8), 1) for s in slots)
            c.ob("add", ok, "end-" + nm, w.ins, "end marker is not index+1")
            for S in P.at(w.ins):
                c.ob("add", P.count(S, "slot") in (1, 2), "order-" + nm, w.ins,
                     "end marker published before the entry")
                c.ob("add", any(entails(S, cmp("sle", e, gep_index(s.addr, 8)))
                                for s in slots for e in end_loads(f)),
                     "grow-" + nm, w.ins, "end marker may move backwards")
        for v, S in P.rets():
            n, e = P.count(S, "slot"), P.count(S, "end")
            if v == ("int", 0):
                c.ob("add", n == 0 and e == 0, "fail-" + nm, f, "failed add wrote the list")
                full = entails(S, cmp("eq", ("arg", 1), ("null",))) or any(
                    entails(S, cmp("uge", ("phi", i.id), 7)) or entails(S, cmp("sge", ("phi", i.id), 7))
                    for i in f.live("phi"))
                c.ob("add", full, "failreason-" + nm, f, "add fails although a slot may be free")
            else:
                c.ob("add", v == ("int", 1), "ret-" + nm, f, "result is not a plain verdict")
                c.ob("add", n == 1, "once-" + nm, f, "success without exactly one slot write")
                c.ob("add", contradictory(S | {cmp("eq", ("arg", 1), ("null",))}), "null-" + nm, f, "null accepted")
                cov = e == 1 or any(entails(S, cmp("slt", gep_index(s.addr, 8), x))
                                    for s in slots for x in end_loads(f))
                c.ob("add", cov, "covered-" + nm, f, "entry not below the end marker")
            c.ob("locked", not held(S), "addrelease-" + nm, f, "returns with the lock held")
        scan_from_zero(c, f, "add", nm)

    # ------------------------------------------------------------- Remove --
    for f in c.fns(CAP_RX + r"Remove\(", ["^absl::"], tu=TU, floor=3):
        nm = f.name[f.name.index("HookList<"):].split(">::")[0][9:60]

        def more2(i):
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                a = f.term(i.ops[1] if i.op == "store" else i.ops[0])
                if through(a, "priv_data"):
                    return "slot"
                if through(a, "priv_end"):
                    return "end"
        P = PF(f, inv=inv, events=lock_events(f, more2))
        slots = list(writes(f, "priv_data"))
        ends = list(writes(f, "priv_end"))
        c.ob("remove", slots, "stores-" + nm, f, "no slot is ever cleared")
        for w in slots + ends:
            c.ob("locked", all(held(S, "hooklist_spinlock_") for S in P.at(w.ins)),
                 "remove-" + nm, w.ins, "list written without the lock")
            c.ob("publish", w.ord in REL, "remove-" + nm, w.ins, "store is %s" % w.ord)
        E = end_loads(f)
        for w in slots:
            idx = gep_index(w.addr, 8)
            c.ob("remove", w.val in (("int", 0), ("null",)), "clear-" + nm, w.ins, "slot not cleared")
            for S in P.at(w.ins):
                m = any(match(("cmp", "eq", ("arg", 1), ("load", w.addr, _)), x) is not None or
                        match(("cmp", "eq", ("load", w.addr, _), ("arg", 1)), x) is not None for x in S)
                c.ob("remove", m, "match-" + nm, w.ins, "cleared slot need not hold the value")
                c.ob("remove", entails(S, cmp("sge", idx, 0)) and any(
                    entails(S, cmp("slt", idx, e)) for e in E), "range-" + nm, w.ins, "index out of range")
        for w in ends:
            for S in P.at(w.ins):
                last = any(entails(S, cmp("eq", cmpadd(gep_index(s.addr, 8), 1), e))
                           for s in slots for e in E)
                c.ob("remove", last, "shrinkcond-" + nm, w.ins,
                     "end marker shrinks although the removed entry need not be the last")
                c.ob("remove", any(entails(S, cmp("sle", w.val, gep_index(s.addr, 8))) for s in slots)
                     or w.val in E or any(w.val == cmpadd(gep_index(s.addr, 8), 1) for s in slots),
                     "shrink-" + nm, w.ins, "end marker grows on removal")
                c.ob("remove", entails(S, cmp("sge", w.val, 0)), "nonneg-" + nm, w.ins, "end marker may become negative")
                c.ob("remove", P.count(S, "slot") == 1, "order-" + nm, w.ins, "end marker moved before the entry was cleared")
            if w.val[0] == "phi":
                for path, nx in loop_paths(f, f.ins[w.val[1]].b):
                    d = delta(nx.get(w.val[1], ("x",)), w.val[1])
                    c.ob("remove", d == -1, "step-" + nm, w.ins, "end marker skips entries")
                    fs = set()
                    for a, b in zip(path, path[1:] + path[:1]):
                        fs |= f.edge_facts(a, b)
                    empt = any(x[0] == "cmp" and x[1] == "eq" and x[3] in (("int", 0), ("null",)) and
                               x[2][0] == "load" and through(x[2][1], "priv_data") and
                               subst(gep_index(x[2][1], 8) or ("x",), {}) == cmpadd(w.val, -1)
                               for x in fs)
                    c.ob("remove", empt, "skipempty-" + nm, w.ins, "end marker moves past an entry that may be live")
        for v, S in P.rets():
            n, e = P.count(S, "slot"), P.count(S, "end")
            if v == ("int", 0):
                c.ob("remove", n == 0 and e == 0, "fail-" + nm, f, "failed removal wrote the list")
                ok = entails(S, cmp("eq", ("arg", 1), ("null",))) or any(
                    entails(S, cmp("sge", ("phi", i.id), x)) for i in f.live("phi") for x in E)  \
                    or any(entails(S, cmp("sge", ("phi", i.id), 7)) for i in f.live("phi"))
                c.ob("remove", ok, "failreason-" + nm, f, "removal gives up before scanning every entry")
            else:
                c.ob("remove", v == ("int", 1) and n == 1, "once-" + nm, f, "success without exactly one cleared slot")
                c.ob("remove", contradictory(S | {cmp("eq", ("arg", 1), ("null",))}), "null-" + nm, f, "null accepted")
            c.ob("locked", not held(S), "removerelease-" + nm, f, "returns with the lock held")
        scan_from_zero(c, f, "remove", nm)

    # ----------------------------------------------------------- Traverse --
    for f in c.fns(CAP_RX + r"Traverse\(", ["^absl::"], tu=TU, floor=3):
        nm = f.name[f.name.index("HookList<"):].split(">::")[0][9:60]
        P = PF(f, inv=inv)
        outs = [w for w in writes(f) if not through(w.addr, "priv_data") and not through(w.addr, "priv_end")]
        c.ob("readonly", not list(writes(f, "priv_data")) + list(writes(f, "priv_end")), "traverse-" + nm, f, "traversal writes the list")
        for i, a in list(reads(f, "priv_data")) + list(reads(f, "priv_end")):
            c.ob("acquire", i.ord in ACQ, "traverse-" + nm, i, "load is %s" % i.ord)
        c.ob("traverse", outs, "copies-" + nm, f, "nothing is copied out")
        for w in outs:
            c.ob("traverse", w.val[0] == "load" and through(w.val[1], "priv_data"), "value-" + nm, w.ins, "copied value is not a list entry")
            idx = gep_index(w.val[1], 8) if w.val[0] == "load" else None
            # pointer/remaining/counter bookkeeping
            hdr = None
            for L in f.loops:
                if w.ins.b in L["blocks"]:
                    hdr = L["header"]
            if hdr is None:
                c.ob("traverse", False, "loop-" + nm, w.ins, "copy is not in a scan loop")
                continue
            paths = loop_paths(f, hdr)
            retphi = {subst(t, {}) for t, S in P.rets() if t[0] in ("phi",)}
            cnt = [i.id for i in f.blocks[hdr] if i.op == "phi" and ("phi", i.id) in retphi]
            c.ob("traverse", len(cnt) == 1 and phi_inits(f, cnt[0]) == [("int", 0)], "count-" + nm, f, "result is not a counter of copies")
            if len(cnt) != 1:
                continue
            cnt = cnt[0]
            phis = [i.id for i in f.blocks[hdr] if i.op == "phi"]
            D = []
            for p, nx in paths:
                dv = {q: delta(nx.get(q, ("x",)), q) for q in phis}
                D.append((p, dv))
                copies = sum(1 for x in outs if x.ins.b in p)
                c.ob("traverse", dv[cnt] == copies, "countcopies-" + nm, w.ins, "counter advances by %s for %d copies" % (dv[cnt], copies))
                if copies:
                    c.ob("traverse", copies == 1, "onecopy-" + nm, w.ins, "an entry is copied more than once")
            # where: base + 8*cnt
            pos_ok = False
            if w.addr[0] == "phi" and w.addr[1] in phis:
                q = w.addr[1]
                pos_ok = phi_inits(f, q) == [("arg", 1)] and all(d[q] is not None and d[q] == 8 * (d[cnt] or 0) for p, d in D)
            elif w.addr[0] == "gep" and w.addr[1] == ("arg", 1):
                pos_ok = subst(gep_index(w.addr, 8), {}) == ("phi", cnt)
            c.ob("traverse", pos_ok, "position-" + nm, w.ins, "copies are not written to consecutive slots from the start")
            # bound: cnt < n  or rem >= 1 with rem + cnt == n
            for S in P.at(w.ins):
                b_ok = entails(S, cmp("slt", ("phi", cnt), ("arg", 2)))
                for q in phis:
                    if phi_inits(f, q) == [("arg", 2)] and all(d[q] is not None and d[q] == -(d[cnt] or 0) for p, d in D):
                        b_ok = b_ok or entails(S, cmp("sge", ("phi", q), 1))
                c.ob("traverse", b_ok, "capacity-" + nm, w.ins, "may write past the caller's capacity")
                nn = any(match(("cmp", "ne", w.val, Or(("int", 0), ("null",))), x) is not None for x in S)
                c.ob("traverse", nn, "nonnull-" + nm, w.ins, "null entry may be copied")
                inr = idx is not None and (any(entails(S, cmp("slt", idx, e)) for e in end_loads(f))
                                           or entails(S, cmp("ult", idx, 7)) or entails(S, cmp("slt", idx, 7)))
                c.ob("traverse", inr, "range-" + nm, w.ins, "reads past the list")
            # the scan index advances by one on every iteration
            ix = subst(idx, {}) if idx else ("x",)
            ok = ix[0] == "phi" and ix[1] in phis and phi_inits(f, ix[1]) == [("int", 0)] and all(d[ix[1]] == 1 for p, d in D)
            c.ob("traverse", ok, "scan-" + nm, w.ins, "entries are skipped or revisited")
            # the scan only stops at the end marker or when the buffer is full
            mem = [set(L["blocks"]) for L in f.loops if L["header"] == hdr][0]
            for b in mem:
                for s in f.succ[b]:
                    if s in mem or s in f.crash:
                        continue
                    fs = f.edge_facts(b, s)
                    why = any(x[0] == "cmp" and (
                        any(entails({x}, cmp("sge", ix, e)) for e in end_loads(f)) or entails({x}, cmp("sge", ix, 7)) or
                        entails({x}, cmp("sge", ("phi", cnt), ("arg", 2))) or
                        any(phi_inits(f, q) == [("arg", 2)] and entails({x}, cmp("slt", ("phi", q), 1)) for q in phis))
                        for x in fs)
                    c.ob("traverse", why, "stop-" + nm, f.blocks[b][-1], "scan stops early")

    # ------------------------------------------------------------- Invoke --
    ds = c.fns(r"HookList<.*>::InvokeSlow", ["^absl::", r"HookList<.*>::(Traverse)"], tu=TU, floor=3)
    for f in ds:
        invoke(c, f, "slow-" + f.name[f.name.index("HookList<"):].split(">::")[0][9:60])

    # -------------------------------------------------------------- route --
    want = {"NewHook": "new_hooks_", "DeleteHook": "delete_hooks_",
            "SampledNewHook": "sampled_new_hooks_",
            "SampledDeleteHook": "sampled_delete_hooks_"}
    got = 0
    for f in c.fns(r"^tcmalloc::MallocHook::(Add|Remove)(Sampled)?(New|Delete)Hook\(",
                   ["^absl::", r"HookList<.*>::(Add|Remove)\(", "MallocHook_HooksChanged"], tu=HK, floor=8):
        op, kind = re.match(r"MallocHook::(Add|Remove)(.*)", f.sname).groups()
        cs = calls(f, r"HookList::(Add|Remove)$")
        ok = len(cs) == 1 and cs[0].cshort.endswith("::" + op) and \
            args(f, cs[0])[0][:2] == ("glob", want[kind]) and args(f, cs[0])[1] == ("arg", 0)
        c.ob("route", ok, f.sname, f, "does not operate exactly once on its own list with the caller's hook")
        P = PF(f, events=lambda i: "changed" if i.op == "call" and "HooksChanged" in i.cshort else None)
        if ok:
            r = f.term(cs[0])
            for rt in f.rets:
                c.ob("route", f.term(rt.ops[0]) == r, "ret-" + f.sname, rt, "result is not the list operation's")
            for S in P.at(f.rets[0]):
                n = P.count(S, "changed")
                if not kind.startswith("Sampled"):
                    succ = r in S or cmp("ne", r, 0) in S
                    c.ob("route", n == (1 if succ else 0), "notify-" + f.sname, f, "change notification does not match success")
    for f in c.fns(r"^tcmalloc::MallocHook::Invoke(Sampled)?(New|Delete)Hook\(",
                   ["^absl::", r"HookList<.*>::InvokeSlow"], tu=TU, floor=4):
        kind = re.match(r"MallocHook::Invoke(.*)", f.sname).group(1)
        cs = calls(f, r"HookList::InvokeSlow$")
        ok = len(cs) == 1 and args(f, cs[0])[0][:2] == ("glob", want[kind]) and args(f, cs[0])[1] == ("arg", 0)
        c.ob("route", ok, f.sname, f, "does not invoke its own list with the caller's event")
        if ok:
            P = PF(f, events=lambda i: "inv" if i is cs[0] else None)
            for S in P.at(f.rets[0]):
                n = P.count(S, "inv")
                emp = any(match(("cmp", "eq", ("load", _, _), ("int", 0)), x) is not None and
                          through(x[2][1], "priv_end") for x in S)
                c.ob("route", n == 1 or emp, "skip-" + f.sname, f, "hooks skipped although the list may be non-empty")
    # first-allocation initial hook re-dispatches the event that triggered it
    for f in c.fns(r"InitialNewHook\(", ["^absl::.*once", r"MallocHook::InvokeNewHook", "RemoveInitialHooks"], tu=HK):
        cs = calls(f, r"InvokeNewHook$")
        mn, mx = f.count_on_paths(lambda i: i in cs)
        c.ob("invoke", mn == 1 and mx == 1 and args(f, cs[0])[0] == ("arg", 0), "initial", f,
             "the event that triggered initialisation is not re-delivered exactly once")


def invoke(c, f, nm):
    tr = calls(f, r"HookList::Traverse$")
    if not tr:
        c.ob("invoke", False, "snapshot-" + nm, f, "hooks are not taken from a traversal snapshot")
        return
    P = PF(f)
    for t in tr:
        a = args(f, t)
        n = None
        if a[1][0] == "alloca":
            m = re.match(r"\[(\d+) x ptr\]", str(a[1][2]))
            n = int(m.group(1)) if m else None
        c.ob("invoke", n is not None and a[2][0] == "int" and 0 < a[2][1] <= n, "cap-" + nm, t,
             "snapshot capacity exceeds the array")
        c.ob("invoke", n is not None and a[2][0] == "int" and a[2][1] >= 7, "all-" + nm, t,
             "snapshot cannot hold every hook")
        cnt = f.term(t)
        ic = [i for i in f.live("call") if i.callee is None and "asm" not in i.d]
        c.ob("invoke", len(ic) >= 1, "calls-" + nm, f, "no hook is called")
        for i in ic:
            tgt = f.term(i.d["cv"])
            ix = gep_index(tgt[1], 8) if tgt[0] == "load" else None
            okt = tgt[0] == "load" and strip(tgt[1]) == a[1] and ix is not None
            c.ob("invoke", okt, "target-" + nm, i, "called pointer is not from the snapshot")
            if not okt:
                continue
            ix = subst(ix, {})
            hdr = [L["header"] for L in f.loops if i.b in L["blocks"]]
            ok = bool(hdr) and ix[0] == "phi" and f.ins[ix[1]].b == hdr[-1] and phi_inits(f, ix[1]) == [("int", 0)]
            c.ob("invoke", ok, "index-" + nm, i, "the snapshot is not walked from its start")
            if ok:
                for p, nx in loop_paths(f, hdr[-1]):
                    c.ob("invoke", delta(nx[ix[1]], ix[1]) == 1 and sum(1 for b in p for x in f.blocks[b] if x in ic) == 1,
                         "each-" + nm, i, "a hook is skipped or called twice")
                mem = [set(L["blocks"]) for L in f.loops if L["header"] == hdr[-1]][0]
                for b in mem:
                    for s in f.succ[b]:
                        if s not in mem and s not in f.crash:
                            fs = f.edge_facts(b, s)
                            c.ob("invoke", any(entails({x}, cmp("sge", ix, cnt)) or entails({x}, cmp("eq", ix, cnt)) for x in fs if x[0] == "cmp"),
                                 "stop-" + nm, f.blocks[b][-1], "not every hook is called")
                for S in P.at(i):
                    c.ob("invoke", entails(S, cmp("slt", ix, cnt)) or entails(S, cmp("ne", ix, cnt)), "bound-" + nm, i, "calls past the snapshot")


def end_loads(f):
    return {f.term(i) for i, a in reads(f, "priv_end")}


def cmpadd(t, k):
    d = dict(lin_of(t)) if t else {}
    d[1] = d.get(1, 0) + k
    if not d[1]:
        d.pop(1)
    if not d:
        return ("int", 0)
    if set(d) == {1}:
        return ("int", d[1])
    if len(d) == 1 and list(d.values()) == [1]:
        return next(iter(d))
    return ("lin", tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def scan_from_zero(c, f, rule, nm):
    """The scan for a slot starts at 0 and advances by one."""
    for w in writes(f, "priv_data"):
        ix = subst(gep_index(w.addr, 8) or ("x",), {})
        if ix[0] == "phi" and any(L["header"] == f.ins[ix[1]].b for L in f.loops):
            c.ob(rule, phi_inits(f, ix[1]) == [("int", 0)] and
                 all(delta(nx[ix[1]], ix[1]) == 1 for p, nx in loop_paths(f, f.ins[ix[1]].b)),
                 "scan-" + nm, w.ins, "the scan skips slots")
