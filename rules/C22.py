"""Interrupted system calls are retried, partial transfers are accumulated
exactly, copies stay in bounds, signal mask and errno are restored."""
from lib import *
from lib import _

TU = "tcmalloc/internal/util.cc"
EINTR = 4


def is_errno(t):
    return t[0] == "load" and t[1][0] == "call" and t[1][1] == "__errno_location"


def interrupted(S, rc):
    """True / False / None: rc == -1 with errno EINTR on this path."""
    if entails(S, cmp("ne", rc, -1)) or entails(S, cmp("sge", rc, 0)):
        return False
    e = {x[1] for x in S if x[0] == "cmp" and is_errno(x[2]) and x[3] == ("int", EINTR)}
    if "ne" in e:
        return False
    return True if "eq" in e and entails(S, cmp("slt", rc, 0)) else None


def sysc(f, rx):
    return [i for i in f.live("call") if re.search(rx, i.cshort)]


def run(c):
    c.rule("retry", "a call that fails with EINTR is repeated and never reported; any other outcome is not repeated")
    c.rule("forward", "the call is made with the caller's own arguments and its result is what is returned")
    c.rule("transfer", "each continuation starts exactly after the bytes already moved and never exceeds the caller's count")
    c.rule("account", "the reported byte count is exactly the sum of the successful transfers")
    c.rule("copy", "a guarded copy moves each chunk once, within the scratch vector, to consecutive places, and reports success only if everything was copied")
    c.rule("restore", "the signal mask and errno found on entry are put back on every way out")
    for f in c.fns("::signal_safe_(open|close|write|read|poll)", ["signal_safe_poll"], tu=TU, floor=5):
        n = f.sname.split("_")[-1]
        {"open": simple, "close": simple, "write": transfer, "read": transfer, "poll": poll}[n](c, f, n)
    copy(c)
    restore(c)


def simple(c, f, n):
    cs = sysc(f, "^%s(64)?$" % n)
    c.need(cs, "no %s call" % n)
    P = PF(f, K=64)
    for i in cs:
        a = args(f, i)
        c.ob("forward", a[0] == ("arg", 0) and (n == "close" or a[1] == ("arg", 1)), "args-" + n, i, "not the caller's arguments")
        if n == "open" and len(a) < 3:
            for S in P.at(i):
                no = entails(S, cmp("eq", ("and", ("arg", 1), ("int", 64)), 0)) or any(x[0] == "cmp" and x[1] == "eq" and x[2][0] == "and" and ("int", 64) in x[2] and x[3] == ("int", 0) for x in S)
                c.ob("forward", no, "mode-open", i, "creates a file without passing the caller's mode")
        elif n == "open":
            m = a[2]
            c.ob("forward", m[0] == "load" or m[0] == "phi", "mode-open", i, "mode is not the caller's")
    rcs = {f.term(i) for i in cs}
    for t, S in ret_states(P):
        eq = [v for v in rcs if lineq(S, ladd(alin(t), alin(v), -1))]
        c.ob("forward", bool(eq), "result-" + n, f, "does not return the call's result")
        for v in eq:
            c.ob("retry", interrupted(S, v) is False, "reported-" + n, f, "an interruption can be reported instead of retried")
    for i in cs:
        h = loop_of(f, i)
        c.ob("retry", h is not None, "loop-" + n, i, "the call is not retried")
        if h is None:
            continue
        for S, d, p in evolve(f, h, ("int", 0))[1]:
            if i.b in p:
                ok = any(x[0] == "cmp" and x[1] == "eq" and is_errno(x[2]) and x[3] == ("int", EINTR) for x in S)
                ok = ok and any(x[0] == "cmp" and (x[1], x[3]) in (("eq", I(-1)), ("slt", I(0))) and not is_errno(x[2]) for x in S)
                c.ob("retry", ok, "cause-" + n, i, "repeated although it was not interrupted")


def transfer(c, f, n):
    cs = sysc(f, "^%s$" % n)
    c.need(len(cs) >= 1, "no %s call" % n)
    c.ob("transfer", len(cs) == 1, "one-" + n, f, "expected a single transfer site")
    i = cs[0]
    rc = f.term(i)
    a = args(f, i)
    c.ob("forward", a[0] == ("arg", 0), "fd-" + n, i, "not the caller's descriptor")
    h = loop_of(f, i)
    c.ob("retry", h is not None, "loop-" + n, i, "partial transfers are not continued")
    if h is None:
        return
    hs = [L["header"] for L in f.loops if i.b in L["blocks"]]
    B, L = alin(a[1]), alin(a[2])
    tot = ladd(B, {("arg", 1): 1}, -1)
    c.ob("transfer", ladd(tot, L) == {("arg", 2): 1}, "bound-" + n, i, "offset plus remaining length is not the caller's count") \
        if not any(k != 1 and k[0] == "phi" for k in ladd(tot, L)) else inductive_bound(c, f, h, i, a, n)
    ini, st = evolve(f, h, a[1])
    c.ob("transfer", all(x == {("arg", 1): 1} for x in ini), "start-" + n, i, "first transfer does not start at the caller's buffer")
    for S, d, p in st:
        if i.b not in p:
            c.ob("transfer", False, "path-" + n, i, "loop iteration without a transfer")
            continue
        pos = entails(S, cmp("sge", rc, 1))
        neg = entails(S, cmp("eq", rc, -1)) or entails(S, cmp("slt", rc, 1))
        want = {rc: 1} if pos else {} if neg else None
        got = {k if k == 1 or k[0] != "select" else k: v for k, v in d.items()}
        if want is None:
            vs = [(v, F) for t in d if t != 1 for v, F in cases(f, t, S)]
            okd = bool(vs) and len(d) == 1 and all((v == rc and entails(F, cmp("sge", rc, 1))) or (v == ("int", 0) and entails(F, cmp("slt", rc, 1))) for v, F in vs)
        else:
            okd = got == want
        c.ob("transfer", okd, "advance-" + n, i, "position does not advance by exactly the bytes moved")
        # why it continues
        eintr = interrupted(S, rc) is True or (any(x[0] == "cmp" and x[1] == "eq" and is_errno(x[2]) and x[3] == ("int", EINTR) for x in S) and entails(S, cmp("slt", rc, 1)) and (entails(S, cmp("ne", rc, 0))))
        c.ob("retry", pos or eintr, "cause-" + n, i, "continues after end of data or a genuine failure")
        if pos:
            nxt = ladd(ladd(B, {("arg", 1): 1}, -1), {rc: 1})
            t = norm(nxt)
            left = norm(ladd({("arg", 2): 1}, nxt, -1))
            more = entails(S, cmp("ult", t, ("arg", 2))) or entails(S, cmp("ne", left, 0)) or entails(S, cmp("ne", t, ("arg", 2))) or \
                entails(S, cmp("ne", norm(ladd(L, {rc: 1}, -1)), 0)) or entails(S, cmp("uge", norm(ladd(L, {rc: 1}, -1)), 1))
            c.ob("transfer", more, "more-" + n, i, "asks for more although the caller's count is reached")
    # exits
    P = PF(f, K=64)
    ws = [w for w in writes(f) if w.addr == ("arg", 3)]
    c.ob("account", bool(ws), "store-" + n, f, "the number of bytes moved is not reported")
    base = ladd(B, {("arg", 1): 1}, -1)
    for w in ws:
        for S in P.at(w.ins):
            c.ob("account", entails(S, cmp("ne", ("arg", 3), 0)) or ("cmp", "ne", ("arg", 3), ("null",)) in S, "null-" + n, w.ins, "stores through a null pointer")
            for v, F in cases(f, w.val, S, phis=False):
                acc_ok(c, f, v, F, rc, base, n, w.ins, h, P)
    zero = norm(base)
    for t, S in ret_states(P):
        if n == "write":
            c.ob("forward", lineq(S, ladd(alin(t), {rc: 1}, -1)), "result-" + n, f, "does not return the last call's result")
            c.ob("retry", interrupted(S, rc) is False, "reported-" + n, f, "an interruption can be reported instead of retried")
            if not entails(S, cmp("slt", rc, 1)):
                nxt = ladd(base, {rc: 1})
                full = any(entails(S, q) for q in (cmp("uge", norm(nxt), ("arg", 2)), cmp("eq", norm(ladd({("arg", 2): 1}, nxt, -1)), 0), cmp("eq", norm(ladd(L, {rc: 1}, -1)), 0)))
                c.ob("transfer", full, "complete-" + n, f, "stops after a partial transfer")
            continue
        err = entails(S, cmp("eq", rc, -1))
        if err and lineq(S, ladd(alin(t), {rc: 1}, -1)):
            c.ob("retry", interrupted(S, rc) is False, "failure-" + n, f, "an interruption is reported as a failure")
        else:
            for v, F in cases(f, t, S, phis=False):
                acc_ok(c, f, v, F, rc, base, n + "-result", i, h, P)
        if interrupted(S, rc) is True:
            c.ob("retry", entails(S, cmp("ne", zero, 0)) or entails(S, cmp("uge", zero, ("arg", 2))), "reported-" + n, f, "an interruption before any byte can be reported")


def inductive_bound(c, f, h, i, a, n):
    s = norm(ladd(ladd(alin(a[1]), {("arg", 1): 1}, -1), alin(a[2])))
    ini, st = evolve(f, h, s)
    c.ob("transfer", all(x == {("arg", 2): 1} for x in ini) and all(not d for S, d, p in st), "bound-" + n, i,
         "offset plus remaining length is not the caller's count")


def acc_ok(c, f, v, F, rc, base, n, where, h, P):
    d = alin(v)
    pos = entails(F, cmp("sge", rc, 1))
    neg = entails(F, cmp("slt", rc, 1))
    want = ladd(base, {rc: 1}) if pos else base if neg else None
    ok = want is not None and lineq(F, ladd(d, want, -1))
    if not ok and want is not None:
        # a separate counter: same start and same steps as the position
        t = ladd(d, {rc: 1}, -1) if pos else d
        for x in [norm(t)] + [q[2] if q[3] == v else q[3] for q in F if q[0] == "cmp" and q[1] == "eq" and v in (q[2], q[3])]:
            dx = alin(x)
            if pos and rc in dx:
                dx = ladd(dx, {rc: 1}, -1)
            if any(k != 1 and not (k[0] == "phi" and f.ins[k[1]].b == h) for k in dx):
                continue
            ini, st = evolve(f, h, norm(ladd(dx, base, -1)))
            ok = ok or (bool(st) and all(not y for y in ini) and all(not y for S, y, p in st))
    c.ob("account", ok, "sum-" + n, where, "reported count is not the sum of the transfers: " + show(v))


def poll(c, f, n):
    cs = sysc(f, "^poll$")
    c.need(cs, "no poll call")
    for i in cs:
        a = args(f, i)
        c.ob("forward", a[0] == ("arg", 0) and a[1] == ("arg", 1), "args-poll", i, "not the caller's descriptors")
    P = PF(f, K=64)
    for i in cs:
        rc = f.term(i)
        # after the call, control reaches a return only when not interrupted
        h = loop_of(f, i)
        inner = h
        for L in f.loops:
            if L["header"] == inner:
                mem = set(L["blocks"])
        esc = 0
        for b in mem:
            for s in f.succ[b]:
                if s in mem or s in f.crash:
                    continue
                fs = f.edge_facts(b, s)
                ok = any(entails({x}, cmp("ne", rc, -1)) for x in fs if x[0] == "cmp") or \
                    any(x[0] == "cmp" and x[1] == "ne" and is_errno(x[2]) and x[3] == ("int", EINTR) for x in fs)
                fl = f.guards(b) | fs
                ok = ok or interrupted(fl, rc) is False
                c.ob("retry", ok, "reported-poll", f.blocks[b][-1], "an interruption can be reported instead of retried")
    for t, S in ret_states(P):
        for v, F in cases(f, t, S):
            ok = v in {f.term(i) for i in cs} or (v[0] == "phi" and all(x in {f.term(i) for i in cs} | {("int", 0)} for x in [f.term(o) for o in f.ins[v[1]].ops])) or v == ("int", 0)
            c.ob("forward", ok, "result-poll", f, "does not return poll's result")


def copy(c):
    f = [x for x in c.fns("::SafeCopyMemory", ["^absl::", "^std::.*basic_string_view"], tu=TU, floor=2) if "Span" in x.name.split("SafeCopyMemory")[1]][0]
    cs = sysc(f, "process_vm_readv$")
    c.need(len(cs) == 1, "process_vm_readv not found")
    i = cs[0]
    a = args(f, i)
    rc = f.term(i)
    P = PF(f, K=64)
    cap = None
    if a[3][0] == "alloca":
        m = re.match(r"\[(\d+) x", str(a[3][2]))
        cap = int(m.group(1)) if m else None
    c.ob("copy", a[0][0] == "call" and a[0][1] == "getpid", "self", i, "reads another process")
    c.ob("copy", cap is not None, "vector", i, "source vector is not the local array")
    for w in writes(f):
        if strip(w.addr) == a[3] and cap:
            for S in P.at(w.ins):
                z = w.addr
                ix = [t for t, s in z[3]] if z[0] == "gep" else []
                ok = len(ix) == 1 and z[3][0][1] == 16 and any(
                    x[0] == "cmp" and x[1] in ("ult", "slt") and x[2] == ix[0] and bound_le(x[3], cap) for x in S)
                c.ob("copy", ok, "bounds-%d" % (z[2] % 16 if z[0] == "gep" else 0), w.ins, "scratch vector can be overrun")
    c.ob("copy", bound_le(a[4], cap), "count", i, "passes more vectors than exist")
    # success
    for t, S in P.rets():
        done = any(x[0] == "call" and x[1].endswith("Span::empty") for x in S)
        if t in (("int", 1), ("int", -1)):
            c.ob("copy", done and not any(x == ("cmp", "ne", rc, y) for x in S for y in [x[3] if x[0] == "cmp" else None]), "true", f, "reports success with chunks left")
            c.ob("copy", ("cmp", "ne", ("arg", 2), ("null",)) in S or entails(S, cmp("ne", ("arg", 2), 0)), "dst", f, "accepts a null destination")
        else:
            c.ob("copy", t == ("int", 0), "false", f, "indeterminate result")
    # advance
    h = [L["header"] for L in f.loops if i.b in L["blocks"]][-1]
    rp = sysc(f, "Span::remove_prefix$")
    c.ob("copy", len(rp) == 1 and args(f, rp[0])[1] == a[4], "consume", i, "does not consume exactly the chunks it copied")
    lw = [w for w in writes(f) if strip(w.addr) == a[1]]
    dst = [w for w in lw if w.addr == a[1]]
    ln = [w for w in lw if w.addr[0] == "gep" and w.addr[2] == 8]
    c.ob("copy", len(dst) == 1 and len(ln) == 1, "dstvec", i, "destination vector not recognised")
    if len(dst) == 1 and len(ln) == 1:
        ini, st = evolve(f, h, dst[0].val)
        c.ob("copy", all(x == {("arg", 2): 1} for x in ini), "start", i, "first batch is not written at the destination")
        for S, d, p in st:
            ok = d == alin(ln[0].val) or d == {rc: 1} and cmp("eq", rc, ln[0].val) in S
            c.ob("copy", ok, "step", i, "next batch does not follow the previous one")
            c.ob("copy", entails(S, cmp("eq", rc, ln[0].val)), "complete", i, "continues after a short copy")
        # length = sum of sizes of the chunks
        v = ln[0].val
        if v[0] == "phi":
            hh = f.ins[v[1]].b
            ini, st = evolve(f, hh, v)
            c.ob("copy", all(not x for x in ini), "len0", i, "length does not start at zero")
            for S, d, p in st:
                k = list(d.items())
                c.ob("copy", len(k) == 1 and k[0][1] == 1 and k[0][0] != 1 and k[0][0][0] == "call" and k[0][0][1].endswith("::size"), "len", i, "length is not the sum of the chunk sizes")
                c.ob("copy", sum(1 for w in writes(f) if strip(w.addr) == a[3] and w.ins.b in p) == 2, "fill", i, "a chunk is not entered in the vector")
    g = [x for x in c.fns("::SafeCopyMemory", ["^absl::", "SafeCopyMemory\\(absl"], tu=TU, floor=2) if "Span" not in x.name.split("SafeCopyMemory")[1]]
    for f in g:
        P = PF(f, K=64)
        for t, S in P.rets():
            z = entails(S, cmp("eq", ("arg", 2), 0))
            if z:
                c.ob("copy", t == ("int", 0), "empty", f, "an empty copy reports success")
            else:
                c.ob("copy", t[0] == "call" and t[1].endswith("SafeCopyMemory"), "delegate", f, "single copy does not use the guarded path")


def bound_le(t, k):
    if k is None:
        return False
    if t[0] == "int":
        return 0 <= t[1] <= k
    if t[0] in ("umin",):
        return any(bound_le(x, k) for x in t[1:])
    if t[0] == "select":
        if bound_le(t[2], k) and bound_le(t[3], k):
            return True
        cc = t[1]
        # select(x < K, x, K)
        for F, v in ((Fn_split(cc, True), t[2]), (Fn_split(cc, False), t[3])):
            if not (bound_le(v, k) or entails(F, cmp("ule", v, k))):
                return False
        return True
    return False


def Fn_split(cc, pol):
    return frozenset({cc if pol else Fn.neg(cc)})


def restore(c):
    f = c.fn("^verif_sigmask_scope", ["verif_ext", "sigfillset"], tu="drivers/d_small.cc")
    ms = sysc(f, "^pthread_sigmask$")
    ext = sysc(f, "verif_ext")
    fl = sysc(f, "^sigfillset$")
    c.need(ext and ms, "sigmask scope not recognised")
    ent = [i for i in ms if f.dom(i, ext[0])]
    ex = [i for i in ms if not f.dom(i, ext[0])]
    ok = len(ent) == 1 and len(fl) == 1 and args(f, ent[0])[0] == ("int", 2) and args(f, ent[0])[1] == args(f, fl[0])[0] and f.dom(fl[0], ent[0])
    c.ob("restore", ok, "mask", f, "does not block every signal")
    for i in ent:
        saved = args(f, i)[2]
        c.ob("restore", saved[0] != "null", "save", i, "previous mask is not saved")
        for e in ex:
            a = args(f, e)
            c.ob("restore", a[0] == ("int", 2) and a[1] == saved and f.dom(ext[0], e), "unmask", e, "does not put the saved mask back")
            c.ob("restore", len([w for w in writes(f) if strip(w.addr) == strip(saved)]) == 0, "kept", e, "saved mask is overwritten")
    P = PF(f, events=lambda i: "exit" if i in ex else None)
    c.ob("restore", ex and all(P.count(S, "exit") == 1 for t, S in P.rets()) if P.rets() else all(f.must_pass(ext[0], r, lambda i: i in ex) for r in f.rets), "always", f, "mask is not restored on every way out")
    f = c.fn("^verif_errno_scope", ["verif_ext"], tu="drivers/d_small.cc")
    ext = sysc(f, "verif_ext")[0]
    ws = [w for w in writes(f) if w.addr[0] == "call" and w.addr[1] == "__errno_location"]
    ok = len(ws) == 1 and is_errno(ws[0].val) and f.dom(ext, ws[0].ins)
    if ok:
        ld = [i for i in f.live("load") if f.term(i) == ws[0].val]
        ok = any(f.dom(i, ext) for i in ld)
    c.ob("restore", ok, "errno", f, "errno found on entry is not what is put back")
    c.ob("restore", ok and f.must_pass(ext, f.rets[0], lambda i: i is ws[0].ins), "errno-always", f, "errno is not restored on every way out")
