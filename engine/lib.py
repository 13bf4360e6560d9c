"""Vocabulary shared by the rule files."""
import re
from ir import Fn, match, _, B, Or, contains, subterms, show, short
from paths import PF, entails, contradictory, mentions, lin_of


def strip(t):
    """Address term -> the field marker (or root) it is based on."""
    while True:
        if t[0] == "gep":
            t = t[1]
        else:
            return t


def field(t):
    """(struct, field, base term) for an address term, through array indexing."""
    t = strip(t)
    if t[0] == "fld":
        return t[1], t[2], t[3]
    return None


def is_field(t, f, S=None):
    x = field(t)
    return bool(x) and x[1] == f and (S is None or re.search(S, x[0]) is not None)


def through(t, f, S=None):
    """The address lies inside (a sub-object of) field f."""
    while True:
        t = strip(t)
        if t[0] != "fld":
            return False
        if t[2] == f and (S is None or re.search(S, t[1])):
            return True
        t = t[3]


class W:
    """A memory write event."""
    __slots__ = ("ins", "addr", "val", "ord", "kind")

    def __init__(self, ins, addr, val, ord, kind):
        self.ins, self.addr, self.val, self.ord, self.kind = ins, addr, val, ord, kind


def writes(fn, f=None, S=None, live=True):
    for i in (fn.live() if live else fn.all()):
        w = None
        if i.op == "store":
            w = W(i, fn.term(i.ops[1]), fn.term(i.ops[0]), i.ord, "store")
        elif i.op == "atomicrmw":
            w = W(i, fn.term(i.ops[0]), fn.term(i.ops[1]), i.ord, i.d["rop"])
        elif i.op == "cmpxchg":
            w = W(i, fn.term(i.ops[0]), fn.term(i.ops[2]), i.ord, "cmpxchg")
        if w and (f is None or through(w.addr, f, S)):
            yield w


def reads(fn, f=None, S=None, live=True):
    for i in (fn.live() if live else fn.all()):
        if i.op == "load":
            a = fn.term(i.ops[0])
            if f is None or through(a, f, S):
                yield i, a
        elif i.op in ("atomicrmw", "cmpxchg"):
            a = fn.term(i.ops[0])
            if f is None or through(a, f, S):
                yield i, a


def index_of(addr):
    """Array subscript of a gep address as a term (element units), or None."""
    if addr[0] != "gep":
        return ("int", 0)
    co, vo = addr[2], addr[3]
    if not vo:
        return None
    sizes = [abs(v) for _t, v in vo]
    esz = min(sizes)
    if co % esz or any(v % esz for _t, v in vo):
        return None
    d = {t: v // esz for t, v in vo}
    if co:
        d[1] = co // esz
    if set(d) - {1} and len(d) == 1 and list(d.values()) == [1]:
        return next(iter(d))
    return ("lin", tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def gep_index(addr, esz):
    """Element index of an address with known element size."""
    if addr[0] != "gep":
        return ("int", 0)
    d = {}
    for t, v in addr[3]:
        if v % esz:
            return None
        d[t] = v // esz
    if addr[2] % esz:
        return None
    if addr[2]:
        d[1] = addr[2] // esz
    if not d:
        return ("int", 0)
    if set(d) == {1}:
        return ("int", d[1])
    if len(d) == 1 and list(d.values()) == [1]:
        return next(iter(d))
    return ("lin", tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


REL = {"release", "acq_rel", "seq_cst"}
ACQ = {"acquire", "acq_rel", "seq_cst"}

ACQUIRE_RX = r"(SpinLock|Mutex)::(Lock|lock)$|(SpinLockHolder|MutexLock|LockGuard|PageHeapSpinLockHolder)::(SpinLockHolder|MutexLock|LockGuard|PageHeapSpinLockHolder|AllocationGuardSpinLockHolder)$"
RELEASE_RX = r"(SpinLock|Mutex)::(Unlock|unlock)$|::~(SpinLockHolder|MutexLock|LockGuard|PageHeapSpinLockHolder|AllocationGuardSpinLockHolder)$"


def lock_id(t):
    t = strip(t) if t[0] == "gep" else t
    if t[0] == "fld":
        return "%s::%s" % (t[1], t[2])
    if t[0] == "glob":
        return t[1]
    return show(t)


def lock_events(fn, more=None):
    """Event function tracking ("held", <lock>) through lock calls and RAII
    holders; composes with another event function."""
    holders = {}
    for i in fn.all("call"):
        if re.search(ACQUIRE_RX, i.cshort):
            a = [fn.term(x) for x in i.ops]
            if "Holder" in i.cshort or "MutexLock" in i.cshort or "Guard" in i.cshort.split("::")[-1]:
                holders[a[0]] = lock_id(a[1]) if len(a) > 1 else "?"

    def ev(i):
        out = []
        if i.op == "call":
            if re.search(ACQUIRE_RX, i.cshort):
                a = [fn.term(x) for x in i.ops]
                out.append("+" + (holders[a[0]] if a[0] in holders else lock_id(a[0])))
            elif re.search(RELEASE_RX, i.cshort):
                a = [fn.term(x) for x in i.ops]
                out.append("-" + (holders.get(a[0]) or lock_id(a[0])))
        if more:
            m = more(i)
            if m:
                out += [m] if isinstance(m, str) else list(m)
        return out
    return ev


def held(S, rx=""):
    return any(f[0] == "held" and re.search(rx, f[1]) for f in S)


def cmp(p, a, b):
    if isinstance(a, int):
        a = ("int", a)
    if isinstance(b, int):
        b = ("int", b)
    return Fn.mkcmp(p, a, b)


def I(v):
    return ("int", v)


def loop_paths(fn, header, limit=400):
    return [(p, nx) for p, nx, _e in loop_paths3(fn, header, limit)]


def loop_paths3(fn, header, limit=400):
    """Acyclic paths header -> latch -> header inside a natural loop, as
    (blocks, next) with next[phi id] = the latch value, inner phis resolved
    along the path."""
    mem = None
    for L in fn.loops:
        if L["header"] == header:
            mem = set(L["blocks"])
    if mem is None:
        return []
    out = []

    def rec(path):
        if len(out) > limit:
            return
        b = path[-1]
        for s in dict.fromkeys(fn.succ[b]):
            if s in fn.crash:
                continue
            if s == header:
                out.append(list(path))
            elif s in mem and s not in path:
                rec(path + [s])
    rec([header])
    res = []
    inner = {L["header"] for L in fn.loops} - {header}
    for p in out:
        env = {}
        for a, b in zip(p, p[1:] + [header]):
            new = {}
            for I_ in fn.blocks[b]:
                if I_.op != "phi":
                    break
                for o, pb in zip(I_.ops, I_.d["in"]):
                    if pb == a:
                        new[I_.id] = subst(fn.term(o), env)
            if b == header:
                res.append((p, new, env))
            elif b not in inner:
                env.update(new)
    return res


def iterations(fn, header):
    """[(instructions in order, facts, next phi values)] per path through one
    iteration of the loop."""
    out = []
    for p, nx, env in loop_paths3(fn, header):
        F = set()
        for a, b in zip(p, p[1:] + [header]):
            F |= {subst(x, env) for x in fn.edge_facts(a, b)}
        if contradictory(F):
            continue
        out.append(([i for b in p for i in fn.blocks[b]], frozenset(F), nx))
    return out


def lock_named(fn, more=None):
    """lock_events with the full lock expression as its name."""
    holders = {}
    nm = lambda t: show(strip(t) if t[0] == "gep" and not t[3] else t)
    for i in fn.all("call"):
        if re.search(ACQUIRE_RX, i.cshort) and len(i.ops) > 1 and re.search("Holder|MutexLock|Guard", i.cshort):
            holders[fn.term(i.ops[0])] = nm(fn.term(i.ops[1]))

    def ev(i):
        out = []
        if i.op == "call":
            if re.search(ACQUIRE_RX, i.cshort):
                a = fn.term(i.ops[0])
                out.append("+" + (holders[a] if a in holders else nm(a)))
            elif re.search(RELEASE_RX, i.cshort):
                a = fn.term(i.ops[0])
                out.append("-" + (holders[a] if a in holders else nm(a)))
        if more:
            m = more(i)
            if m:
                out += [m] if isinstance(m, str) else list(m)
        return out
    return ev


def subst(t, env):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "gep" and len(t) == 4:
        b = subst(t[1], env)
        co, acc = t[2], {}
        for k, v in t[3]:
            for k2, v2 in lin_of(subst(k, env)).items():
                if k2 == 1:
                    co += v * v2
                else:
                    acc[k2] = acc.get(k2, 0) + v * v2
        if b[0] == "gep":
            co += b[2]
            for k, v in b[3]:
                acc[k] = acc.get(k, 0) + v
            b = b[1]
        vo = tuple(sorted(((k, v) for k, v in acc.items() if v), key=repr))
        return b if co == 0 and not vo else ("gep", b, co, vo)
    if len(t) == 2 and t[0] in ("phi", "rec") and t[1] in env:
        return env[t[1]]
    if t[0] == "rec":
        return ("phi", t[1])
    if t[0] == "lin":
        acc = {}
        for k, v in t[1]:
            if k == 1:
                acc[1] = acc.get(1, 0) + v
            else:
                for k2, v2 in lin_of(subst(k, env)).items():
                    acc[k2] = acc.get(k2, 0) + v * v2
        acc = {k: v for k, v in acc.items() if v}
        if not acc:
            return ("int", 0)
        if set(acc) == {1}:
            return ("int", acc[1])
        if len(acc) == 1 and list(acc.values()) == [1]:
            return next(iter(acc))
        return ("lin", tuple(sorted(acc.items(), key=lambda kv: repr(kv[0]))))
    return tuple(subst(x, env) for x in t)


def phi_inits(fn, pid):
    """Values of a loop-header phi on entry edges."""
    P = fn.ins[pid]
    out = []
    for o, p in zip(P.ops, P.d["in"]):
        if p in fn.livb and (p, P.b) not in fn.dead and not fn.bdom(P.b, p):
            out.append(fn.term(o))
    return out


def delta(t, pid, esz=1):
    """Constant increment of a phi's next value (pointer or integer)."""
    me = ("phi", pid)
    if t == me:
        return 0
    if t[0] == "lin":
        d = dict(t[1])
        k = d.pop(1, 0)
        if d == {me: 1}:
            return k
    if t[0] == "gep" and t[1] == me and not t[3]:
        return t[2]
    return None


def const(fn, name_rx, default=None):
    return default


def calls(fn, rx, live=True):
    return list(fn.calls(rx, live))


def args(fn, i):
    return [fn.term(o) for o in i.ops]


def arg_value(fn, i, k):
    """Argument k of call i; when it is the address of a local, the value last
    stored to it in the same block before the call."""
    t = fn.term(i.ops[k])
    if t[0] == "alloca":
        for j in reversed(fn.blocks[i.b][:i.idx]):
            if j.op == "store" and fn.term(j.ops[1]) == t:
                return fn.term(j.ops[0])
    return t


def trip(fn, header):
    """Number of full iterations of a counted loop, or None."""
    for L in fn.loops:
        if L["header"] != header:
            continue
        try:
            return int(L["btc"])
        except ValueError:
            pass
        mem = set(L["blocks"])
        ps = loop_paths(fn, header)
        for I_ in fn.blocks[header]:
            if I_.op != "phi":
                break
            t = ("phi", I_.id)
            init = phi_inits(fn, I_.id)
            if len(init) != 1 or init[0][0] != "int":
                continue
            ds = {delta(nx.get(I_.id, ("x",)), I_.id) for p, nx in ps}
            if ds == {1}:
                for b in mem:
                    for s in fn.succ[b]:
                        if s in mem or s in fn.crash:
                            continue
                        for f in fn.edge_facts(b, s):
                            if f[0] == "cmp" and f[2] == t and f[1] in ("uge", "sge", "eq") and f[3][0] == "int":
                                return f[3][1] - init[0][1]
                            if f[0] == "cmp" and f[1] in ("uge", "sge", "eq") and f[3][0] == "int" and lin_of(f[2]) == {t: 1, 1: 1}:
                                return f[3][1] - init[0][1]
            if ds == {-1}:
                for b in mem:
                    for s in fn.succ[b]:
                        if s in mem or s in fn.crash:
                            continue
                        for f in fn.edge_facts(b, s):
                            if f[0] == "cmp" and f[2] == t and f[1] == "eq" and f[3] == ("int", 0):
                                return init[0][1]
                            if f[0] == "cmp" and f[2] == t and f[1] == "slt" and f[3] == ("int", 1):
                                return init[0][1]
    return None


def loop_of(fn, i):
    """Innermost loop header containing instruction i (None when straight)."""
    best = None
    for L in fn.loops:
        if i.b in L["blocks"] and (best is None or len(L["blocks"]) < len(best["blocks"])):
            best = L
    return best["header"] if best else None


def cases(fn, t, S=frozenset(), depth=0, phis=True):
    """[(value, facts)]: the value split over selects, min/max, booleans used
    as integers and path-resolved phis."""
    S = frozenset(S)
    if depth > 6:
        return [(t, S)]

    def both(c, a, b):
        out = []
        for pol, v in ((True, a), (False, b)):
            F = S | fn.split(c, pol)
            if not contradictory(F):
                out += cases(fn, v, F, depth + 1, phis)
        return out
    if t[0] == "select":
        return both(t[1], t[2], t[3])
    if t[0] in ("umax", "umin", "smax", "smin"):
        a, b = t[1], t[2]
        p = {"umax": "uge", "umin": "ule", "smax": "sge", "smin": "sle"}[t[0]]
        if a[0] == "int":
            a, b = b, a
        return both(Fn.mkcmp(p, a, b), a, b)
    if t[0] == "phi" and phis:
        seen, todo = [t], [t]
        while todo:
            u = todo.pop()
            for x in S:
                if x[0] == "cmp" and x[1] == "eq" and u in (x[2], x[3]):
                    o = x[3] if x[2] == u else x[2]
                    if o not in seen:
                        seen.append(o)
                        if o[0] == "phi":
                            todo.append(o)
        best = sorted((o for o in seen if o[0] not in ("phi", "int", "null")), key=repr)
        if best:
            return cases(fn, best[0], S, depth + 1, phis)
        best = sorted((o for o in seen if o[0] in ("int", "null")), key=repr)
        if best:
            return [(best[0], S)]
        for x in sorted((x for x in S if x[0] == "iff" and x[1] in seen), key=repr):
            return [(x[2], S)]
        return [(t, S)]
    if t[0] == "lin":
        for k, v in t[1]:
            if isinstance(k, tuple) and k[0] in ("cmp", "select", "umax", "umin", "smax", "smin"):
                rest = ("lin", tuple(x for x in t[1] if x[0] != k))
                out = []
                sub = both(k, ("int", 1), ("int", 0)) if k[0] == "cmp" else cases(fn, k, S, depth + 1, phis)
                for kv, F in sub:
                    acc = dict(rest[1])
                    for q, w in lin_of(kv).items():
                        acc[q] = acc.get(q, 0) + v * w
                    n = norm(acc, F)
                    out += cases(fn, n, F, depth + 1, phis)
                return out
    if t[0] == "cmp":
        return both(t, ("int", 1), ("int", 0)) if depth == 0 else [(t, S)]
    return [(t, S)]


def norm(acc, F=frozenset()):
    """Linear map -> term, substituting values known to be constants."""
    d = {}
    for k, v in acc.items():
        kk = k
        if k != 1:
            for x in F:
                if x[0] == "cmp" and x[1] == "eq" and x[2] == k and x[3][0] == "int":
                    kk = 1
                    v = v * x[3][1]
                    break
        d[kk] = d.get(kk, 0) + v
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("int", 0)
    if set(d) == {1}:
        return ("int", d[1])
    if len(d) == 1 and list(d.values()) == [1]:
        return next(iter(d))
    return ("lin", tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def alin(t):
    """Linear map of an integer or pointer term (pointers relative to base)."""
    if t[0] == "gep":
        acc = dict(alin(t[1]))
        if t[2]:
            acc[1] = acc.get(1, 0) + t[2]
        for k, v in t[3]:
            for k2, v2 in lin_of(k).items():
                acc[k2] = acc.get(k2, 0) + v * v2
        return {k: v for k, v in acc.items() if v}
    return lin_of(t)


def ladd(a, b, k=1):
    r = dict(a)
    for x, v in b.items():
        r[x] = r.get(x, 0) + k * v
    return {x: v for x, v in r.items() if v}


def lsub(a, env):
    """Substitute phis in a linear map."""
    r = {}
    for k, v in a.items():
        if k != 1 and k[0] in ("phi", "rec") and k[1] in env:
            for k2, v2 in alin(env[k[1]]).items():
                r[k2] = r.get(k2, 0) + v * v2
        else:
            kk = k if k == 1 or k[0] != "rec" else ("phi", k[1])
            r[kk] = r.get(kk, 0) + v
    return {k: v for k, v in r.items() if v}


def evolve(fn, hdr, t):
    """For a term over the header's phis: (set of initial linear maps,
    [(path facts, delta linear map, blocks)]) over one iteration."""
    ph = [i for i in fn.blocks[hdr] if i.op == "phi"]
    a = lsub(alin(t), {})
    inits = []
    for p in fn.pred[hdr]:
        if p not in fn.livb or (p, hdr) in fn.dead or fn.bdom(hdr, p):
            continue
        env = {}
        for i in ph:
            for o, q in zip(i.ops, i.d["in"]):
                if q == p:
                    env[i.id] = fn.term(o)
        inits.append(lsub(a, env))
    steps = []
    for p, nx, env in loop_paths3(fn, hdr):
        S, nxt = set(), {k: subst(v, {}) for k, v in nx.items()}
        for x, y in zip(p, p[1:] + [hdr]):
            fs = fn.edge_facts(x, y)
            S |= {refold(subst(q, env)) for q in fs} if env else fs
        if contradictory(S):
            continue
        steps.append((frozenset(S), ladd(lsub(a, nxt), a, -1), p))
    return inits, steps


def ret_states(P):
    """[(return term, facts)] without resolving the value."""
    out = []
    for r in P.fn.rets:
        for S in P.at(r):
            out.append((P.fn.term(r.ops[0]) if r.ops else None, S))
    return out


def lineq(S, d):
    """The equalities in S imply that the linear map d is zero (Gaussian
    elimination over the equalities)."""
    from fractions import Fraction
    rows = []

    def red(r):
        for piv, q in rows:
            if r.get(piv):
                k = r[piv]
                r = {x: r.get(x, 0) - k * q.get(x, 0) for x in set(r) | set(q)}
                r = {x: v for x, v in r.items() if v}
        return r
    for f in S:
        if f[0] == "cmp" and f[1] == "eq":
            r = red({k: Fraction(v) for k, v in ladd(alin(f[2]), alin(f[3]), -1).items()})
            vs = [k for k in r if k != 1]
            if not vs:
                continue
            piv = min(vs, key=lambda k: (k[0] not in ("phi", "rec"), repr(k)))
            k = r[piv]
            r = {x: v / k for x, v in r.items()}
            rows = [(p, {x: v for x, v in ((x, q.get(x, 0) - q.get(piv, 0) * r.get(x, 0)) for x in set(q) | set(r)) if v}) for p, q in rows]
            rows.append((piv, r))
    return not red({k: Fraction(v) for k, v in d.items()})


def refold(f):
    """Re-canonicalises a comparison after substitution."""
    if f[0] == "cmp":
        return Fn.mkcmp(f[1], f[2], f[3])
    if f[0] == "not" and f[1][0] == "cmp":
        return Fn.neg(refold(f[1]))
    return f


def effects(f, K=48, more=None, locks=False):
    """[(return term, facts, {address: value stored last on the path})] plus
    the PF; atomics count as stores of their operand."""
    ws = {w.ins.id: w for w in writes(f) if w.ins.b not in f.crash}

    def ev(i):
        out = ["w%d" % i.id] if i.id in ws else []
        if more:
            m = more(i)
            if m:
                out += [m] if isinstance(m, str) else list(m)
        return out
    P = PF(f, K=K, events=lock_named(f, ev) if locks else ev)
    order = {b: n for n, b in enumerate(f.rpo())}
    out = []
    for r in f.rets:
        for S in P.at(r):
            t = f.term(r.ops[0]) if r.ops else None
            e = {}
            for k in sorted(ws, key=lambda k: (order.get(ws[k].ins.b, 0), ws[k].ins.idx)):
                if ("seen", "w%d" % k) in S:
                    e[ws[k].addr] = ws[k]
            out.append((P.resolve(S, t) if t is not None else None, S, e))
    return P, out


def inc(val, addr):
    """Linear map of val - *addr, None if val is not based on *addr."""
    a = alin(val)
    for k, v in a.items():
        if k != 1 and k[0] == "load" and v == 1 and k[1] == addr:
            return {x: w for x, w in a.items() if x != k}
    return None


def at_field(e, name, base=None):
    """The write to the named field (of the object base) in an effect map."""
    for a, w in e.items():
        x = field(a)
        if x and x[1] == name and (base is None or show(x[2]) == base):
            return w
    return None


def same_lin(S, a, b):
    """Two linear maps (or terms) are equal under the facts."""
    a = a if isinstance(a, dict) else alin(a)
    b = b if isinstance(b, dict) else alin(b)
    d = ladd(a, b, -1)
    return not d or lineq(S, d)


def unspill(f, t):
    """Replaces loads of a local that is stored exactly once by that value."""
    if not hasattr(f, "_spill"):
        m = {}
        for i in f.live("store"):
            a = f.term(i.ops[1])
            if a[0] == "alloca":
                m.setdefault(a, []).append(f.term(i.ops[0]))
        f._spill = {a: v[0] for a, v in m.items() if len(v) == 1}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == "load" and x[1] in f._spill:
            return go(f._spill[x[1]])
        return tuple(go(y) for y in x)
    return go(t)


def aligner(S, k, p, a):
    """Under the facts, p + k is the first multiple of a at or after p: k is a
    linear map or term."""
    r = [("urem", p, a)]
    if a[0] == "int" and a[1] > 0 and a[1] & (a[1] - 1) == 0:
        r += [("and", ("int", a[1] - 1), p), ("and", p, ("int", a[1] - 1))]
    for m in r:
        if same_lin(S, k, ("int", 0)) and entails(S, cmp("eq", m, 0)):
            return True
        if same_lin(S, k, ladd(alin(a), alin(m), -1)) and (entails(S, cmp("ne", m, 0)) or entails(S, cmp("ugt", m, 0))):
            return True
    for x in S:   # (-p) mod a
        pass
    return False


def loadof(t, name, base=None):
    """t is a load of the named field."""
    if t[0] != "load":
        return False
    x = field(t[1])
    return bool(x) and x[1] == name and (base is None or show(x[2]) == base)
