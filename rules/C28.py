"""Stack-trace filter: lookups and updates agree; decays undo what was added."""
from lib import *
from lib import _

TU = "drivers/d_small.cc"
ANCH = [r"^absl::.*HashOf", r"^(unsigned long )?absl::.*HashOf"]
KSIZE, KHASH, KDECAY = 257, 3, 9


def probe(c, f, ins, addr, rule, inst):
    """Checks one probe site; returns the initial hash term of its sequence."""
    ix = gep_index(addr, 2)
    ok = ix is not None and match(("urem", B("h"), ("int", KSIZE)), ix) is not None
    c.ob(rule, ok, "slot-" + inst, ins, "probed slot is not hash modulo the table size")
    if not ok:
        return None
    h = subst(ix[1], {})
    hdr = loop_of(f, ins)
    ok = hdr is not None and h[0] == "phi" and f.ins[h[1]].b == hdr
    c.ob(rule, ok, "loop-" + inst, ins, "probes are not driven by one hash sequence")
    if not ok:
        return None
    for p, nx in loop_paths(f, hdr):
        n = nx[h[1]]
        good = n[0] == "call" and n[1].endswith("HashOf")
        if good:
            good = subst(arg_value(f, f.ins[n[3]], 0), {}) == h
        c.ob(rule, good, "next-" + inst, ins, "next hash is not derived from the previous one")
        c.ob(rule, sum(1 for b in p if b == ins.b) == 1, "each-" + inst, ins, "a probe is skipped")
    c.ob(rule, trip(f, hdr) == KHASH, "count-" + inst, ins, "probes %s slots instead of %d" % (trip(f, hdr), KHASH))
    init = set(phi_inits(f, h[1]))
    return next(iter(init)) if len(init) == 1 else None


def is_stack_hash(f, t):
    if t is None or t[0] != "call" or not t[1].endswith("HashOf"):
        return False
    i = f.ins[t[3]]
    a = f.term(i.ops[0])
    vals = [f.term(j.ops[0]) for j in f.all("store") if strip(f.term(j.ops[1])) == a and f.dom(j, i)]
    return ("arg", 1) in vals and ("arg", 2) in vals or a == ("arg", 1)


def adds(f):
    return [w for w in writes(f, "counts_")]


def run(c):
    c.rule("lookup", "a lookup probes every slot of the trace's hash sequence and answers yes exactly when all are non-zero")
    c.rule("update", "an update applies its amount once, atomically, to each slot of the same hash sequence")
    c.rule("ring", "an addition atomically takes the oldest recorded trace out of the ring and decays exactly that one, by one")
    c.rule("amount", "an addition adds its amount plus the one that the ring will later decay; a removal adds its amount and leaves the ring alone")
    for f in c.fns(r"::StackTraceFilter<257ul, 3ul>::Contains\(", ANCH, tu=TU):
        P = PF(f)
        ld = list(reads(f, "counts_"))
        c.ob("lookup", len(ld) == 1, "loads", f, "expected one probe site")
        c.ob("lookup", not list(writes(f, "counts_")), "pure", f, "lookup modifies the filter")
        for i, a in ld:
            init = probe(c, f, i, a, "lookup", "contains")
            c.ob("lookup", is_stack_hash(f, init), "init", i, "sequence does not start from the trace's hash")
            v = f.term(i)
            hdr = loop_of(f, i)
            for t, S in P.rets():
                zero = cmp("eq", v, 0) in S
                if t == ("int", 0):
                    c.ob("lookup", zero, "no", f, "answers no although no probed slot is zero")
                elif t == ("int", 1):
                    full = any(any(entails(S, cmp(p, ("phi", q.id), KHASH)) for p in ("uge", "sge")) or
                               (phi_inits(f, q.id) == [("int", KHASH)] and entails(S, cmp("eq", ("phi", q.id), 0)))
                               for q in f.blocks[hdr] if q.op == "phi") if hdr is not None else False
                    c.ob("lookup", full and not zero, "yes", f, "answers yes without having probed every slot")
                else:
                    c.ob("lookup", False, "verdict", f, "answer does not depend on the probes alone")
            # leaving the loop early only on a zero slot
            mem = [set(L["blocks"]) for L in f.loops if L["header"] == hdr]
            for p, nx in loop_paths(f, hdr) if hdr is not None else []:
                fs = set()
                for x, y in zip(p, p[1:] + p[:1]):
                    fs |= f.edge_facts(x, y)
                c.ob("lookup", cmp("ne", v, 0) in fs, "continue", i, "continues past a zero slot")
    for f in c.fns(r"::StackTraceFilter<257ul, 3ul>::Add\(", ANCH, tu=TU, floor=2):
        span = len(f.args) == 4
        nm = "span" if span else "hash"
        ws = adds(f)
        c.ob("update", len(ws) == 1, "site-" + nm, f, "expected one update site")
        for w in ws:
            init = probe(c, f, w.ins, w.addr, "update", nm)
            c.ob("update", w.kind == "add", "rmw-" + nm, w.ins, "update is not an atomic addition")
            c.ob("update", amount(w.val) == ("arg", 3 if span else 2), "amount-" + nm, w.ins, "amount is not the caller's")
            c.ob("update", is_stack_hash(f, init) if span else init == ("arg", 1), "init-" + nm, w.ins, "sequence does not start from the trace's hash")
    for f in c.fns(r"::DecayingStackTraceFilter<257ul, 3ul, 9ul>::(Add|Decay|DecayAll)\(", ANCH, tu=TU, floor=3):
        nm = f.sname.split("::")[-1] + str(len(f.args))
        isadd = f.sname.endswith("::Add")
        xs = [w for w in writes(f, "ring_")]
        ps = [w for w in writes(f, "pos_")]

        def ev(i):
            for w in xs:
                if w.ins is i:
                    return "ring"
            for w in ps:
                if w.ins is i:
                    return "pos"
        P = PF(f, events=ev)
        c.ob("ring", len(xs) == 1 and xs[0].kind == "xchg", "take-" + nm, f, "the ring entry is not taken with one atomic exchange")
        c.ob("ring", len(ps) == 1 and ps[0].kind == "add" and ps[0].val == ("int", 1), "pos-" + nm, f, "the ring position is not advanced atomically by one")
        if len(xs) != 1 or xs[0].kind != "xchg":
            continue
        old = f.term(xs[0].ins)
        ix = gep_index(xs[0].addr, 8)
        c.ob("ring", bool(ps) and ix == ("urem", f.term(ps[0].ins), ("int", KDECAY)), "index-" + nm, xs[0].ins, "ring slot is not the position modulo the ring size")
        for w in adds(f):
            init = probe(c, f, w.ins, w.addr, "ring", nm)
            a = amount(w.val)
            if init == old:
                c.ob("ring", a[0] == "int" and a[1] == -1, "decayamount-" + nm, w.ins, "decays by something other than one")
                for S in P.at(w.ins):
                    c.ob("ring", cmp("ne", old, 0) in S, "unused-" + nm, w.ins, "decays an unused entry")
            elif isadd:
                c.ob("amount", is_stack_hash(f, init), "init-" + nm, w.ins, "updates a sequence that is neither the trace's nor the decayed one")
                h = init
                for S in P.at(w.ins):
                    pos = entails(S, cmp("sge", ("arg", 3), 0))
                    neg = entails(S, cmp("slt", ("arg", 3), 0))
                    if neg:
                        c.ob("amount", a == ("arg", 3), "removal-" + nm, w.ins, "removal amount is not the caller's")
                    elif pos:
                        d = lin_of(a)
                        good = d in ({("arg", 3): 1, cmp("ne", h, 0): 1},)
                        if not good and cmp("ne", h, 0) in S:
                            good = d == {("arg", 3): 1, 1: 1}
                        if not good and cmp("eq", h, 0) in S:
                            good = d == {("arg", 3): 1}
                        if not good and a[0] == "select":
                            good = a in (("select", cmp("ne", h, 0), lin1(("arg", 3)), ("arg", 3)),
                                         ("select", cmp("eq", h, 0), ("arg", 3), lin1(("arg", 3))))
                        c.ob("amount", good, "addition-" + nm, w.ins, "added amount is not the caller's plus the entry to be decayed")
                    else:
                        c.ob("amount", False, "sign-" + nm, w.ins, "additions and removals are not told apart")
            else:
                c.ob("ring", False, "other-" + nm, w.ins, "updates a sequence that was not taken from the ring")
        dec = [w for w in adds(f) if probe_init(f, w) == old]
        c.ob("ring", len(dec) == 1, "decay-" + nm, f, "the entry taken from the ring is not decayed")
        if isadd:
            c.ob("ring", is_stack_hash(f, xs[0].val), "record-" + nm, xs[0].ins, "the ring does not record the added trace")
            for S in P.at(f.rets[0]):
                if entails(S, cmp("slt", ("arg", 3), 0)):
                    c.ob("amount", P.count(S, "ring") == 0, "ringuntouched-" + nm, f, "a removal disturbs the ring")
                elif entails(S, cmp("sge", ("arg", 3), 0)):
                    c.ob("amount", P.count(S, "ring") == 1 and P.count(S, "pos") == 1, "ringonce-" + nm, f, "an addition does not record itself once")
        else:
            c.ob("ring", xs[0].val == (("arg", 1) if len(f.args) == 2 else ("int", 0)), "record-" + nm, xs[0].ins, "the ring does not record the replacement")
        if nm.startswith("DecayAll"):
            h = [L["header"] for L in f.loops if xs[0].ins.b in L["blocks"]]
            c.ob("ring", bool(h) and trip(f, h[0]) == KDECAY, "all", f, "does not decay every entry")


def probe_init(f, w):
    ix = gep_index(w.addr, 2)
    if ix and ix[0] == "urem":
        h = subst(ix[1], {})
        if h[0] == "phi":
            s = set(phi_inits(f, h[1]))
            if len(s) == 1:
                return next(iter(s))
    return None


def lin1(t):
    return ("lin", tuple(sorted({t: 1, 1: 1}.items(), key=lambda kv: repr(kv[0]))))


def amount(t):
    while t[0] == "trunc":
        t = t[2]
    if t[0] == "int" and t[1] in (65535,):
        return ("int", -1)
    return t
