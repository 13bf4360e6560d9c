"""Coarse 32-bit timestamps: sentinel, modular elapsed time, wrap-safe order."""
from lib import *
from lib import _

TU = "drivers/d_small.cc"
SHIFT = 20


def tick(t):
    """t is a 64-bit clock reading reduced to 32 bits of coarse ticks; returns
    the reading."""
    for p in (("trunc", _, ("lshr", B("r"), ("int", SHIFT))),
              ("trunc", _, ("ashr", B("r"), ("int", SHIFT)))):
        m = match(p, t)
        if m is not None:
            return m["r"]
    return None


def reading(f, t, own):
    """The reading comes from the caller's clock / snapshot."""
    if t is None:
        return False
    if t[0] in ("icall", "call"):
        return t[1] == ("arg", 1)
    return t == ("arg", 1) if not own else False


def stamp(t):
    return t[0] == "load" and is_field(t[1], "val_") and field(t[1])[2] == ("arg", 0)


def run(c):
    c.rule("sentinel", "no clock reading is recorded as the 'never set' value; other readings are recorded unchanged as coarse ticks")
    c.rule("state", "resetting stores the 'never set' value and the set/unset test is exactly inequality with it")
    c.rule("elapsed", "elapsed time is infinite exactly when unset, else the 32-bit modular tick difference scaled back to seconds")
    c.rule("order", "ordering is decided by the sign of the 32-bit modular difference")
    fs = c.fns("Cycles32::", "^absl::", tu=TU, floor=7)
    for f in fs:
        n = f.sname.split("::")[-1]
        if n == "Update":
            P = PF(f)
            ws = list(writes(f, "val_"))
            c.ob("sentinel", len(ws) == 1 or len(ws) == 2, "store", f, "expected one recording store per path")
            mn, mx = f.count_on_paths(lambda i: any(w.ins is i for w in ws))
            c.ob("sentinel", mn == 1 and mx == 1, "once", f, "the reading is not recorded exactly once")
            for w in ws:
                for S in P.at(w.ins):
                    for v, F in cases(f, w.val, S):
                        if v[0] == "int":
                            c.ob("sentinel", v[1] != 0, "nonzero-const", w.ins, "records the 'never set' value")
                            z = any(x[0] == "cmp" and x[1] == "eq" and x[3] == ("int", 0) and reading(f, tick(x[2]), True) for x in F)
                            c.ob("sentinel", z, "substitute", w.ins, "substitutes a constant for a reading that is not zero")
                        else:
                            c.ob("sentinel", reading(f, tick(v), True), "ticks", w.ins, "recorded value is not the clock reading in coarse ticks: " + show(v))
                            c.ob("sentinel", entails(F, cmp("ne", v, 0)), "nonzero", w.ins, "a zero tick count can be recorded")
        elif n == "Reset":
            ws = list(writes(f, "val_"))
            c.ob("state", len(ws) == 1 and ws[0].val == ("int", 0), "reset", f, "reset does not store the 'never set' value")
        elif "bool" in f.name:
            for r in f.rets:
                t = f.term(r.ops[0])
                c.ob("state", t[:2] == ("cmp", "ne") and stamp(t[2]) and t[3] == ("int", 0), "test", r, "set/unset test is not inequality with the 'never set' value")
        elif n == "raw":
            for r in f.rets:
                c.ob("state", stamp(f.term(r.ops[0])), "raw", r, "raw value is not the stored stamp")
        elif n == "AsDuration":
            snap = "Snapshot" in f.name
            P = PF(f)
            for t, S in P.rets():
                z = [x for x in S if x[0] == "cmp" and stamp(x[2]) and x[3] == ("int", 0)]
                unset = any(x[1] == "eq" for x in z)
                set_ = any(x[1] == "ne" for x in z) or any(x[0] == "cmp" and x[1] in ("ugt",) and stamp(x[2]) for x in S)
                inf = (t[0] == "call" and t[1].endswith("InfiniteDuration"))
                inst = "snap" if snap else "clock"
                if inf:
                    c.ob("elapsed", unset, "inf-" + inst, f, "reports infinity although a time was recorded")
                    continue
                c.ob("elapsed", set_, "set-" + inst, f, "computes an elapsed time although none was recorded")
                c.ob("elapsed", elapsed_ok(f, t, snap), "value-" + inst, f, "elapsed time is not (modular 32-bit tick difference * 2^%d)/frequency: %s" % (SHIFT, show(t)))
        elif n == "TimeAfterOrEqual":
            for r in f.rets:
                t = f.term(r.ops[0])
                c.ob("order", order_ok(f, t), "cmp-" + ("pub" if "Cycles32 const" in f.name.split("TimeAfterOrEqual")[1] else "raw"), r,
                     "comparison is not the sign of the modular difference: " + show(t))


def op(f, t, k):
    return t == ("arg", k) or (t[0] == "load" and is_field(t[1], "val_") and field(t[1])[2] == ("arg", k))


def order_ok(f, t):
    if t[0] != "cmp":
        return False
    p, a, b = t[1], t[2], t[3]
    d = dict(a[1]) if a[0] == "lin" else None
    if d is None or len(d) != 2:
        return False
    fwd = any(op(f, k, 0) and v == 1 for k, v in d.items()) and any(op(f, k, 1) and v == -1 for k, v in d.items())
    rev = any(op(f, k, 1) and v == 1 for k, v in d.items()) and any(op(f, k, 0) and v == -1 for k, v in d.items())
    if fwd:
        return (p, b) in (("sge", ("int", 0)), ("sgt", ("int", -1)), ("ult", ("int", -2**31)), ("ult", ("int", 2**31)), ("ule", ("int", 2**31 - 1)))
    if rev:
        return (p, b) in (("sle", ("int", 0)), ("slt", ("int", 1)))
    return False


def elapsed_ok(f, t, snap):
    if t[0] != "call" or not t[1].endswith("absl::Seconds"):
        return False
    x = t[2][0] if isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], tuple) else t[2]
    m = None
    for e in subterms(t):
        if e[0] == "fdiv":
            m = e
            break
    if m is None:
        return False
    num, den = m[1], m[2]
    if num[0] != "fmul" or ("fp", 1048576) not in [q[:2] for q in num[1:3] if isinstance(q, tuple)] and not any(q[0] == "fp" and float(q[1]) == 2.0 ** SHIFT for q in num[1:3] if isinstance(q, tuple)):
        return False
    u = [q for q in num[1:3] if q[0] in ("uitofp", "sitofp")]
    if len(u) != 1 or u[0][0] != "uitofp":
        return False
    d = u[0][1]
    if d[0] != "lin":
        return False
    dd = dict(d[1])
    if len(dd) != 2:
        return False
    now = [k for k, v in dd.items() if v == 1]
    last = [k for k, v in dd.items() if v == -1]
    if not (now and last and stamp(last[0])):
        return False
    r = tick(now[0])
    if snap:
        return r == ("arg", 1) and den == ("arg", 2)
    return r is not None and r[0] == "icall" and r[1] == ("arg", 1) and den[0] == "icall" and den[1] == ("arg", 2)
