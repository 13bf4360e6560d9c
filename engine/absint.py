"""Interval abstract interpretation over a canonical function (ir.Fn).

Classical forward analysis with edge refinement and widening.  The caller may
restrict the initial state (`assume`: SSA/argument key -> interval), which is
trace partitioning on the inputs; the analysis then reports which blocks can be
reached and the range of every value.  Nothing is executed and no path
condition is ever handed to a solver.

Values: (lo, hi) inclusive unsigned ranges, together with bit width; pointers
are 64-bit with null == 0.
"""
import re

import sys
sys.setrecursionlimit(20000)


def width(ty):
    if ty is None:
        return None
    m = re.match(r"i(\d+)$", ty)
    if m:
        return int(m.group(1))
    if ty == "ptr":
        return 64
    return None


class Bot(Exception):
    pass


def top(w):
    return (0, (1 << w) - 1)


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    if lo > hi:
        raise Bot()
    return (lo, hi)


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def to_signed(a, w):
    h = 1 << (w - 1)
    if a[1] < h:
        return a
    if a[0] >= h:
        return (a[0] - (1 << w), a[1] - (1 << w))
    return (-h, h - 1)


def from_signed(a, w):
    lo, hi = a
    if lo >= 0:
        return (lo, hi)
    if hi < 0:
        return (lo + (1 << w), hi + (1 << w))
    return top(w)


def wrap(lo, hi, w):
    m = 1 << w
    if hi - lo >= m:
        return top(w)
    k = lo // m
    if hi // m == k:
        return (lo - k * m, hi - k * m)
    return top(w)


FLIP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge",
        "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule",
       "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


def cmp_eval(p, a, b, w):
    """True/False/None."""
    if p[0] == "s":
        a, b = to_signed(a, w), to_signed(b, w)
    if p == "eq":
        if a[0] == a[1] == b[0] == b[1]:
            return True
        if a[1] < b[0] or b[1] < a[0]:
            return False
        return None
    if p == "ne":
        r = cmp_eval("eq", a, b, w)
        return None if r is None else not r
    q = p[1:]
    if q == "lt":
        return True if a[1] < b[0] else False if a[0] >= b[1] else None
    if q == "le":
        return True if a[1] <= b[0] else False if a[0] > b[1] else None
    if q == "gt":
        return cmp_eval(p[0] + "lt", b, a, w) if p[0] == "u" else (
            True if b[1] < a[0] else False if b[0] >= a[1] else None)
    if q == "ge":
        return (True if b[1] <= a[0] else False if b[0] > a[1] else None)


def cmp_refine(p, a, b, w):
    """Refined a given a p b (may raise Bot)."""
    if p == "eq":
        return meet(a, b)
    if p == "ne":
        if b[0] == b[1]:
            if a[0] == b[0]:
                a = (a[0] + 1, a[1])
            if a[1] == b[0]:
                a = (a[0], a[1] - 1)
            if a[0] > a[1]:
                raise Bot()
        return a
    s = p[0] == "s"
    M = (1 << w) - 1
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, M)
    A, B = (to_signed(a, w), to_signed(b, w)) if s else (a, b)
    q = p[1:]
    if q == "lt":
        c = (lo, B[1] - 1)
    elif q == "le":
        c = (lo, B[1])
    elif q == "gt":
        c = (B[0] + 1, hi)
    else:
        c = (B[0], hi)
    r = meet(A, c)
    if not s:
        return r
    if r[0] < 0 <= r[1]:
        return a
    return meet(a, from_signed(r, w))


class AbsInt:
    def __init__(self, fn, assume=None, vals=None, dead_calls=()):
        """assume: {key: (lo,hi)} with key = ('arg', n) or instruction id.
        vals: callable(Ins) -> interval or None, an oracle for opaque values
        (loads, call results)."""
        self.fn = fn
        self.assume = dict(assume or {})
        self.vals = vals
        self.dead_calls = dead_calls
        self.inn = {}
        self.infeasible = set()
        self.gave_up = False
        self.run()

    # --- evaluation ---------------------------------------------------
    def wid(self, o):
        if o[0] == "v":
            return width(self.fn.ins[o[1]].ty) or 64
        if o[0] == "a":
            return width(self.fn.args[o[1]][1]) or 64
        return None

    def ev(self, o, st, w=None, depth=0):
        k = o[0]
        if k in ("c", "C"):
            v = int(o[1])
            ww = w or (o[2] if len(o) > 2 and isinstance(o[2], int) else 64)
            v &= (1 << ww) - 1
            return (v, v)
        if k == "n":
            return (0, 0)
        if k in ("f", "g", "o"):
            return (1, (1 << 64) - 1)
        if k == "a":
            ww = self.wid(o)
            return st.get(("arg", o[1]), top(ww))
        if k == "v":
            return self.evi(self.fn.ins[o[1]], st, depth)
        return top(w or 64)

    def evi(self, I, st, depth=0):
        w = width(I.ty)
        if w is None:
            return top(64)
        r = st.get(I.id)
        if depth > 24:
            return r or top(w)
        s = self.struct(I, st, w, depth + 1)
        if r is not None:
            try:
                return meet(r, s)
            except Bot:
                return r
        return s

    def struct(self, I, st, w, depth):
        op = I.op
        o = I.ops
        T = top(w)
        E = lambda x, ww=None: self.ev(x, st, ww, depth)
        if op in ("zext", "ptrtoint", "inttoptr", "bitcast", "freeze", "fld"):
            a = E(o[0])
            return a if a[1] <= T[1] else T
        if op == "sext":
            ws = self.wid(o[0]) or w
            return from_signed(to_signed(E(o[0]), ws), w)
        if op == "trunc":
            a = E(o[0])
            return wrap(a[0], a[1], w)
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "lshr",
                  "udiv", "urem", "ashr", "sdiv", "srem"):
            a, b = E(o[0], w), E(o[1], w)
            if op == "add":
                # prefer the signed reading of small negative constants
                if b[0] == b[1] and b[0] >= (1 << (w - 1)):
                    c = b[0] - (1 << w)
                    return wrap(a[0] + c, a[1] + c, w)
                return wrap(a[0] + b[0], a[1] + b[1], w)
            if op == "sub":
                return wrap(a[0] - b[1], a[1] - b[0], w)
            if op == "mul":
                return wrap(a[0] * b[0], a[1] * b[1], w)
            if op == "shl":
                if b[1] < w:
                    return wrap(a[0] << b[0], a[1] << b[1], w)
                return T
            if op == "and":
                if a[0] == a[1] and b[0] == b[1]:
                    v = a[0] & b[0]
                    return (v, v)
                for x, y in ((a, b), (b, a)):
                    if y[0] == y[1]:
                        m = y[0]
                        # low mask: exact when x fits
                        if m & (m + 1) == 0 and x[1] <= m:
                            return x
                        # high mask (alignment)
                        inv = (~m) & T[1]
                        if inv & (inv + 1) == 0:
                            return (x[0] & m, x[1] & m)
                return (0, min(a[1], b[1]))
            if op == "or":
                n = max(a[1], b[1]).bit_length()
                return (max(a[0], b[0]), (1 << n) - 1)
            if op == "xor":
                if a[0] == a[1] and b[0] == b[1]:
                    v = a[0] ^ b[0]
                    return (v, v)
                n = max(a[1], b[1]).bit_length()
                return (0, (1 << n) - 1)
            if op == "lshr":
                if b[1] < w:
                    return (a[0] >> b[1], a[1] >> b[0])
                return T
            if op == "ashr":
                if b[0] == b[1] and b[0] < w:
                    s = to_signed(a, w)
                    return from_signed((s[0] >> b[0], s[1] >> b[0]), w)
                return T
            if op == "udiv":
                if b[0] > 0:
                    return (a[0] // b[1], a[1] // b[0])
                return T
            if op == "urem":
                if b[0] > 0:
                    return a if a[1] < b[0] else (0, b[1] - 1)
                return T
            return T
        if op in ("icmp",):
            ww = self.wid(o[0]) or self.wid(o[1]) or 64
            r = cmp_eval(I.d["p"], E(o[0], ww), E(o[1], ww), ww)
            return (0, 1) if r is None else (int(r), int(r))
        if op == "select":
            c = E(o[0], 1)
            if c == (1, 1):
                return E(o[1], w)
            if c == (0, 0):
                return E(o[2], w)
            # refine each arm by the condition
            try:
                a = self.ev(o[1], self.refine(o[0], True, dict(st), depth), w, depth)
            except Bot:
                a = None
            try:
                b = self.ev(o[2], self.refine(o[0], False, dict(st), depth), w, depth)
            except Bot:
                b = None
            if a is None and b is None:
                return T
            if a is None:
                return b
            if b is None:
                return a
            return join(a, b)
        if op == "call":
            c = I.d.get("callee") or ""
            m = re.match(r"llvm\.(umin|umax|smin|smax|ctpop|ctlz|cttz|usub\.sat|uadd\.sat)\.", c)
            if m:
                k = m.group(1)
                a = E(o[0], w)
                b = E(o[1], w) if len(o) > 1 else None
                if k == "umin":
                    return (min(a[0], b[0]), min(a[1], b[1]))
                if k == "umax":
                    return (max(a[0], b[0]), max(a[1], b[1]))
                if k in ("smin", "smax"):
                    f = min if k == "smin" else max
                    x, y = to_signed(a, w), to_signed(b, w)
                    return from_signed((f(x[0], y[0]), f(x[1], y[1])), w)
                if k == "usub.sat":
                    return (max(0, a[0] - b[1]), max(0, a[1] - b[0]))
                if k == "uadd.sat":
                    return (min(T[1], a[0] + b[0]), min(T[1], a[1] + b[1]))
                if k == "ctpop":
                    if a[0] == a[1]:
                        v = bin(a[0]).count("1")
                        return (v, v)
                    return (1 if a[0] > 0 else 0, w)
                if k == "ctlz":
                    return (w - a[1].bit_length(), w - a[0].bit_length())
                if a[0] == a[1]:
                    v = w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
                    return (v, v)
                return (0, w if a[0] == 0 else max(a[1].bit_length() - 1, 0))
            if self.vals:
                r = self.vals(I)
                if r is not None:
                    return r
            return T
        if op == "extractvalue":
            src = o[0]
            if src[0] == "v":
                J = self.fn.ins[src[1]]
                c = J.d.get("callee") or ""
                m = re.match(r"llvm\.(u|s)(mul|add|sub)\.with\.overflow\.i(\d+)", c)
                if m:
                    ww = int(m.group(3))
                    a, b = E(J.ops[0], ww), E(J.ops[1], ww)
                    if m.group(1) == "u":
                        f = {"mul": lambda: (a[0] * b[0], a[1] * b[1]),
                             "add": lambda: (a[0] + b[0], a[1] + b[1]),
                             "sub": lambda: (a[0] - b[1], a[1] - b[0])}[m.group(2)]()
                        M = (1 << ww) - 1
                        if list(I.d["ix"]) == [1]:
                            if f[0] >= 0 and f[1] <= M:
                                return (0, 0)
                            if f[0] > M or f[1] < 0:
                                return (1, 1)
                            return (0, 1)
                        return wrap(f[0], f[1], ww)
            if self.vals:
                r = self.vals(I)
                if r is not None:
                    return r
            return T
        if op == "alloca":
            return (1, T[1])
        if op == "gep":
            a = E(o[0]) if o else T
            if I.d.get("inb") and a[0] > 0:
                return (1, T[1])
            return T
        if op == "phi":
            return T       # refined by state only
        if self.vals:
            r = self.vals(I)
            if r is not None:
                return r
        return T

    # --- refinement -----------------------------------------------------
    def setv(self, o, r, st, depth=0):
        """Records that operand o lies in r, propagating backwards."""
        if depth > 8:
            return
        if o[0] == "a":
            k = ("arg", o[1])
            cur = st.get(k, top(self.wid(o)))
            st[k] = meet(cur, r)
            return
        if o[0] != "v":
            return
        I = self.fn.ins[o[1]]
        w = width(I.ty)
        if w is None:
            return
        cur = self.evi(I, st)
        n = meet(cur, meet(top(w), r) if r[1] <= top(w)[1] else top(w))
        if n == cur and I.id in st:
            return
        st[I.id] = n
        op = I.op
        if op in ("zext", "bitcast", "ptrtoint", "inttoptr", "freeze", "fld"):
            self.setv(I.ops[0], n, st, depth + 1)
        elif op == "trunc":
            a = self.ev(I.ops[0], st)
            if a[1] <= top(w)[1]:
                self.setv(I.ops[0], n, st, depth + 1)
        elif op in ("add", "sub"):
            a, b = self.ev(I.ops[0], st, w), self.ev(I.ops[1], st, w)
            if b[0] == b[1]:
                c = b[0] if op == "add" else -b[0]
                x = wrap(n[0] - c, n[1] - c, w)
                self.setv(I.ops[0], x, st, depth + 1)
        elif op == "lshr":
            b = self.ev(I.ops[1], st, w)
            if b[0] == b[1]:
                self.setv(I.ops[0], (n[0] << b[0], (n[1] << b[0]) | ((1 << b[0]) - 1)), st, depth + 1)
        elif w == 1 and n[0] == n[1]:
            self.refine(o, bool(n[0]), st, depth + 1)

    def refine(self, o, pol, st, depth=0):
        if depth > 10:
            return st
        if o[0] in ("c", "C"):
            if bool(int(o[1])) != pol:
                raise Bot()
            return st
        if o[0] != "v":
            self.setv(o, (int(pol), int(pol)), st, depth + 1)
            return st
        I = self.fn.ins[o[1]]
        cur = st.get(I.id)
        if cur is not None and cur[0] == cur[1] and bool(cur[0]) != pol:
            raise Bot()
        st[I.id] = (int(pol), int(pol))
        if I.op == "icmp":
            p = I.d["p"] if pol else NEG[I.d["p"]]
            a, b = I.ops
            w = self.wid(a) or self.wid(b) or 64
            A, Bv = self.ev(a, st, w), self.ev(b, st, w)
            self.setv(a, cmp_refine(p, A, Bv, w), st, depth + 1)
            A = self.ev(a, st, w)
            self.setv(b, cmp_refine(FLIP[p], Bv, A, w), st, depth + 1)
        elif I.op == "xor" and len(I.ops) == 2:
            c = self.ev(I.ops[1], st, 1)
            if c == (1, 1):
                self.refine(I.ops[0], not pol, st, depth + 1)
        elif I.op == "and" and pol or I.op == "or" and not pol:
            self.refine(I.ops[0], pol, st, depth + 1)
            self.refine(I.ops[1], pol, st, depth + 1)
        elif I.op == "select":
            c, a, b = I.ops
            av, bv = self.ev(a, st, 1), self.ev(b, st, 1)
            if av[0] == av[1] and bool(av[0]) != pol:
                self.refine(c, False, st, depth + 1)
                self.refine(b, pol, st, depth + 1)
            elif bv[0] == bv[1] and bool(bv[0]) != pol:
                self.refine(c, True, st, depth + 1)
                self.refine(a, pol, st, depth + 1)
        elif I.op == "extractvalue" and pol is False and list(I.d["ix"]) == [1] and I.ops[0][0] == "v":
            J = self.fn.ins[I.ops[0][1]]
            c = J.d.get("callee") or ""
            if c.startswith("llvm.umul.with.overflow") or c.startswith("llvm.uadd.with.overflow"):
                w = width("i" + c.rsplit("i", 1)[1]) or 64
                M = (1 << w) - 1
                for x, y in ((0, 1), (1, 0)):
                    yv = self.ev(J.ops[y], st, w)
                    if "umul" in c:
                        if yv[0] > 0:
                            self.setv(J.ops[x], (0, M // yv[0]), st, depth + 1)
                    else:
                        self.setv(J.ops[x], (0, M - yv[0]), st, depth + 1)
        return st

    # --- fixpoint ----------------------------------------------------------
    def run(self):
        fn = self.fn
        init = {}
        for k, v in self.assume.items():
            init[k] = v
        order = fn.rpo()
        pos = {b: k for k, b in enumerate(order)}
        self.inn = {0: init}
        visits = {}
        back = {(p, b) for b in order for p in fn.pred[b] if p in pos and pos[p] >= pos[b]}
        heads = {b for _, b in back}
        wl = [0]
        steps = 0
        edge_out = {}
        while wl:
            wl.sort(key=lambda b: pos[b])
            b = wl.pop(0)
            steps += 1
            if steps > 40 * len(order) + 2000:
                self.gave_up = True
                return
            st = self.inn[b]
            for k, s in enumerate(dict.fromkeys(fn.succ[b])):
                out = self.edge(b, s, st)
                edge_out[(b, s)] = out
                if out is None:
                    continue
                # merge over all known in-edges
                acc = None
                for p in fn.pred[s]:
                    e = edge_out.get((p, s))
                    if e is None:
                        continue
                    e = self.phis(p, s, e)
                    if acc is None:
                        acc = dict(e)
                    else:
                        acc = {k2: join(acc[k2], e[k2]) for k2 in acc if k2 in e}
                old = self.inn.get(s)
                if old is not None:
                    # monotone: join with old
                    new = {}
                    for k2 in old:
                        if k2 in acc:
                            new[k2] = join(old[k2], acc[k2])
                    if s in heads:
                        visits[s] = visits.get(s, 0) + 1
                        if visits[s] > 3:
                            for k2 in list(new):
                                if new[k2] != old.get(k2):
                                    I = fn.ins.get(k2) if isinstance(k2, int) else None
                                    w = width(I.ty) if I else 64
                                    lo, hi = new[k2]
                                    if lo < old[k2][0]:
                                        lo = 0
                                    if hi > old[k2][1]:
                                        hi = top(w or 64)[1]
                                    new[k2] = (lo, hi)
                    acc = new
                if old is None or acc != old:
                    self.inn[s] = acc
                    if s not in wl:
                        wl.append(s)
        # one narrowing sweep
        for _ in range(2):
            for b in order:
                if b == 0 or b not in self.inn:
                    continue
                acc = None
                for p in fn.pred[b]:
                    if p not in self.inn:
                        continue
                    e = self.edge(p, b, self.inn[p])
                    if e is None:
                        continue
                    e = self.phis(p, b, e)
                    acc = dict(e) if acc is None else {
                        k2: join(acc[k2], e[k2]) for k2 in acc if k2 in e}
                if acc is None:
                    self.inn.pop(b, None)
                else:
                    self.inn[b] = acc
        for b in order:
            if b not in self.inn:
                continue
            for s in fn.succ[b]:
                if self.edge(b, s, self.inn[b]) is None:
                    self.infeasible.add((b, s))

    def phis(self, p, s, st):
        fn = self.fn
        new = {}
        ids = set()
        for I in fn.blocks[s]:
            if I.op != "phi":
                break
            ids.add(I.id)
            w = width(I.ty)
            if w is None:
                continue
            for o, pb in zip(I.ops, I.d["in"]):
                if pb == p:
                    new[I.id] = self.ev(o, st, w)
                    break
        if not ids:
            return st
        if any((pb in self.fn.reach_blocks(s)) for pb in [p]):
            # back edge: values defined inside the loop are redefined
            dropb = self.fn.reach_blocks(s)
            r = {}
            for k, v in st.items():
                if isinstance(k, int) and k in self.fn.ins:
                    J = self.fn.ins[k]
                    if J.b in dropb and self.fn.bdom(s, J.b):
                        continue
                r[k] = v
            st = r
        else:
            st = dict(st)
        st.update(new)
        return st

    def edge(self, b, s, st):
        fn = self.fn
        last = fn.blocks[b][-1]
        st = dict(st)
        try:
            if last.op == "br" and last.ops:
                t, f = fn.osucc[b][0], fn.osucc[b][1]
                if t != f:
                    pol = s == t
                    c = self.ev(last.ops[0], st, 1)
                    if c[0] == c[1] and bool(c[0]) != pol:
                        return None
                    self.refine(last.ops[0], pol, st)
                    c = self.ev(last.ops[0], st, 1)
            elif last.op == "switch":
                w = self.wid(last.ops[0]) or 64
                v = self.ev(last.ops[0], st, w)
                M = (1 << w) - 1
                cs = [c & M for c, t in last.d["cases"] if t == s]
                if s != last.d["def"]:
                    ok = [c for c in cs if v[0] <= c <= v[1]]
                    if not ok:
                        return None
                    self.setv(last.ops[0], (min(ok), max(ok)), st)
                else:
                    allc = {c & M for c, t in last.d["cases"] if t != s}
                    if v[1] - v[0] < 1000 and all(x in allc for x in range(v[0], v[1] + 1)):
                        return None
        except Bot:
            return None
        return st

    # --- queries -------------------------------------------------------------
    def reach(self, b):
        b = getattr(b, "b", b)
        return b in self.inn

    def at(self, o, where):
        """Range of operand/instruction o in the block of `where`."""
        b = getattr(where, "b", where)
        if b not in self.inn:
            return None
        if not isinstance(o, (list, tuple)):
            o = ("v", o.id)
        w = self.wid(o) or 64
        return self.ev(o, self.inn[b], w)

    def rets(self):
        """[(ret instruction, range)] over reachable returns, phi-split."""
        out = []
        for r in self.fn.rets:
            if not self.reach(r):
                continue
            out.append((r, self.at(r.ops[0], r) if r.ops else None))
        return out
