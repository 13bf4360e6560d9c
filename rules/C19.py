"""Bitmaps set, clear, count and find exactly the bits asked for, and range
trackers keep the marked bits, their number and the longest free run true."""
from tcm import *
from segs import segs
from C09 import nrm, same, add, mk
from C34 import memory, final, ld, first, inits, known, repl, pos

B = r"tcmalloc::tcmalloc_internal::Bitmap<[0-9]+ul>::"
R = r"tcmalloc::tcmalloc_internal::RangeTracker<[0-9]+ul>::"
BA = [r"Bitmap<[0-9]+ul>::(SetRange|ClearRange|FindSet|FindClear|FindSetBackwards|FindClearBackwards|NextFreeRange|Clear)\("]


def run(c):
    c.rule("bit", "a single-bit operation touches its bit only and reports the old value")
    c.rule("range", "a range operation covers exactly the bits asked for")
    c.rule("find", "a search gives the nearest bit of the value sought at or beyond the start, or that there is none")
    c.rule("whole", "whole-bitmap operations take in every word")
    c.rule("track", "marking and unmarking keep bits, used count and allocation count in step")
    c.rule("longest", "the longest free run is what the bitmap has")
    c.rule("fit", "the range handed out is free, long enough and the best fit")
    seen = set()
    for f in c.fns(r"(^|[ ])%s(SetBit|ClearBit|GetBit)\(" % B, [], floor=3):
        seen.add(op(f))
        for s in segs(f):
            single(c, f, s)
    for f in c.fns(r"^%s(SetRange|ClearRange|CountBits)\(" % B, [], floor=3):
        seen.add(op(f))
        ranges(c, f)
    for f in c.fns(r"^%s(FindSet|FindClear|FindSetBackwards|FindClearBackwards)\(" % B, [], floor=3):
        seen.add(op(f))
        search(c, f)
    for f in c.fns(r"^%sNextFreeRange\(" % B, BA, floor=1):
        seen.add(op(f))
        free(c, f)
    for f in c.fns(r"^%s(IsZero|Clear|operator[~&|^])\(" % B, [], floor=2):
        seen.add(op(f))
        whole(c, f)
    for n in ("SetBit", "ClearBit", "GetBit", "SetRange", "ClearRange", "CountBits", "FindSet", "FindClear", "FindSetBackwards", "NextFreeRange", "Clear"):
        c.need(n in seen, "no Bitmap::" + n)
    done = set()
    for f in c.fns(r"^%s(Mark|Unmark|FindAndMark|Clear|used|allocs|longest_free|NextFreeRange|bits)\(" % R, BA, floor=6):
        n = op(f)
        done.add(n)
        {"Mark": mark, "Unmark": unmark, "FindAndMark": find_mark}.get(n, access)(c, f)
    for n in ("Mark", "Unmark", "FindAndMark", "used", "longest_free"):
        c.need(n in done, "no RangeTracker::" + n)


def op(f):
    return short(f.name).split("::")[-1].split("(")[0]


def size(f):
    return int(re.search(r"(?:Bitmap|RangeTracker)<([0-9]+)ul>::\~?[a-zA-Z]+", f.name.replace("operator", "op")).group(1)) if "operator" not in f.name else int(re.search(r"<([0-9]+)ul>::operator", f.name).group(1))


# -- words and masks ----------------------------------------------------------
def bn(t):
    """positions as linear forms: 64 * (x >> 6) + x % 64 is x"""
    t = nrm(t)
    if not isinstance(t, tuple) or not t:
        return t
    a = lin(t)
    return mk(a)


def lin(t):
    t = nrm(t)
    if t[0] == "or" and len(t) == 3:
        x, y = lin(t[1]), lin(t[2])
        if low(t[1]) and mult(y) or low(t[2]) and mult(x):
            return plus(x, y)
    if t[0] == "xor" and I(-1) in t[1:]:
        o = t[1] if t[2] == I(-1) else t[2]
        return plus({1: -1}, lin(o), -1)
    if t[0] == "xor" and I(63) in t[1:]:
        # the position in a word counted from the other end
        o = t[1] if t[2] == I(63) else t[2]
        if o[0] == "ctlz":
            return plus({1: 63}, {o: 1}, -1)
        if o[0] == "or" and len(o) == 3:
            for x, y in ((o[1], o[2]), (o[2], o[1])):
                if x[0] == "ctlz" and mult(lin(y)):
                    return plus(plus({1: 63}, {x: 1}, -1), lin(y))
    if t[0] == "and" and len(t) == 3 and t[2][0] == "int" or t[0] == "and" and len(t) == 3 and t[1][0] == "int":
        k, x = (t[2], t[1]) if t[2][0] == "int" else (t[1], t[2])
        if k[1] == -64:
            return {("hi", bn(x)): 64}
        if k[1] == 63:
            return plus(lin(x), {("hi", bn(x)): -64})
        if k[1] == (1 << 58) - 1:
            return lin(x)
    if t[0] == "lshr" and t[2] == I(6):
        return {("hi", bn(t[1])): 1}
    if t[0] == "udiv" and t[2] == I(64):
        return {("hi", bn(t[1])): 1}
    if t[0] == "urem" and t[2] == I(64):
        return plus(lin(t[1]), {("hi", bn(t[1])): -64})
    if t[0] in ("umin", "smin") and len(t) == 3:
        return {("min",) + tuple(sorted((bn(t[1]), bn(t[2])), key=repr)): 1}
    if t[0] == "lin":
        r = {}
        for k, v in t[1]:
            r = plus(r, {1: v} if k == 1 else lin(k), 1 if k == 1 else v)
        return r
    if t[0] == "int":
        return {1: t[1]} if t[1] else {}
    return {t: 1}


def plus(a, b, k=1):
    r = dict(a)
    for q, v in b.items():
        r[q] = r.get(q, 0) + k * v
        if not r[q]:
            del r[q]
    return r


def low(t):
    t = nrm(t)
    return t[0] in ("cttz",) or t[0] == "and" and I(63) in t[1:] or t[0] == "lin" and set(k if k == 1 else k[0] for k, v in t[1]) == {"ctlz", 1} or t[0] == "xor" and any(x[0] == "ctlz" for x in t[1:])


def mult(a):
    return all(v % 64 == 0 for v in a.values())


def sub(a, b):
    return mk(plus(lin(a), lin(b), -1))


def eqv(a, b):
    return bn(a) == bn(b)


def word(t):
    """(whose bitmap, word index) of a word's address"""
    t = nrm(t)
    if t[0] == "gep" and t[2] % 8 == 0 and all(v % 8 == 0 for k, v in t[3]):
        base, k = t[1], {q: v // 8 for q, v in t[3]}
        k[1] = t[2] // 8
    else:
        base, k = t, {}
    if base[0] == "fld" and base[2] == "bits_":
        x = {}
        for q, v in k.items():
            x = plus(x, {1: v} if q == 1 else lin(q), 1 if q == 1 else v)
        return base[3], mk(x)
    return None


def mask(t):
    """(lowest bit, number) of a mask of consecutive bits"""
    t = nrm(t)
    if t[0] == "int":
        v = t[1] & (1 << 64) - 1
        if v:
            lo = (v & -v).bit_length() - 1
            n = (v >> lo).bit_length()
            if v >> lo == (1 << n) - 1:
                return I(lo), I(n)
        return None
    if t[0] == "shl":
        o = t[2]
        if t[1] == I(-1):
            return bn(o), sub(I(64), o)
        m = mask(t[1])
        if m and m[0] == I(0):
            return bn(o), m[1]
        return None
    if t[0] == "lshr" and t[1] == I(-1):
        return I(0), sub(I(64), t[2])
    if t[0] == "lin" and len(t[1]) == 2 and dict(t[1]).get(1) == -1:
        k = next(q for q, v in t[1] if q != 1)
        if dict(t[1])[k] == 1 and k[0] == "shl" and k[1] == I(2):
            return I(0), bn(add(k[2], I(1)))
        if dict(t[1])[k] == 1 and k[0] == "shl" and k[1] == I(1):
            return I(0), bn(k[2])
        if dict(t[1])[k] == 2 and k[0] == "shl" and k[1] == I(1):
            return I(0), bn(add(k[2], I(1)))
    if t[0] == "xor" and I(-1) in t[1:]:
        # everything but the bits from o on
        m = mask(t[1] if t[2] == I(-1) else t[2])
        if m and eqv(add(m[0], m[1]), I(64)):
            return I(0), m[0]
        if m and m[0] == I(0):
            return m[1], sub(I(64), m[1])
    return None


def setting(a, v):
    """(True or False, mask) when a store sets or clears a mask in its word"""
    w = ld(nrm(a))
    v = nrm(v)
    if v[0] in ("or", "and") and len(v) == 3 and w in v[1:]:
        o = v[1] if v[2] == w else v[2]
        if v[0] == "or":
            return True, o
        if o[0] == "xor" and I(-1) in o[1:]:
            return False, (o[1] if o[2] == I(-1) else o[2])
        return False, ("xor", I(-1), o)
    return None


def single(c, f, s):
    n = op(f)
    if s.end[0] != "ret":
        c.ob("bit", False, n, f, "the operation loops")
        return
    out, val = memory(s)
    i = ("arg", 1)
    want = nrm(("shl", I(1), ("and", i, I(63))))
    for x in f.ins.values():
        if x.op == "shl" and x.d.get("t") != "i64" and f.term(x.ops[1])[0] != "int":
            c.ob("bit", False, n + "-narrow", x, "the bit is shifted in a type narrower than its word")
    r = nrm(s.end[1]) if s.end[1] else None
    if n == "GetBit":
        c.ob("bit", not out, n, f, "reading a bit writes")
    else:
        ok = len(out) == 1
        if ok:
            a, v, _ = out[0]
            w, st = word(a), setting(a, v)
            ok = w is not None and w[0] == ("arg", 0) and w[1] == mk(lin(("lshr", i, I(6)))) and st is not None and st[0] == (n == "SetBit") and mask(st[1]) == (bn(("and", i, I(63))), I(1))
        else:
            # nothing to do when the bit is already so
            ok = not out and reads_bit(s, r, i) is not None and any(bit_fact(x, i) == (n == "SetBit") for x in s.F)
        c.ob("bit", ok, n, f, "the operation does not change its one bit")
    if r is not None:
        c.ob("bit", reads_bit(s, r, i), n + "-old", f, "the value reported is not that of the bit before: %s" % show(r))


def bit_fact(x, i):
    """what a comparison says of the bit"""
    if x[0] == "cmp" and x[1] in ("eq", "ne") and x[3] == I(0) and is_bit(x[2], i):
        return x[1] == "ne"
    return None


def is_bit(t, i):
    t = nrm(t)
    if t[0] != "and" or len(t) != 3:
        return False
    for w, m in ((t[1], t[2]), (t[2], t[1])):
        if w[0] == "load" and word(w[1]) == (("arg", 0), mk(lin(("lshr", i, I(6))))) and mask(m) == (bn(("and", i, I(63))), I(1)):
            return True
        if m == I(1) and w[0] == "lshr" and w[1][0] == "load" and word(w[1][1]) == (("arg", 0), mk(lin(("lshr", i, I(6))))) and eqv(w[2], ("and", i, I(63))):
            return True
    return False


def reads_bit(s, r, i):
    v = bit_fact(r, i)
    if v is True:
        return True
    if r[0] == "int":
        return any(bit_fact(x, i) == (r != I(0)) for x in s.F)
    return is_bit(r, i) and r[0] == "and" and I(1) in r[1:]


# -- ranges -------------------------------------------------------------------
def bounded(F, t, k, up):
    """the path knows t <= k (up) or t >= k"""
    for x in F:
        if x[0] != "cmp":
            continue
        for a, b, p in ((x[2], x[3], x[1]), (x[3], x[2], f_flip(x[1]))):
            if b[0] == "int" and eqv(a, t):
                v = b[1]
                if up and (p in ("ult", "slt") and v <= k + 1 or p in ("ule", "sle", "eq") and v <= k):
                    return True
                if not up and (p in ("ugt", "sgt") and v >= k - 1 or p in ("uge", "sge", "eq") and v >= k):
                    return True
            # a fact about a shifted form of the same
            if b[0] == "int":
                d = plus(lin(a), lin(t), -1)
                if d and set(d) == {1}:
                    v = b[1] - d[1]
                    if up and (p in ("ult", "slt") and v <= k + 1 or p in ("ule", "sle", "eq") and v <= k):
                        return True
                    if not up and (p in ("ugt", "sgt") and v >= k - 1 or p in ("uge", "sge", "eq") and v >= k):
                        return True
    return False


def f_flip(p):
    return {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)


def at_most(F, a, b):
    """the path knows a <= b"""
    if eqv(a, b):
        return True
    for x in F:
        if x[0] == "cmp":
            for p, q, r in ((x[2], x[3], x[1]), (x[3], x[2], f_flip(x[1]))):
                if r in ("ult", "ule", "eq") and sub(p, q) == sub(a, b):
                    return True
                if r in ("ult",) and sub(p, q) == sub(a, add(b, I(1))):
                    return True
    d = sub(a, b)
    return d[0] == "int" and d[1] <= 0


def empty(F, t):
    return eqv(t, I(0)) or any(x[0] == "cmp" and (x[1] == "eq" and sub(x[2], x[3]) in (bn(t), sub(I(0), t)) or x[1] == "ult" and x[3] == I(1) and eqv(x[2], t) or x[1] == "ule" and x[3] == I(0) and eqv(x[2], t)) for x in F)


def minform(t):
    """t = base + min(x, y): (base, x, y)"""
    a = lin(t)
    q = [k for k in a if isinstance(k, tuple) and k[0] == "min" and a[k] == 1]
    if len(q) == 1:
        b = dict(a)
        del b[q[0]]
        return mk(b), q[0][1], q[0][2]
    return None


def whole_rest(F, lo, n, rest):
    """n bits from lo in a word are as many of the rest as fit: n = min(rest, 64 - lo)"""
    room = sub(I(64), lo)
    if eqv(n, rest):
        return at_most(F, rest, room) or at_most(F, add(lo, rest), I(64)) or bounded(F, add(lo, rest), 64, True)
    if eqv(n, room):
        return at_most(F, room, rest) or bounded(F, add(lo, rest), 64, False)
    m = minform(n)
    if m:
        x, y = add(m[0], m[1]), add(m[0], m[2])
        return eqv(x, rest) and eqv(y, room) or eqv(x, room) and eqv(y, rest)
    return False


def wide(t, F):
    """a mask (1 << n) - 1 whose n may be a whole word"""
    for x in subterms(nrm(t)):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "shl" and x[1] in (I(1), I(-1)):
            k = x[2]
            if not (k[0] == "and" and I(63) in k[1:]) and not bounded(F, k, 63, True):
                return True
    return False


def pieces(c, f, s, n, tot):
    """the (bitmap word, lowest, number) changed or counted on a path, in order"""
    out, val = memory(s)
    got = []
    if n == "CountBits":
        t = tot
        return t
    for a, v, i in out:
        w, st = word(a), setting(a, v)
        if w is None:
            return None
        if st is None:
            v = nrm(v)
            if v == I(-1) and n == "SetRange" or v == I(0) and n == "ClearRange":
                got.append((w[1], I(0), I(64)))
                continue
            return None
        m = mask(st[1])
        if m is None or st[0] != (n == "SetRange") or w[0] != ("arg", 0) or wide(st[1], s.F):
            return None
        got.append((w[1],) + m)
    return got


def counts(t, F):
    """the words counted in a sum of bit counts, and the rest of the sum"""
    got, rest = [], {}
    for k, v in alin(nrm(t)).items():
        if k != 1 and k[0] == "ctpop" and v == 1:
            x = k[1]
            w = m = None
            if x[0] == "load":
                w, m = word(x[1]), (I(0), I(64))
            elif x[0] == "and" and len(x) == 3:
                for p, q in ((x[1], x[2]), (x[2], x[1])):
                    if p[0] == "load" and word(p[1]):
                        w, m = word(p[1]), mask(q)
            if not w or not m or w[0] != ("arg", 0) or x[0] == "and" and wide(x, F):
                return None, None
            got.append((w[1],) + m)
        else:
            rest[k] = v
    return got, mk(rest)


def ranges(c, f):
    n = op(f)
    cnt = n == "CountBits"
    if cnt and f.name.count("unsigned long") < 2:
        start, total = I(0), I(size(f))
    else:
        start, total = ("arg", 1), ("arg", 2)
    if len(f.loops) != 1:
        c.ob("range", False, n, f, "not one loop over the words")
        return
    L = f.loops[0]
    h = L["header"]
    ph = [i.id for i in f.blocks[h] if i.op == "phi"]
    its = [s for s in segs(f, first(f, h)) if s.end[0] == "turn" and s.end[1] == h]
    ent = segs(f, stop=(h,))
    outs = [s for s in segs(f, first(f, h)) if s.end[0] == "ret"]
    c.ob("range", bool(its) and bool(ent) and bool(outs), n, f, "no way through the loop")
    # the loop's roles: the word, the rest and, for a count, the sum
    W = Rr = S = None
    off = None
    good = True
    for s in its:
        e = {p: nrm(t) for p, t in s.end[2].items()}
        sums = [p for p in ph if cnt and alin(e[p]).get(("phi", p)) == 1 and any(q != 1 and q[0] == "ctpop" for q in alin(e[p]))]
        S = sums[0] if sums else None
        got = counts(sub_raw(e[S], ("phi", S)), s.F)[0] if S is not None else pieces(c, f, s, n, None) if not cnt else None
        if not got or len(got) != 1:
            good = False
            break
        w, lo, num = got[0]
        Wc = [p for p in ph if eqv(e[p], add(("phi", p), I(1))) and set(lin(sub(w, ("phi", p)))) <= {1}]
        if len(Wc) != 1:
            good = False
            break
        W = Wc[0]
        off = sub(w, ("phi", W))
        Rc = [p for p in ph if p not in (W, S) and eqv(e[p], sub(("phi", p), num))]
        if len(Rc) == 1:
            Rr = Rc[0]
            good = good and lo == I(0) and whole_rest(s.F, lo, num, ("phi", Rr))
            good = good and (notempty(s.F, ("phi", Rr)))
        else:
            good = False
    c.ob("range", good and W is not None and Rr is not None, n + "-step", f, "a step of the loop does not cover a whole word or what is left")
    if not good or W is None or Rr is None:
        return
    for s in outs:
        if first(f, h).b in s.blocks:
            c.ob("range", empty(s.F, ("phi", Rr)), n + "-end", f, "the loop ends with bits left")
            if cnt:
                c.ob("range", nrm(s.end[1]) == ("phi", S), n + "-sum", f, "the sum is not what is returned")
    for s in ent:
        if s.end[0] == "ret":
            c.ob("range", empty(s.F, total), n + "-none", f, "nothing is covered although bits are asked for")
            if cnt:
                c.ob("range", nrm(s.end[1]) == I(0), n + "-none", f, "no bits do not count as none")
            continue
        if s.end[0] != "stop":
            continue
        new = s.end[2]
        if cnt:
            got, rest = counts(new[S], s.F)
            ok = got is not None and rest == I(0)
        else:
            got = pieces(c, f, s, n, None)
            ok = got is not None
        p, r = bn(start), bn(total)
        for w, lo, num in got or ():
            ok = ok and eqv(add(mk({k: v * 64 for k, v in lin(w).items()}), lo), p) and whole_rest(s.F, lo, num, r)
            p, r = bn(add(p, num)), sub(r, num)
        c.ob("range", ok, n + "-first", f, "the first word's part does not start at the first bit and reach the end of the word or the range")
        c.ob("range", eqv(new[Rr], r), n + "-rest", f, "what is left after the first word is wrong")
        nextw = mk({k: v * 64 for k, v in lin(add(new[W], off)).items()})
        # either nothing is left or the next word starts where the first part ended
        fine = empty(s.F, r) or eqv(nextw, p) or minform(p) is not None and any(eqv(nextw, add(minform(p)[0], y)) for y in minform(p)[1:])
        c.ob("range", fine, n + "-next", f, "the second part does not start at the next word")


def sub_raw(a, b):
    return mk(ladd(alin(nrm(a)), alin(nrm(b)), -1))


def notempty(F, t):
    return any(x[0] == "cmp" and (x[1] == "ne" and x[3] == I(0) and eqv(x[2], t) or x[1] in ("ugt", "sgt") and x[3] == I(0) and eqv(x[2], t) or x[1] in ("ult", "slt") and x[2] == I(0) and eqv(x[3], t)) for x in F) or bounded(F, t, 1, False)


# -- searches -----------------------------------------------------------------
def view(t, goal):
    """(word index, mask) of a word's bits that have the value sought"""
    t = nrm(t)
    parts = list(t[1:]) if t[0] == "and" and len(t) == 3 else [t]
    w = None
    m = (I(0), I(64))
    for p in parts:
        q, neg = p, False
        if q[0] == "xor" and I(-1) in q[1:] and mask(q) is None or q[0] == "xor" and I(-1) in q[1:] and any(z[0] == "load" for z in q[1:]):
            q, neg = (q[1] if q[2] == I(-1) else q[2]), True
        if q[0] == "load" and word(q[1]) and word(q[1])[0] == ("arg", 0):
            if neg == goal:
                return None
            w = word(q[1])[1]
        else:
            m = mask(p)
    return (w, m) if w is not None and m is not None else None


def search(c, f):
    n = op(f)
    goal, back = "Set" in n, "Backwards" in n
    N = size(f)
    W = (N + 63) // 64
    i = ("arg", 1)
    fmask = (bn(("and", i, I(63))), sub(I(64), ("and", i, I(63))))
    if back:
        fmask = (I(0), bn(add(("and", i, I(63)), I(1))))
    none = I(-1) if back else I(N)
    if len(f.loops) > 1:
        c.ob("find", False, n, f, "more than one loop over the words")
        return
    if not f.loops:
        c.ob("find", W == 1, n, f, "only one word is searched")
        for s in segs(f):
            hit(c, f, s, n, None, None, goal, back, none, fmask, W)
        return
    h = f.loops[0]["header"]
    ph = [p.id for p in f.blocks[h] if p.op == "phi"]
    step = -1 if back else 1
    for s in segs(f, stop=(h,)):
        if s.end[0] == "ret":
            hit(c, f, s, n, None, None, goal, back, none, fmask, W)
            continue
        new = {p: nrm(t) for p, t in s.end[2].items()}
        ok = False
        for wp in ph:
            for hp in ph:
                v = view(new[hp], goal) if hp in new else None
                if wp != hp and v and v[1] == fmask and eqv(v[0], ("lshr", i, I(6))) and eqv(new[wp], v[0]):
                    ok = True
                    H = (wp, hp)
        c.ob("find", ok, n + "-start", f, "the search does not start with the bits of the first word from the start on")
        if not ok:
            return
    wp, hp = H
    for s in segs(f, first(f, h)):
        if s.end[0] == "turn":
            e = {p: nrm(t) for p, t in s.end[2].items()}
            v = view(e[hp], goal)
            c.ob("find", v is not None and v[1] == (I(0), I(64)) and eqv(v[0], add(("phi", wp), I(step))) and eqv(e[wp], v[0]), n + "-next", f, "the search does not go on with the whole next word")
            c.ob("find", empty(s.F, ("phi", hp)), n + "-next", f, "a word with a bit sought is passed over")
        elif s.end[0] == "ret":
            hit(c, f, s, n, ("phi", wp), ("phi", hp), goal, back, none, fmask, W)


def hit(c, f, s, n, wp, hp, goal, back, none, fmask, W):
    r = s.end[1]
    i = ("arg", 1)
    if wp is None:
        # a single word: the bits looked at are those of the result's facts
        wv, hv = ("lshr", i, I(6)), None
    else:
        wv, hv = wp, hp
    N = none[1]
    rn = nrm(r)
    clamp = False
    if rn[0] == "umin" and none in rn[1:] and not back:
        rn = rn[1] if rn[2] == none else rn[2]
        clamp = True
    if rn == none:
        last = False
        for x in s.F:
            if x[0] != "cmp":
                continue
            if not back:
                last = last or x[1] in ("uge", "ugt", "ult", "ule", "eq", "sge", "sle") and end_word(x, wv, W)
            else:
                last = last or x[1] in ("slt", "sle", "sgt", "eq", "ult", "ule", "ugt") and start_word(x, wv)
        if wp is None:
            ok = any(x[0] == "cmp" and x[1] == "eq" and x[3] == I(0) and view(x[2], goal) and view(x[2], goal)[1] == fmask for x in s.F) or over(s, N)
            c.ob("find", ok, n + "-none", f, "nothing is found although a bit may be there")
        else:
            c.ob("find", (last and empty(s.F, hv)) or over(s, N), n + "-none", f, "nothing is found before the last word was searched")
        return
    p = position(rn, wv, hv, goal, back, fmask)
    c.ob("find", p, n, f, "the result is not the nearest bit in the word: %s" % show(r))


def over(s, N):
    """the position found lies beyond the end, which is said instead"""
    return any(x[0] == "cmp" and x[1] in ("ugt", "uge", "ult", "ule") and any(y[0] == "int" and y[1] in (N, N + 1, N - 1) for y in x[2:]) and any("cttz" in repr(y) for y in x[2:]) for x in s.F)


def end_word(x, w, W):
    """the comparison says the word is the last one"""
    for a, b, p in ((x[2], x[3], x[1]), (x[3], x[2], f_flip(x[1]))):
        d = plus(lin(a), lin(w), -1)
        if b[0] == "int" and set(d) <= {1}:
            k = b[1] - d.get(1, 0)
            # w >= k
            if p in ("uge", "sge", "eq") and k >= W - 1 or p in ("ugt", "sgt") and k >= W - 2:
                return True
    return False


def start_word(x, w):
    for a, b, p in ((x[2], x[3], x[1]), (x[3], x[2], f_flip(x[1]))):
        d = plus(lin(a), lin(w), -1)
        if b[0] == "int" and set(d) <= {1}:
            k = b[1] - d.get(1, 0)
            if p in ("slt",) and k <= 1 or p in ("sle", "eq", "ule") and k <= 0 or p == "ult" and k <= 1:
                return True
    return False


def position(r, w, h, goal, back, fmask):
    a = lin(r)
    b = plus(a, {k: v * 64 for k, v in lin(w).items()}, -1)
    k = [q for q in b if q != 1]
    if len(k) != 1:
        return False
    q = k[0]
    inner = q[1] if q[0] in ("cttz", "ctlz") else None
    if inner is None:
        return False
    if h is not None:
        src = nrm(inner) == h
    else:
        v = view(inner, goal)
        src = v is not None and v[1] == fmask and eqv(v[0], w)
    if back:
        return src and q[0] == "ctlz" and b[q] == -1 and b.get(1, 0) == 63
    return src and q[0] == "cttz" and b[q] == 1 and b.get(1, 0) == 0


def free(c, f):
    N = size(f)
    for s in segs(f):
        if s.end[0] != "ret":
            c.ob("find", False, "NextFreeRange", f, "loops")
            continue
        out, val = memory(s)
        m = final(out)
        r = s.end[1]
        if r[0] == "cmp":
            r = I(1) if r in s.F else I(0) if f.neg(r) in s.F else r
        fc = s.calls(r"::FindClear$")
        fsx = s.calls(r"::FindSet$")
        i = nrm(f.term(("v", fc[0].id))) if fc else None
        okc = len(fc) == 1 and nrm(s.args(fc[0])[1]) == ("arg", 1) and nrm(s.args(fc[0])[0]) == ("arg", 0)
        if r == I(0):
            beyond = bounded(s.F, ("arg", 1), N, False)
            c.ob("find", beyond and not m or okc and any(x[0] == "cmp" and (x[1] == "eq" and {nrm(x[2]), nrm(x[3])} == {i, I(N)} or x[1] in ("uge",) and nrm(x[2]) == i and x[3] == I(N) or x[1] == "ule" and x[2] == I(N) and nrm(x[3]) == i) for x in s.F), "free-none", f, "a free range may be there and is not reported")
            continue
        some = okc and any(x[0] == "cmp" and (x[1] == "ne" and {nrm(x[2]), nrm(x[3])} == {i, I(N)} or x[1] == "ult" and nrm(x[2]) == i and x[3] == I(N) or x[1] == "ugt" and x[2] == I(N) and nrm(x[3]) == i) for x in s.F)
        c.ob("find", r in (I(1), I(-1)) and some and bounded(s.F, ("arg", 1), N - 1, True), "free", f, "a range is reported without having found a clear bit")
        j = nrm(f.term(("v", fsx[0].id))) if fsx else None
        c.ob("find", len(fsx) == 1 and nrm(s.args(fsx[0])[1]) == i and m == {("arg", 2): i, ("arg", 3): sub_raw(j, i)}, "free", f, "the range reported is not from the first clear bit to the next set one")


def whole(c, f):
    n = op(f) if "operator" not in f.name else "operator" + re.search(r"operator(.)", f.name).group(1)
    N = size(f)
    W = (N + 63) // 64
    o = ("arg", 1)
    p = ("arg", 2)
    for s in segs(f):
        if s.end[0] == "ret" and not f.loops:
            if n == "Clear":
                ms = s.calls(r"^llvm\.memset")
                ok = len(ms) == 1 and nrm(s.args(ms[0])[1]) == I(0) and nrm(s.args(ms[0])[2]) == I(8 * W) and nrm(s.args(ms[0])[0]) == nrm(("fld", "Bitmap", "bits_", ("arg", 0)))
                z = {word(a)[1] for a, v, i in memory(s)[0] if word(a) and nrm(v) == I(0)}
                c.ob("whole", ok or z == {I(k) for k in range(W)}, n, f, "not every word is cleared")
                return
            if W > 1:
                c.ob("whole", False, n, f, "not every word is taken in")
                return
    if len(f.loops) != 1:
        if f.loops:
            c.ob("whole", False, n, f, "not one loop over the words")
        return
    h = f.loops[0]["header"]
    ph = [q.id for q in f.blocks[h] if q.op == "phi"]
    k = next((q for q in ph if all(eqv(s.end[2].get(q, I(0)), add(("phi", q), I(1))) for s in segs(f, first(f, h)) if s.end[0] == "turn")), None)
    c.ob("whole", k is not None and inits(f, k) == {I(0)}, n, f, "the words are not counted from the first")
    if k is None:
        return
    for s in segs(f, first(f, h)):
        if s.end[0] == "turn":
            out = memory(s)[0]
            if n == "IsZero":
                c.ob("whole", any(x[0] == "cmp" and x[1] == "eq" and x[3] == I(0) and x[2][0] == "load" and word(x[2][1]) == (("arg", 0), ("phi", k)) for x in s.F), n, f, "a word with a bit set is passed over")
                continue
            ok = len(out) == 1 and word(out[0][0]) and word(out[0][0])[1] == ("phi", k)
            if ok:
                v = nrm(out[0][1])
                if n == "Clear":
                    ok = v == I(0)
                else:
                    l = lambda b: ld(nrm(("gep", ("fld", "Bitmap", "bits_", b), 0, ((("phi", k), 8),))))
                    want = {"operator~": ("xor", {I(-1), l(o)}), "operator&": ("and", {l(o), l(p)}), "operator|": ("or", {l(o), l(p)}), "operator^": ("xor", {l(o), l(p)})}[n]
                    ok = v[0] == want[0] and set(v[1:]) == want[1]
            c.ob("whole", ok, n, f, "a word is not what the operation makes of the operands'")
        elif s.end[0] == "ret":
            full = any(x[0] == "cmp" and x[1] in ("uge", "sge", "eq", "ult", "ugt", "ule", "sle") and end_word(x, ("phi", k), W + 1) for x in s.F)
            if n == "IsZero":
                r = s.end[1]
                if r[0] == "cmp":
                    r = I(1) if r in s.F else I(0) if f.neg(r) in s.F else r
                if r == I(0):
                    c.ob("whole", any(x[0] == "cmp" and x[1] == "ne" and x[3] == I(0) and x[2][0] == "load" and word(x[2][1]) == (("arg", 0), ("phi", k)) for x in s.F), n, f, "no bit was found set")
                else:
                    c.ob("whole", full and r in (I(1), I(-1)), n, f, "not every word was looked at")
            else:
                c.ob("whole", full, n, f, "not every word is taken in")


# -- range trackers -----------------------------------------------------------
def fld(n):
    return ("fld", "RangeTracker", n, ("arg", 0))


def tallies(c, f, s, call, n, k, start, num):
    """on a path to the return: one range call, used and allocations moved"""
    m = final(memory(s)[0])
    cs = s.calls(r"::(SetRange|ClearRange)$")
    ok = len(cs) == 1 and cs[0].cshort.endswith("::" + call) and nrm(s.args(cs[0])[0]) == nrm(fld("bits_"))
    c.ob("track", ok and nrm(s.args(cs[0])[1]) == start and nrm(s.args(cs[0])[2]) == num, n, f, "the bits of the range are not the ones changed")
    u = m.get(nrm(fld("nused_")))
    c.ob("track", u is not None and same(u, mk({ld(nrm(fld("nused_"))): 1, num: k})), n + "-used", f, "the used count does not change by the range's length")
    a = m.get(nrm(fld("nallocs_")))
    c.ob("track", a is not None and same(a, mk({ld(nrm(fld("nallocs_"))): 1, 1: k})), n + "-allocs", f, "the allocation count does not change by one")
    return m


def scan(c, f, n):
    """the loop over the free ranges: (header, index slot, length slot, paths once round, paths out)"""
    nf = [i for i in f.live("call") if re.search(r"::NextFreeRange$", i.cshort)]
    L = [x for x in f.loops if nf and nf[0].b in x["blocks"]]
    if len(nf) != 1 or len(L) != 1:
        c.ob("longest", False, n, f, "not one loop over the free ranges")
        return None
    L = L[0]
    h = L["header"]
    a = [nrm(f.term(o)) for o in nf[0].ops]
    its = [s for s in segs(f, first(f, h)) if s.end[0] == "turn" and s.end[1] == h]
    outs = [s for s in segs(f, first(f, h)) if s.end[0] == "ret"]
    ph = [p.id for p in f.blocks[h] if p.op == "phi"]
    x = nrm(("call", nf[0].cshort, tuple(f.term(o) for o in nf[0].ops), nf[0].id))
    ok = a[0] == nrm(fld("bits_")) and a[2][0] == "alloca" and a[3][0] == "alloca" and bool(its) and bool(outs)
    pi = next((p for p in ph if a[1] == ("phi", p)), None)
    c.ob("longest", ok and pi is not None and inits(f, pi) == {I(0)} and all(known(s, x) is True and same(s.end[2][pi], add(ld(a[2]), ld(a[3]))) for s in its), n + "-scan", f, "the free ranges are not gone through one after another from the first")
    c.ob("longest", all(known(s, x) is False for s in outs), n + "-all", f, "the scan ends before the last free range")
    if not ok or pi is None:
        return None
    return h, ld(a[2]), ld(a[3]), its, outs, ph, nf[0]


def le(F, a, b):
    """the path knows a <= b"""
    return a == b or any(x[0] == "cmp" and (x[1] in ("ult", "ule", "eq") and (nrm(x[2]), nrm(x[3])) == (a, b) or x[1] in ("ugt", "uge", "eq") and (nrm(x[3]), nrm(x[2])) == (a, b)) for x in F)


def best_of(F, v, a, b):
    """v is the larger of the two"""
    v = nrm(v)
    return v == a and le(F, b, a) or v == b and le(F, a, b) or v[0] == "umax" and set(v[1:]) == {a, b}


def mark(c, f):
    sc = scan(c, f, "Mark")
    # the bits are changed before the scan
    for s in segs(f, stop=[sc[0]] if sc else []):
        if s.end[0] == "stop":
            cs = s.calls(r"::SetRange$")
            c.ob("longest", len(cs) == 1, "Mark-before", f, "the free ranges are looked at before the range is marked")
    if not sc:
        return
    h, ix, ln, its, outs, ph, nf = sc
    pre = [s for s in segs(f, stop=[h]) if s.end[0] == "stop"]
    for e in pre:
        for s in outs:
            j = joined(e, s)
            m = tallies(c, f, j, "SetRange", "Mark", 1, ("arg", 1), ("arg", 2))
            v = m.get(nrm(fld("longest_free_")))
            lp = next((p for p in ph if v == ("phi", p)), None)
            c.ob("longest", lp is not None and inits(f, lp) == {I(0)} and all(best_of(t.F, t.end[2][lp], ("phi", lp), ln) for t in its), "Mark", f, "the longest free run is not the longest of all free ranges")


class Joined:
    def __init__(s, a, b):
        s.f, s.ins, s.F, s.env, s.end, s.blocks = a.f, a.ins + b.ins, a.F | b.F, {**a.env, **b.env}, b.end, a.blocks + b.blocks
    t = lambda s, o: a_t(s, o)
    term = lambda s, t: a_term(s, t)

    def calls(s, rx):
        return [i for i in s.ins if i.op == "call" and re.search(rx, i.cshort)]

    def args(s, i):
        return [s.t(o) for o in i.ops]


def a_t(s, o):
    return a_term(s, s.f.term(o))


def a_term(s, t):
    from segs import fold
    # the loop's own values stay what they are
    return fold(subst(t, {k: v for k, v in s.env.items() if s.f.ins[k].b not in {L["header"] for L in s.f.loops}}))


def joined(a, b):
    return Joined(a, b)


def unmark(c, f):
    for s in segs(f):
        if s.end[0] != "ret":
            c.ob("longest", False, "Unmark", f, "loops")
            continue
        m = tallies(c, f, s, "ClearRange", "Unmark", -1, ("arg", 1), ("arg", 2))
        fw, bw = s.calls(r"::FindSet$"), s.calls(r"::FindSetBackwards$")
        cl = s.calls(r"::ClearRange$")
        end = mk({("arg", 1): 1, ("arg", 2): 1, 1: -1})
        ok = len(fw) == 1 and len(bw) == 1 and inside(s.args(fw[0])[1], end) and inside(s.args(bw[0])[1], end)
        ok = ok and bool(cl) and all(pos(s, x) > pos(s, cl[0]) for x in fw + bw)
        c.ob("longest", ok, "Unmark-run", f, "the free run around the range is not looked for from inside the range after clearing it")
        if not ok:
            continue
        run = sub(sub(f.term(("v", fw[0].id)), f.term(("v", bw[0].id))), I(1))
        old = ld(nrm(fld("longest_free_")))
        v = m.get(nrm(fld("longest_free_")), old)
        v = nrm(v)
        more = any(x[0] == "cmp" and (x[1] in ("ult", "ule") and eqv(x[2], old) and eqv(x[3], run) or x[1] in ("ugt", "uge") and eqv(x[2], run) and eqv(x[3], old)) for x in s.F)
        less = any(x[0] == "cmp" and (x[1] in ("ule", "ult") and eqv(x[2], run) and eqv(x[3], old) or x[1] in ("uge", "ugt") and eqv(x[2], old) and eqv(x[3], run)) for x in s.F)
        c.ob("longest", eqv(v, run) and more or v == old and less or v[0] == "umax" and {bn(x) for x in v[1:]} == {bn(run), bn(old)}, "Unmark", f, "the longest free run does not become that around the range exactly when it is longer")


def inside(t, end):
    """a position in the range"""
    t = nrm(t)
    return t == ("arg", 1) or t == nrm(end)


def find_mark(c, f):
    n = ("arg", 1)
    N = size(f)
    sc = scan(c, f, "FindAndMark")
    if not sc:
        return
    h, ix, ln, its, outs, ph, nf = sc
    for s in outs:
        cs = s.calls(r"::SetRange$")
        b = nrm(s.args(cs[0])[1]) if cs else None
        m = tallies(c, f, s, "SetRange", "FindAndMark", 1, b, n)
        c.ob("fit", b is not None and nrm(s.end[1]) == b, "result", f, "the range marked is not the one returned")
        bp = next((p for p in ph if b == ("phi", p)), None)
        if bp is None:
            c.ob("fit", False, "choice", f, "the range marked is not chosen among the free ones")
            continue
        # the companion holding the chosen range's length
        lp = None
        for p in ph:
            if p != bp and all((nrm(t.end[2][p]) == ln) == (nrm(t.end[2][bp]) == ix) and nrm(t.end[2][p]) in (ln, ("phi", p)) for t in its) and any(nrm(t.end[2][p]) == ln for t in its):
                lp = p
        c.ob("fit", lp is not None, "choice", f, "the length of the range chosen is not kept with it")
        if lp is None:
            continue
        i0 = inits(f, lp)
        c.ob("fit", len(i0) == 1 and list(i0)[0][0] == "int" and list(i0)[0][1] > N, "choice-init", f, "the first fitting range is not always taken")
        for t in its:
            took = nrm(t.end[2][bp]) == ix
            if took:
                c.ob("fit", le(t.F, n, ln) and le(t.F, ln, ("phi", lp)), "take", f, "a range is chosen that is too short or not a better fit")
            else:
                c.ob("fit", nrm(t.end[2][bp]) == ("phi", bp) and (le(t.F, ln, n) and lt(t.F, ln, n) or le(t.F, ("phi", lp), ln)), "leave", f, "a range that fits better is not chosen")
        # longest and second longest
        v = nrm(m.get(nrm(fld("longest_free_")), ("null",)))
        cand = []
        for a in ph:
            for b2 in ph:
                if a in (bp,) or b2 in (bp,) or a == b2:
                    continue
                if inits(f, a) == {I(0)} and inits(f, b2) == {I(0)} and all(two(t, a, b2, ln) for t in its):
                    cand.append((a, b2))
        c.ob("longest", len(cand) >= 1, "two", f, "the two longest free ranges are not followed")
        if not cand:
            continue
        A, S = ("phi", cand[0][0]), ("phi", cand[0][1])
        bl = ("phi", lp)
        eq = any(x[0] == "cmp" and x[1] == "eq" and {nrm(x[2]), nrm(x[3])} == {A, bl} for x in s.F)
        ne = any(x[0] == "cmp" and (x[1] == "ne" and {nrm(x[2]), nrm(x[3])} == {A, bl} or x[1] in ("ult",) and (nrm(x[2]), nrm(x[3])) == (bl, A)) for x in s.F)
        cut = nrm(add(A, n, -1))
        c.ob("longest", v == A and ne or eq and best_of(s.F, v, cut, S) or v in () or eq and best_of(s.F, v, nrm(add(bl, n, -1)), S), "FindAndMark", f, "the longest free run afterwards is not the longer of the second longest and what is left of the one used")


def lt(F, a, b):
    return any(x[0] == "cmp" and (x[1] == "ult" and (nrm(x[2]), nrm(x[3])) == (a, b) or x[1] == "ugt" and (nrm(x[3]), nrm(x[2])) == (a, b)) for x in F)


def two(t, a, b, ln):
    """a stays the longest and b the second longest"""
    A, S = ("phi", a), ("phi", b)
    na, nb = nrm(t.end[2][a]), nrm(t.end[2][b])
    if na == ln and le(t.F, A, ln):
        return nb == A
    if na == A and le(t.F, ln, A):
        return best_of(t.F, nb, S, ln)
    return False


def access(c, f):
    n = op(f)
    for s in segs(f):
        m = final(memory(s)[0])
        if s.end[0] != "ret":
            continue
        if n in ("used", "allocs", "longest_free"):
            w = {"used": "nused_", "allocs": "nallocs_", "longest_free": "longest_free_"}[n]
            c.ob("track", nrm(s.end[1]) == ld(nrm(fld(w))) and not m, n, f, "another figure is reported")
        elif n == "Clear":
            N = size(f)
            c.ob("track", m.get(nrm(fld("nused_"))) == I(0) and m.get(nrm(fld("nallocs_"))) == I(0) and nrm(m.get(nrm(fld("longest_free_")), I(0))) == I(N) and len(s.calls(r"::Clear$")) == 1, n, f, "clearing leaves bits or counts behind")
        elif n == "NextFreeRange":
            cs = s.calls(r"::NextFreeRange$")
            c.ob("track", len(cs) == 1 and [nrm(x) for x in s.args(cs[0])] == [nrm(fld("bits_")), ("arg", 1), ("arg", 2), ("arg", 3)] and not m, n, f, "not the bitmap's free range")
