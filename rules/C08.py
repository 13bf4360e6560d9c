"""A span hands out each of its objects once and takes every returned one back."""
from tcm import *
from lib import _

AN = ["^absl::base", "Bitmap<", "AllocatedBytes", "StatsCounter"]
NAMES = "freelist_|embed_count_|cache_size_|allocated_|first_page_|is_large_span_|sampled_|small_num_pages_|alloc_time_|donated|nonempty_index_|cache|num_pages|sampled_allocation"


def run(c):
    c.rule("pages", "a span's page count reads back as set, in every representation, and sampling preserves it")
    c.rule("count", "the number of objects in use changes by exactly the objects handed out or taken back")
    c.rule("index", "object addresses and indices are converted by inverse maps")
    c.rule("build", "a new span's objects are laid out side by side, each in exactly one place")
    c.rule("push", "each returned object is put in exactly one free place, and a span that becomes entirely free is given up")
    c.rule("pop", "each object handed out is taken off the place it was kept in, and no further")
    c.rule("valid", "a size class is accepted only if its spans fit their bookkeeping")
    fs = {}
    for f in c.fns(r"tcmalloc_internal::Span::(set_num_pages|num_pages|last_page|bytes_in_span|FreelistEmpty|FreelistPushBatch<.*>|FreelistPopBatch|BuildFreelist|Sample|UnsampleSlow|IsValidSizeClass|IdxToPtr|PtrToIdx|BitmapPtrToIdx|CalcReciprocal|UseBitmapForSize|start_address|first_page)\(", AN, floor=14):
        fs.setdefault(re.sub(r"<.*", "", short(f.name).split("Span::")[1].split("(")[0]), []).append(f)
    one = lambda n: c.need(fs.get(n), "no Span::" + n)[0]
    pages(c, one)
    counts(c, one, fs)
    index(c, one)
    L = limits(c, one)
    build(c, one("BuildFreelist"), L)
    for f in fs["FreelistPushBatch"]:
        push(c, f, L)
    pop(c, one("FreelistPopBatch"), L)
    bitmap(c)
    valid(c, one, L)


# -- pages -------------------------------------------------------------------
def pagesval(t):
    """'large' or 'small' representation of the page count in bytes or pages"""
    b = [x for x in subterms(t) if x[0] == "load"]
    if len(b) != 1:
        return None
    x = field(b[0][1])
    if not x:
        return None
    if x[1] == "num_pages":
        return "large", b[0]
    return "small", b[0]


def flagbits(c, f):
    """the facts under which the large representation is used: bits known set"""
    return f


def knows(S):
    """{mask: bool} for single bits of the packed word tested in the facts"""
    out = {}
    for y in S:
        if y[0] == "cmp" and y[1] in ("eq", "ne") and y[3] == I(0) and y[2][0] == "and":
            m = next((z[1] for z in y[2][1:] if z[0] == "int"), None)
            o = next((z for z in y[2][1:] if z[0] != "int"), None)
            if m and o and o[0] == "load":
                out[m & (1 << 64) - 1] = y[1] == "ne"
    return out


def bitslice(t):
    """(load, low, width) of a field read out of a packed word"""
    sc = 0
    w = 64
    lo = 0
    while True:
        if t[0] == "and" and any(z[0] == "int" for z in t[1:]):
            m = next(z[1] for z in t[1:] if z[0] == "int") & (1 << 64) - 1
            k = (m & -m).bit_length() - 1
            n = (m >> k).bit_length()
            if (m >> k) != (1 << n) - 1:
                return None
            w, lo = min(w, n), lo + k
            t = next(z for z in t[1:] if z[0] != "int")
            # bits k.. of the shifted value
        elif t[0] == "lshr" and t[2][0] == "int":
            lo += t[2][1]
            t = t[1]
        elif t[0] in ("zext", "trunc"):
            t = t[-1]
        elif t[0] == "load":
            return t, lo, w
        else:
            return None


def pages(c, one):
    f = one("set_num_pages")
    P, E = effects(f)
    small = large = None
    flags = {}
    cap = None
    for t, S, e in E:
        kinds = {}
        for a, w in e.items():
            x = field(a)
            kinds[x[1] if x else "?"] = (a, w)
        if "num_pages" in kinds:
            c.ob("pages", kinds["num_pages"][1].val == ("arg", 1), "set-large", f, "stores another number of pages")
            large = True
        else:
            ok = False
            for a, w in e.items():
                v = w.val
                if v[0] == "or":
                    put = [k for y in v[1:] for k, m in alin(y).items() if k == ("arg", 1)]
                    m = [m for y in v[1:] for k, m in alin(y).items() if k == ("arg", 1)]
                    keep = [z[1] for y in v[1:] if y[0] == "and" for z in y[1:] if z[0] == "int"]
                    if len(put) == 1 and m and m[0] & (m[0] - 1) == 0 and keep:
                        lo = m[0].bit_length() - 1
                        cleared = ~keep[0] & (1 << 64) - 1
                        small = (lo, cleared)
                        ok = True
            c.ob("pages", ok, "set-small", f, "the page count is not stored on some path")
            # it fits the narrow field
            if ok:
                lo, cl = small
                n = 0
                while cl >> (lo + n) & 1:
                    n += 1
                c.ob("pages", entails(S, cmp("ult", ("arg", 1), 1 << n)) or entails(S, cmp("ule", ("arg", 1), (1 << n) - 1)), "set-fits", f, "a page count is truncated to %d bits" % n)
                small = (lo, n)
                # and neither flag says it is large
                ks = knows(S)
                c.ob("pages", not any(ks.values()) and all(cl >> (m.bit_length() - 1) & 1 or ks.get(m) is False for m in LARGE(one)), "set-flag", f, "the large form stays selected for a small count")
        if "num_pages" in kinds:
            ks = knows(S)
            w = [w for a, w in e.items() if field(a) and field(a)[1] != "num_pages"]
            samp = any(ks.values())
            sel = False
            for x in w:
                for y in (x.val[1:] if x.val[0] == "or" else (x.val,)):
                    if any(z[0] == "load" for z in subterms(y)):
                        continue
                    sel = sel or all(v[0] == "int" and any(v[1] & m for m in LARGE(one)) or any(z[0] == "cmp" and entails(G, z) for z in subterms(v)) for v, G in cases(f, y, S))
            c.ob("pages", samp or sel, "set-select", f, "the large form is stored but not selected")
    c.need(small and large, "page count forms")
    for n, mul in (("num_pages", 1), ("bytes_in_span", 8192), ("last_page", 1)):
        f = one(n)
        for t, S in PF(f).rets():
            for v, G in cases(f, t, S):
                ks = knows(G)
                v0 = v
                if n == "last_page":
                    a = alin(v)
                    for x in G:
                        pass
                    a = expand(a, G)
                    fp = [k for k in a if k != 1 and "first_page_" in show(k) and bitslice(k) and bitslice(k)[1] == 0]
                    num = [k for k in a if k != 1 and k not in fp]
                    ok = len(fp) == 1 and len(num) == 1 and a[fp[0]] == a[num[0]] == 1 and a.get(1, 0) == -1
                    if not ok:
                        c.ob("pages", False, n, f, "is not first + count - 1: %s" % show(v)[:80])
                        continue
                    v0 = num[0]
                    m = 1
                else:
                    a = alin(v)
                    m = 1
                    if len(a) == 1 and 1 not in a:
                        (v0, m), = a.items()
                isl = any(ks.get(x) for x in LARGE(one))
                if v0[0] == "load":
                    ok = isl and field(v0[1]) and field(v0[1])[1] == "num_pages" and m == mul
                else:
                    b = bitslice(v0)
                    # a masked shift by less than the field's place scales it
                    ok = not isl and len([x for x in LARGE(one) if ks.get(x) is False]) == len(LARGE(one)) and scaled(v0, small, mul, m)
                c.ob("pages", bool(ok), n, f, "reads another value: %s" % show(v0)[:70])
    for n in ("Sample", "UnsampleSlow"):
        f = one(n)
        P, E = effects(f)
        for t, S, e in E:
            w = [(a, x) for a, x in e.items() if field(a) and field(a)[1] == "num_pages"]
            c.ob("pages", len(w) == 1, n, f, "the page count is not carried over")
            for a, x in w:
                for v, G in cases(f, x.val, S):
                    ks = knows(G)
                    isl = any(ks.get(m) for m in LARGE(one))
                    ok = isl and v == ("load", a, None) or not isl and bitslice(v) is not None and bitslice(v)[1:] == small
                    c.ob("pages", ok, n + "-value", x.ins, "carries over %s" % show(v)[:50])


_large = {}


def LARGE(one):
    """flag bits that select the large form, from the page count reader"""
    if "m" not in _large:
        f = one("num_pages")
        m = set()
        for t, S in PF(f).rets():
            m |= {k for k in knows(S) if k & (k - 1) == 0}
        _large["m"] = m
    return _large["m"]


def expand(a, G):
    """replaces phis known equal to a term"""
    out = {}
    for k, v in a.items():
        if k != 1 and k[0] == "phi":
            eq = [y[2] if y[3] == k else y[3] for y in G if y[0] == "cmp" and y[1] == "eq" and k in y[2:]]
            eq = [y for y in eq if y[0] != "phi"]
            if len(eq) >= 1:
                for q, w in alin(eq[0]).items():
                    out[q] = out.get(q, 0) + v * w
                continue
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def scaled(t, small, mul, m):
    """t * m == (field at small) * mul"""
    b = bitslice(t)
    if not b:
        return False
    ld, lo, w = b
    if (lo, w) == small:
        # the mask's own low bit
        k = 1
        if t[0] == "and":
            mk = next(z[1] for z in t[1:] if z[0] == "int")
            k = mk & -mk
        return m * k == mul
    return False


# -- counts ------------------------------------------------------------------
def alloc_w(e):
    return [(a, w) for a, w in e.items() if "allocated_" in show(a)]


def num(t):
    while t[0] in ("trunc", "zext", "sext") or t[0] == "and" and I(65535) in t[1:]:
        t = next(z for z in t[1:] if isinstance(z, tuple) and z != I(65535))
    return t


def counts(c, one, fs):
    for f in fs["FreelistPushBatch"]:
        P, E = effects(f)
        for t, S, e in E:
            w = alloc_w(e)
            r = [v for v, G in cases(f, t, S)]
            free = any(y[0] == "cmp" and y[1] == "eq" and ("arg", 2) in y[2:] and any("allocated_" in show(z) for z in y[2:]) for y in S)
            if r == [I(0)]:
                c.ob("count", free and not e, "given-up", f, "a span that still has objects in use is given up")
                continue
            c.ob("count", r == [I(1)] and not free, "kept", f, "an entirely free span is kept")
            ok = len(w) == 1 and {k: v for k, v in ((num(k) if k != 1 else 1, v) for k, v in (inc(w[0][1].val, w[0][0]) or {0: 1}).items())} == {("arg", 2): -1}
            c.ob("count", ok, "push", f, "the number in use is not lowered by the number returned")
    f = one("FreelistPopBatch")
    P, E = effects(f)
    for t, S, e in E:
        w = alloc_w(e)
        ok = len(w) == 1
        if ok:
            d = inc(w[0][1].val, w[0][0])
            ok = d is not None and len(d) == 1 and all(v == 1 for v in d.values())
            if ok:
                k = next(iter(d))
                ok = k != 1 and same_num(num(k), t, S)
        c.ob("count", bool(ok), "pop", f, "the number in use is not raised by the number handed out")
    f = one("BuildFreelist")
    P, E = effects(f)
    for t, S, e in E:
        w = alloc_w(e)
        ok = False
        if len(w) == 1:
            v = w[0][1].val
            d = inc(v, w[0][0])
            if d is not None:
                z = [x for x in writes(f) if "allocated_" in show(x.addr) and x.val == I(0) and f.dom(x.ins, w[0][1].ins)]
                ok = bool(z) and len(d) == 1 and same_num(num(next(iter(d))), num(t), S)
            else:
                ok = same_num(num(v), num(t), S)
        c.ob("count", ok, "build", f, "the number in use is not the number handed out")
    f = one("FreelistEmpty")
    for t, S in PF(f).rets():
        for v, G in cases(f, t, S):
            want = [y for y in G if y[0] == "cmp" and y[1] in ("eq", "ne") and ("arg", 2) in [num(z) for z in y[2:]] and any("allocated_" in show(z) for z in y[2:])]
            ok = bool(want) and v[0] == "int" and (v[1] == 1) == (want[0][1] == "eq")
            ok = ok or v[0] == "cmp" and v[1] == "eq" and any("allocated_" in show(z) for z in v[2:])
            c.ob("count", ok, "empty", f, "reports %s" % show(v)[:50])


def same_num(a, b, S):
    a, b = num(a), num(b)
    if a == b:
        return True
    # the same through phis
    def cl(x):
        s, todo = {x}, [x]
        while todo:
            u = todo.pop()
            for y in S:
                if y[0] == "cmp" and y[1] == "eq" and u in y[2:]:
                    o = num(y[3] if y[2] == u else y[2])
                    if o not in s:
                        s.add(o)
                        todo.append(o)
        return s
    return bool(cl(a) & cl(b)) or same_lin(S, a, b)


# -- index maps --------------------------------------------------------------
def index(c, one):
    f = one("IdxToPtr")
    for t, S in PF(f).rets():
        a = alin(t)
        sh = a.get(("arg", 1))
        c.ob("index", set(a) == {("arg", 1), ("arg", 3)} and a[("arg", 3)] == 1, "list-pointer", f, "computes %s" % show(t)[:60])
    g = one("PtrToIdx")
    for t, S in PF(g).rets():
        # (p mod page) / the same step
        ok = False
        x = num(t)
        if x[0] == "and" and any(z[0] == "int" for z in x[1:]):
            m = next(z[1] for z in x[1:] if z[0] == "int")
            y = next(z for z in x[1:] if z[0] != "int")
            if y[0] == "lshr":
                s = y[2][1]
                ok = num(y[1]) == ("arg", 1) and sh == 1 << s and (m + 1) << s == 8192
        elif x[0] == "lshr":
            s = x[2][1]
            y = x[1]
            ok = y[0] == "and" and I(8191) in y[1:] and sh == 1 << s
        c.ob("index", ok, "list-index", g, "is not the inverse: %s" % show(t)[:60])
    f = one("BitmapPtrToIdx")
    k = None
    for t, S in PF(f).rets():
        x = num(t)
        ok = x[0] == "lshr" and x[2][0] == "int"
        if ok:
            k = x[2][1]
            a = alin(x[1])
            prod = [y for y in a if y != 1]
            ok = a.get(1) == 1 << (k - 1) and len(prod) == 1 and a[prod[0]] == 1 and prod[0][0] == "mul" and ("arg", 3) in prod[0][1:]
            if ok:
                o = next(y for y in prod[0][1:] if y != ("arg", 3))
                while o[0] == "and" and I(4294967295) in o[1:]:
                    o = next(y for y in o[1:] if y != I(4294967295))
                b = {q: v for q, v in alin(o).items() if q != ("arg", 1)}
                ok = alin(o).get(("arg", 1)) == 1 and len(b) == 1 and "first_page_" in show(next(iter(b))) and list(b.values())[0] in (-1, -8192)
        c.ob("index", ok, "bitmap-index", f, "computes %s" % show(t)[:80])
    f = one("CalcReciprocal")
    for t, S in PF(f).rets():
        x = num(t)
        c.ob("index", x == ("udiv", I(1 << (k or 0)), ("arg", 0)), "reciprocal", f, "does not match the rounding: %s" % show(t)[:50])


def is_start(t):
    """the span's first byte"""
    s = show(t)
    if t[0] == "and" and "first_page_" in s and "arg0" in s:
        return True
    if t[0] == "and" and t[1] == I(-8192 & (1 << 64) - 1) or t[0] == "and" and I(-8192) in t[1:]:
        return True
    return t[0] == "call" and t[1].endswith("start_address")


def is_ptr(t, idx):
    """t is the address of object index idx"""
    a = alin(t)
    st = [k for k in a if k != 1 and is_start(k)]
    if len(st) != 1 or a[st[0]] != 1:
        return False
    r = {num(k) if k != 1 else 1: v for k, v in a.items() if k != st[0]}
    w = {num(k) if k != 1 else 1: 8 * v for k, v in alin(num(idx)).items()}
    return r == w


# -- common: list limits -------------------------------------------------------
class Lim:
    pass


def limits(c, one):
    L = Lim()
    f = one("UseBitmapForSize")
    for t, S in PF(f).rets():
        for y in S:
            if y[0] == "cmp" and y[2] == ("arg", 0) and y[3][0] == "int":
                L.min = y[3][1]
    c.need(hasattr(L, "min"), "no size bound")
    return L


def half(t, size):
    """size / 2 - 1: indices that fit an object beside the link"""
    a = alin(num(t))
    if a.get(1, 0) != -1:
        return False
    r = [k for k in a if k != 1]
    return len(r) == 1 and a[r[0]] == 1 and num(r[0]) == ("lshr", size, I(1))


def role(a, n):
    """the address is the named field of the span itself"""
    if n == "freelist":
        return a == FL
    if n == "embed":
        return a == EC
    x = field(a)
    return bool(x) and x[1] == n


FL = EC = None


def headfields(f):
    """(freelist_, embed_count_) addresses: the field set to the end mark by
    building, and its neighbour"""
    global FL, EC
    FL = EC = None
    for w in writes(f):
        x = strip(w.addr)
        if w.val == I(-1) or w.val == I(65535):
            if "arg0" in show(w.addr) and "anon" in show(w.addr) or field(w.addr) and field(w.addr)[1] == "freelist_":
                FL = w.addr
    return FL


END = (I(-1), I(65535))


def path_loop(f, h):
    """per iteration path of the loop at h: (facts, next phis, stores)"""
    out = []
    inner = [L for L in f.loops if L["header"] != h and L["header"] in next(M["blocks"] for M in f.loops if M["header"] == h)]
    skip = {b for L in inner for b in L["blocks"]}
    for p, nx, env in loop_paths3(f, h):
        F = set()
        for a, b in zip(p, p[1:] + [h]):
            F |= {refold(subst(x, env)) for x in f.edge_facts(a, b)}
        if contradictory(F):
            continue
        st = [(subst(f.term(i.ops[1]), env), subst(f.term(i.ops[0]), env), i) for b in p if b not in skip for i in f.blocks[b] if i.op == "store"]
        out.append((F, nx, st, p))
    return out


def exits(f, h):
    mem = set(next(L["blocks"] for L in f.loops if L["header"] == h))
    return [(b, s, f.edge_facts(b, s)) for b in mem for s in f.succ[b] if s not in mem and s not in f.crash]


# -- build -------------------------------------------------------------------
def build(c, f, L):
    global EC
    fl = headfields(f)
    c.need(fl is not None, "no freelist head")
    size, count, out, room = ("arg", 1), ("arg", 2), ("arg", 3), ("arg", 4)
    step = ("lshr", size, I(3))
    nstep = lambda t: num(t) == step
    # the bitmap form
    cl = sites(f, "Bitmap::Clear$")
    sr = sites(f, "Bitmap::SetRange$")
    pb = sites(f, "Bitmap::PopBatch$")
    c.ob("build", len(cl) == len(sr) == len(pb) == 1 and f.dom(cl[0], sr[0]) and f.dom(sr[0], pb[0]) and args(f, sr[0])[1:] == [I(0), count] and args(f, pb[0])[-1] == room, "bitmap", f, "the objects are not marked free exactly once")
    P = PF(f)
    for i in sr:
        for S in P.at(i):
            c.ob("build", entails(S, cmp("uge", size, L.min)), "bitmap-size", i, "a span of too many objects uses the bitmap")
    # batch
    ws = [w for w in writes(f) if not show(w.addr).startswith("alloca") and "alloca" not in show(w.addr)]
    b = [w for w in ws if w.addr[0] == "gep" and w.addr[1] == out]
    c.need(len(b) == 1, "stores to the batch: %d" % len(b))
    w = b[0]
    h = loop_of(f, w.ins)
    c.need(h is not None, "batch loop")
    k = gep_index(w.addr, 8)
    lin = ladd(alin(w.val), {("mul", k, size): 0})
    ini, st = evolve(f, h, k)
    iv, sv = evolve(f, h, w.val)
    ok = all(a == {} for a in ini) and all(d == {1: 1} for S, d, p in st) and bool(st)
    ok2 = all(len(a) == 1 and is_start(next(iter(a))) for a in iv) and all(d == {size: 1} for S, d, p in sv) and bool(sv)
    if not ok2:
        ok2 = prod_is(w.val, k, size)
    c.ob("build", ok and ok2, "batch", w.ins, "the first objects are not handed out side by side")
    res = None
    for b0, s, F in exits(f, h):
        for x in F:
            if x[0] == "cmp" and x[1] in ("uge", "sge", "eq") and num(x[2]) == num(k):
                res = num(x[3])
            elif x[0] == "cmp" and x[1] in ("ule", "sle", "eq") and num(x[3]) == num(k):
                res = num(x[2])
    ok = res is not None and all(v in (count, room) and (v == count) == (entails(G, cmp("ule", count, room))) or v == room and entails(G, cmp("ule", room, count)) for v, G in cases(f, res))
    c.ob("build", ok, "batch-count", w.ins, "hands out another number of objects")
    # cache
    cs = [w for w in ws if field(w.addr) and field(w.addr)[1] == "cache"]
    c.need(len(cs) == 1, "stores to the cache")
    w = cs[0]
    h2 = loop_of(f, w.ins)
    ci = gep_index(w.addr, 2)
    ini, st = evolve(f, h2, ci)
    idx = num(w.val)
    i2, s2 = evolve(f, h2, idx)
    ok = all(a == {} for a in ini) and bool(st) and all(d == {1: 1} for S, d, p in st)
    ok = ok and bool(i2) and all(firstidx(a, step, res) for a in i2) and bool(s2) and all(len(r) == 1 and nstep(next(iter(r))) and list(r.values()) == [1] for r in (lmod(d, idx) for S, d, p in s2))
    c.ob("build", ok, "cache", w.ins, "the next objects do not follow in the cache")
    cap = None
    endt = None
    for b0, s, F in exits(f, h2):
        for x in F:
            if x[0] == "cmp" and x[1] in ("uge", "sge", "eq") and num(x[2]) == num(ci) and x[3][0] == "int":
                cap = x[3][1]
            elif x[0] == "cmp" and x[1] in ("ule", "ult", "uge", "ugt"):
                o = x[2] if x[1] in ("ule", "ult") else x[3]
                i_ = x[3] if x[1] in ("ule", "ult") else x[2]
                if num(i_) == idx and x[1] in ("ule", "uge"):
                    endt = num(o)
    L.cap = cap
    c.ob("build", cap is not None and endt is not None and total(endt, step, count), "cache-end", w.ins, "the cache loop ends elsewhere")
    sz = [w for w in ws if field(w.addr) and field(w.addr)[1] == "cache_size_"]
    c.ob("build", len(sz) == 1 and num(sz[0].val) == num(ci) and not f.in_loop(sz[0].ins), "cache-size", f, "the cache's size is not what was stored")
    # freelist
    hw = [w for w in ws if w.addr == fl and w.val not in END]
    c.need(len(hw) == 1, "no freelist")
    h3 = loop_of(f, hw[0].ins)
    c.need(h3 is not None, "freelist loop")
    fwd = num(hw[0].val)
    n = {"host": 0, "link": 0}
    emb = host = None
    end = None
    for F, nx, st, p in path_loop(f, h3):
        lower = [x for x in F if x[0] == "cmp" and x[1] in ("ult", "ugt")]
        stores = {a: v for a, v, i in st}
        if fl in stores:
            n["link"] += 1
            own = [a for a in stores if a != fl]
            i0 = num(stores[fl])
            ok = len(own) == 1 and is_ptr(own[0], i0) and stores[own[0]] == ("load", fl, None)
            d = delta_of(nx, i0, f)
            ok = ok and d is not None and len(d) == 1 and nstep(next(iter(d))) and list(d.values()) == [1]
            c.ob("build", ok, "freelist-link", hw[0].ins, "a new list head is not linked in front")
            L.link = i0
            zero = [k for k, v in nx.items() if v == I(0)]
            c.ob("build", len(zero) == 1, "freelist-link-count", hw[0].ins, "the new head's count does not start at zero")
            emb = zero[0] if zero else None
            hs = [k for k, v in nx.items() if is_ptr(v, i0)]
            c.ob("build", len(hs) == 1, "freelist-host", hw[0].ins)
            host = hs[0] if hs else None
    c.need(emb is not None and host is not None, "freelist roles")
    for F, nx, st, p in path_loop(f, h3):
        stores = {a: v for a, v, i in st}
        full = any(x[0] == "cmp" and x[1] == "eq" and half_any(x, size, emb) for x in F)
        nohost = any(x[0] == "cmp" and x[1] == "eq" and x[2] == ("phi", host) and x[3] == ("null",) for x in F)
        if fl in stores:
            c.ob("build", full or nohost, "freelist-when", hw[0].ins, "a list head is started while the last has room")
            same = [k for k, v in nx.items() if v == ("phi", k)]
            c.ob("build", len(same) == 1, "freelist-end-kept", hw[0].ins, "objects are lost")
            continue
        ok = len(stores) == 1
        if ok:
            (a, v), = stores.items()
            v = num(v)
            e = [k for k in nx if num(nx[k]) == v or alin(nx[k]) == alin(v)]
            d = lmod(ladd(alin(v), {}), None)
            ok = a[0] == "gep" and a[1] == ("phi", host) and gep_index(a, 2) == ("lin", ((("phi", emb), 1), (1, 1))) or alin(a) == {("phi", host): 1, ("phi", emb): 2, 1: 2}
            ok = ok and len(e) == 1 and (lambda r: len(r) == 2 and r.get(("phi", e[0])) == 1 and any(nstep(q) and m == -1 for q, m in r.items() if q != ("phi", e[0])))({num(q) if q != 1 else 1: m for q, m in alin(v).items()})
            ok = ok and alin(nx[emb]) == {("phi", emb): 1, 1: 1} and nx[host] == ("phi", host)
            if ok:
                end = e[0]
            ok = ok and any(x[0] == "cmp" and x[1] == "ne" and half_any(x, size, emb) for x in F)
        c.ob("build", ok, "freelist-embed", hw[0].ins, "an object is not stored exactly once in the head")
        n["host"] += 1
    c.ob("build", n["host"] and n["link"] and end is not None, "freelist", f, "the remaining objects are not kept")
    # it goes on until the two ends meet
    for b0, s, F in exits(f, h3):
        ok = any(x[0] == "cmp" and (x[1] in ("ule", "eq") and num(x[2]) == ("phi", end) and num(x[3]) == L.link or x[1] in ("uge", "eq") and num(x[3]) == ("phi", end) and num(x[2]) == L.link) for x in F)
        c.ob("build", ok, "freelist-all", f, "stops while objects remain")
    for q, want in ((end, None), (L.link[1], None)):
        if q is None:
            continue
        for v in phi_inits(f, q):
            v = num(v)
            ok = v == endt or total(v, step, count) if q == end else v == idx or num(v) == idx or v in [num(x) for x in phi_inits(f, q)] and v[0] == "phi"
            c.ob("build", ok, "freelist-start", f, "starts at %s" % show(v)[:60])
    # the head's count is kept
    ec = [w for w in ws if num(w.val) == ("phi", emb) and w.addr[0] in ("fld", "gep") and w.addr != fl]
    c.ob("build", len(ec) == 1, "freelist-count", f, "the head's count is not stored")
    if ec:
        EC = ec[0].addr


def prod_is(v, k, size):
    a = alin(v)
    st = [x for x in a if x != 1 and is_start(x)]
    r = [x for x in a if x != 1 and x not in st]
    return len(st) == 1 and a[st[0]] == 1 and len(r) == 1 and a[r[0]] == 1 and r[0][0] == "mul" and set(map(num, r[0][1:])) == {num(k), size}


def lmod(d, x):
    out = {}
    for k, v in d.items():
        k = num(k) if k != 1 else 1
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def firstidx(a, step, res):
    """step * res"""
    r = lmod(a, None)
    if len(r) != 1:
        return False
    (k, v), = r.items()
    return k != 1 and k[0] == "mul" and v == 1 and {num(z) for z in k[1:]} == {step, res}


def total(t, step, count):
    t = num(t)
    return t[0] == "mul" and {num(z) for z in t[1:]} == {step, count}


def half_any(x, size, emb):
    """x compares the count with the room beside the link"""
    for a, b in ((x[2], x[3]), (x[3], x[2])):
        if num(a) == ("phi", emb) and half(b, size):
            return True
        # count + 1 against size / 2
        d = ladd(alin(num(a)), alin(num(b)), -1)
        d = {num(k) if k != 1 else 1: v for k, v in d.items()}
        if d.get(("phi", emb)) == 1 and d.get(("lshr", size, I(1))) == -1 and d.get(1) == 1 and len(d) == 3:
            return True
    return False


def delta_of(nx, t, f):
    if t[0] != "phi" or t[1] not in nx:
        return None
    d = ladd(alin(num(nx[t[1]])), alin(t), -1)
    return {num(k) if k != 1 else 1: v for k, v in d.items()}


# -- push --------------------------------------------------------------------
def push(c, f, L):
    batch, n, size = ("arg", 1), ("arg", 2), ("arg", 3)
    st = [w for w in writes(f) if "allocated_" not in show(w.addr)]
    P = PF(f)
    # bitmap form: one bit for each element, from the first to the last
    sb = sites(f, "Bitmap::SetBit$")
    c.ob("push", len(sb) == 1, "bitmap", f, "returned objects are not marked free")
    for i in sb:
        h = loop_of(f, i)
        v = args(f, i)[1]
        a = num(v)
        ok = h is not None and all(i.b in p for p, nx in loop_paths(f, h))
        if ok:
            ok = a[0] == "load" and elements(f, h, a[1], batch, n, 2)
        c.ob("push", ok, "bitmap-all", i, "not every returned object is marked free")
        for S in P.at(i):
            c.ob("push", entails(S, cmp("uge", size, L.min)), "bitmap-size", i, "the bitmap is used for a list span")
    # cache
    cw = [w for w in st if field(w.addr) and field(w.addr)[1] == "cache"]
    c.need(len(cw) == 1, "no cache store")
    w = cw[0]
    h = loop_of(f, w.ins)
    cs = next((x for x in subterms(w.addr) if x[0] == "load" and field(x[1]) and field(x[1])[1] == "cache_size_"), None)
    c.need(h is not None and cs is not None, "cache loop")
    k = None
    a = alin(w.addr)
    b = alin(w.val[1]) if w.val[0] == "load" else {}
    base = field(w.addr)
    r = {q: v for q, v in a.items() if q != 1 and q != strip(w.addr) and num(q) != cs}
    ok = a.get(cs) == 2 and len(r) == 1 and list(r.values()) == [2] and b == {batch: 1, next(iter(r)): 2} if r else False
    if ok:
        k = next(iter(r))
        ini, ev = evolve(f, h, k)
        ok = all(x == {} for x in ini) and bool(ev) and all(d == {1: 1} and w.ins.b in p for S, d, p in ev)
    c.ob("push", ok, "cache", w.ins, "elements do not go to the next free places of the cache")
    cnt = None
    for b0, s, F in exits(f, h):
        for x in F:
            if x[0] == "cmp" and k is not None and x[1] in ("eq", "uge", "sge", "ule", "sle") and k in [num(z) for z in x[2:]]:
                cnt = num(x[3]) if num(x[2]) == k else num(x[2])
    ok = cnt is not None
    if ok:
        for v, G in cases(f, cnt):
            d = lmod(alin(v), None)
            ok = ok and (v == n or d == {cs: -1, 1: L.cap})
        two = [v for v, G in cases(f, cnt)]
        ok = ok and len(two) == 2 and all(entails(G, cmp("ule", v, o)) or entails(G, cmp("ult", v, o)) or entails(G, cmp("uge", o, v)) for v, G in cases(f, cnt) for o in two if o != v)
    c.ob("push", ok, "cache-room", w.ins, "the cache takes another number of elements")
    for x in st:
        if field(x.addr) and field(x.addr)[1] == "cache_size_":
            d = {num(q) if q != 1 else 1: v for q, v in (inc(x.val, x.addr) or {}).items()}
            c.ob("push", d == {cnt: 1} or k is not None and d == {num(k): 1}, "cache-size", x.ins, "the cache's size changes by something else")
            L.csz = x
    # list
    own = [x for x in st if x.addr[0] in ("gep", "lin") or strip(x.addr)[0] not in ("fld", "alloca")]
    own = [x for x in own if x is not w and not (field(x.addr))]
    hs = {loop_of(f, x.ins) for x in own} - {None, h}
    c.need(len(hs) == 1, "list loop")
    hl = hs.pop()
    its = path_loop(f, hl)
    got = {"embed": 0, "link": 0}
    emb = head = host = cur = None
    for F, nx, sts, p in its:
        for a, v, i in sts:
            for q, z in nx.items():
                if z == I(0):
                    emb = q
    finals = {x.addr: num(x.val) for x in st if not f.in_loop(x.ins)}
    head = next((v[1] for a, v in finals.items() if a == FL and v[0] == "phi"), None)
    c.need(emb is not None and head is not None, "list roles")
    for F, nx, sts, p in its:
        c.ob("push", len(sts) == 1, "list-once", sts[0][2] if sts else f, "an element is stored %d times" % len(sts))
        if len(sts) != 1:
            continue
        a, v, i = sts[0]
        full = [x for x in F if x[0] == "cmp" and x[1] in ("eq", "ne") and half_any(x, size, emb)]
        if num(v)[0] == "load" and isel(num(v)[1]):
            # into the head
            el = num(v)
            hp = [q for q in nx if nx[q] == ("phi", q) and q in [z[1] for z in subterms(a) if z[0] == "phi"] and q != emb]
            ok = alin(nx[emb]) == {("phi", emb): 1, 1: 1} and nx[head] == ("phi", head) and len(hp) == 1
            ok = ok and alin(a) == {("phi", hp[0]): 1, ("phi", emb): 2, 1: 2}
            ok = ok and any(x[1] == "ne" for x in full)
            host = hp[0] if hp else host
            c.ob("push", ok, "list-embed", i, "an element is not stored in the next free place of the head")
            got["embed"] += 1
        else:
            el = num(nx[head])
            ok = num(v) == ("phi", head) and is_ptr(a, el) and nx[emb] == I(0) and any(x[1] == "eq" for x in full)
            hp = [q for q in nx if is_ptr(nx[q], el) and q != head]
            ok = ok and len(hp) == 1
            host = hp[0] if hp else host
            c.ob("push", ok, "list-link", i, "an element is not linked in front of the full head")
            got["link"] += 1
        c.ob("push", el[0] == "load" and consumed(f, hl, el[1], nx, 2), "list-next", i, "an element is skipped or stored twice")
        cur = el
    c.ob("push", got["embed"] and got["link"], "list", f, "the list does not grow")
    # how it starts and what it leaves
    c.ob("push", finals.get(FL) == ("phi", head) and finals.get(EC) == ("phi", emb), "list-kept", f, "the list's new state is not stored")
    for x in st:
        if x.addr in (FL, EC) and not f.in_loop(x.ins):
            away = reachable(f, hl, {x.ins.b})
            c.ob("push", not any(i.b in away for i in f.live("ret")), "list-kept-always", x.ins, "the list's new state is not stored on some path")
    start(c, f, hl, head, emb, host, cur, n, cnt, batch, h)


def isel(a):
    """address of a batch element"""
    return any(x == ("arg", 1) or x[0] == "phi" for x in subterms(a)) and "fld" not in {x[0] for x in subterms(a)}


def elements(f, h, addr, batch, n, esz):
    """addr runs over all n elements of the batch"""
    ini, ev = evolve(f, h, addr)
    if not ini or not all(a == {batch: 1} for a in ini) or not ev or not all(d == {1: esz} for S, d, p in ev):
        return False
    for b0, s, F in exits(f, h):
        ok = False
        for x in F:
            if x[0] == "cmp" and x[1] in ("eq", "uge", "ule", "sge", "sle"):
                d = ladd(alin(x[2]), alin(x[3]), -1)
                e = ladd(alin(addr), {batch: 1, n: esz}, -1)
                ok = ok or d == e or d == {k: -v for k, v in e.items()} or {k: v * esz for k, v in d.items()} == e
        if not ok:
            return False
    return True


def consumed(f, h, addr, nx, esz):
    d = ladd(lsub(alin(addr), nx), alin(addr), -1)
    return d == {1: esz}


def start(c, f, h, head, emb, host, cur, n, cnt, batch, h0):
    """values on entry: the stored list, or the first element made its head"""
    P = PF(f)
    # follow entry phis one level
    for p in f.pred[h]:
        if p not in f.livb or f.bdom(h, p):
            continue
    ents = entry_cases(f, h, cur[1] if cur is not None else None)
    for env, F in ents:
        hv, ev, ov = num(env[head]), num(env[emb]), env.get(host)
        at = alin(env["cur"]) if cur is not None else None
        if hv == ("load", FL, None):
            ok = ev == ("load", EC, None) and is_ptr(ov, hv) and any(x[0] == "cmp" and x[1] == "ne" and hv in x[2:] and (x[2] in END or x[3] in END) for x in F)
            c.ob("push", ok, "list-start", f, "does not go on with the present head")
            first = at
        else:
            w = [x for x in writes(f) if x.val in END and is_ptr(x.addr, hv)]
            ok = hv[0] == "load" and ev == I(0) and is_ptr(ov, hv) and bool(w)
            c.ob("push", ok, "list-first", f, "the first head is not properly ended")
            first = alin(hv[1]) if hv[0] == "load" else None
            off = ladd(at, first, -1) if at is not None and first is not None else None
            c.ob("push", off == {1: 2}, "list-first-once", f, "the first head is not consumed")
        c.ob("push", first is not None and all(ladd(v, {batch: 1}, -1) == ({cnt: 2} if late else {}) for v, late in origins(f, first, h0, cnt)), "list-from", f, "does not go on where the cache stopped")


def reachable(f, a, avoid=()):
    seen, todo = set(), [a]
    while todo:
        b = todo.pop()
        if b in seen or b in avoid or b in f.crash:
            continue
        seen.add(b)
        todo += [s for s in f.succ[b] if (b, s) not in f.dead]
    return seen


def origins(f, a, h0, cnt):
    """(linear value, after the loop at h0) per edge into the join giving it"""
    ph = [k for k in a if k != 1 and k[0] == "phi"]
    if len(ph) != 1 or a != {ph[0]: 1}:
        return [(lmod(a, None), len(a) > 1)]
    I_ = f.ins[ph[0][1]]
    after = reachable(f, h0)
    return [(lmod(alin(f.term(o)), None), p in after) for o, p in zip(I_.ops, I_.d["in"]) if p in f.livb]


def entry_cases(f, h, also):
    """environments of the loop's phis on entry, phis of the join in front
    resolved per incoming edge"""
    out = []
    for p in f.pred[h]:
        if p not in f.livb or f.bdom(h, p) or (p, h) in f.dead:
            continue
        env = {}
        for i in f.blocks[h]:
            if i.op != "phi":
                break
            for o, q in zip(i.ops, i.d["in"]):
                if q == p:
                    env[i.id] = f.term(o)
        if also is not None:
            env["cur"] = subst(also, env)
        cur = [(env, f.edge_facts(p, h), p)]
        # resolve phis of the block in front
        for _n in range(3):
            nxt = []
            for e, F, b in cur:
                ph = [i for i in f.blocks[b] if i.op == "phi"]
                if not ph or not any(("phi", i.id) in set(subterms(v)) for i in ph for v in e.values()):
                    pr = [q for q in f.pred[b] if q in f.livb and not f.bdom(b, q)]
                    if len(pr) == 1 and any(x[0] == "phi" for v in e.values() for x in subterms(v)):
                        nxt.append((e, F | f.edge_facts(pr[0], b), pr[0]))
                    else:
                        nxt.append((e, F, b))
                    continue
                for q in f.pred[b]:
                    if q not in f.livb or f.bdom(b, q):
                        continue
                    m = {}
                    for i in ph:
                        for o, z in zip(i.ops, i.d["in"]):
                            if z == q:
                                m[i.id] = f.term(o)
                    nxt.append(({k: subst(v, m) for k, v in e.items()}, F | f.edge_facts(q, b), q))
            cur = nxt
        for e, F, b in cur:
            F = set(F)
            while True:
                pr = [q for q in f.pred[b] if q in f.livb]
                if len(pr) != 1:
                    break
                F |= f.edge_facts(pr[0], b)
                b = pr[0]
            out.append((e, F))
    return out


# -- pop ---------------------------------------------------------------------
def pop(c, f, L):
    batch, n, size = ("arg", 1), ("arg", 2), ("arg", 3)
    pb = sites(f, "Bitmap::PopBatch$")
    c.ob("pop", len(pb) == 1 and args(f, pb[0])[-1] == n, "bitmap", f, "takes another number from the bitmap")
    P = PF(f)
    for i in pb:
        for S in P.at(i):
            c.ob("pop", entails(S, cmp("uge", size, L.min)), "bitmap-size", i, "the bitmap is used for a list span")
    ws = [w for w in writes(f) if "alloca" not in show(w.addr) and "allocated_" not in show(w.addr)]
    out = [w for w in ws if batch in alin(w.addr)]
    loads = lambda t: [x for x in subterms(t) if x[0] == "load"]
    cache = [w for w in out if any(field(x[1]) and field(x[1])[1] == "cache" for x in loads(w.val))]
    c.need(len(cache) == 1, "no cache read")
    w = cache[0]
    h = loop_of(f, w.ins)
    k = gep_index(w.addr, 8)
    src = next(x for x in loads(w.val) if field(x[1]) and field(x[1])[1] == "cache")
    cs = next((x for x in loads(src[1]) if field(x[1]) and field(x[1])[1] == "cache_size_"), None)
    c.need(cs is not None and h is not None, "cache size")
    a = {num(q): v for q, v in alin(src[1]).items() if q != 1 and q != strip(src[1])}
    a[1] = alin(src[1]).get(1, 0)
    ok = is_ptr(w.val, src) and fold(a) == {cs: 2, k: -2, 1: -2}
    ini, ev = evolve(f, h, k)
    ok = ok and all(x == {} for x in ini) and bool(ev) and all(d == {1: 1} and w.ins.b in p for S, d, p in ev)
    c.ob("pop", ok, "cache", w.ins, "does not hand out the cache's last objects in turn")
    cnt = None
    for b0, s, F in exits(f, h):
        for x in F:
            if x[0] == "cmp" and x[1] in ("eq", "uge", "sge", "ule", "sle") and k in x[2:]:
                cnt = x[3] if x[2] == k else x[2]
    two = [(num(v), G) for v, G in cases(f, cnt)] if cnt else []
    ok = sorted(map(repr, {v for v, G in two})) == sorted(map(repr, {n, cs})) and all(entails(G, cmp("ule", v, o)) or entails(G, cmp("ult", v, o)) or entails(G, cmp("uge", o, v)) for v, G in two for o in (n, cs) if o != v)
    c.ob("pop", ok, "cache-count", w.ins, "takes another number from the cache")
    for x in ws:
        if field(x.addr) and field(x.addr)[1] == "cache_size_":
            d = {num(q) if q != 1 else 1: v for q, v in (inc(x.val, x.addr) or {}).items()}
            c.ob("pop", d in ({num(k): -1}, {num(cnt): -1} if cnt else None), "cache-size", x.ins, "the cache's size changes by something else")
    c.ob("pop", any(field(x.addr) and field(x.addr)[1] == "cache_size_" for x in ws), "cache-shrinks", f, "the cache keeps what it handed out")
    # embedded
    rest = [x for x in out if x is not w]
    em = [x for x in rest if len(loads(x.val)) >= 2 and loop_of(f, x.ins) is not None and any(y[0] == "load" and y[1] != FL for y in loads(x.val)[:1]) and not is_ptr(x.val, ("load", FL, None))]
    hd = [x for x in rest if is_ptr(x.val, ("load", FL, None))]
    c.need(len(em) == 1 and len(hd) == 1, "list reads: %d %d" % (len(em), len(hd)))
    e, g = em[0], hd[0]
    hi, ho = loop_of(f, e.ins), loop_of(f, g.ins)
    c.need(hi is not None and ho is not None and hi != ho, "list loops")
    HEAD = ("load", FL, None)
    CNT = ("load", EC, None)
    ix = [x for x in loads(e.val) if is_ptr(e.val, x)]
    ok = len(ix) == 1
    if ok:
        a = alin(ix[0][1])
        st = [q for q in a if q != 1 and is_start(q)]
        r = {num(q) if q != 1 else 1: v for q, v in a.items() if q not in st}
        ei = [x for x in f.blocks[hi] if x.op == "phi"]
        pos = [q for q in r if q not in (1, HEAD, CNT)]
        ok = len(st) == 1 and r.get(HEAD) == 8 and r.get(CNT) == 2 and len(pos) == 1 and r[pos[0]] == -2 and r.get(1, 0) == 0
        if ok:
            i_ = pos[0]
            ini, ev = evolve(f, hi, i_)
            ok = all(x == {} for x in ini) and bool(ev) and all(d == {1: 1} and e.ins.b in p for S, d, p in ev)
            oi = fold({num(q) if q != 1 else 1: v for q, v in alin(e.addr).items() if q != batch})
            done = [q for q in oi if q not in (1, i_)]
            ok = ok and oi.get(i_) == 8 and len(done) == 1 and oi[done[0]] == 8 and oi.get(1, 0) == 0
    c.ob("pop", ok, "embedded", e.ins, "does not hand out the head's last indices in turn")
    if not ok:
        return
    done = done[0]
    it = None
    for b0, s, F in exits(f, hi):
        for x in F:
            if x[0] == "cmp" and x[1] in ("eq", "uge", "ule") and i_ in x[2:]:
                it = x[3] if x[2] == i_ else x[2]
    c.need(it is not None, "embedded count")
    # min(count, room)
    vals = []
    if it[0] == "phi":
        I_ = f.ins[it[1]]
        for o, p in zip(I_.ops, I_.d["in"]):
            if p in f.livb:
                vals.append((num(f.term(o)), f.edge_facts(p, I_.b) | frozenset(f.facts().get(p, ()))))
    else:
        vals = [(num(v), G) for v, G in cases(f, it)]
    room = {n: 1, done: -1}
    ok = True
    for v, G in vals:
        l = lmod(alin(v), None)
        if l == {CNT: 1}:
            ok = ok and bounded(G, {CNT: 1}, room)
        elif l == room:
            ok = ok and bounded(G, room, {CNT: 1})
        else:
            ok = False
    c.ob("pop", ok and len(vals) == 2, "embedded-count", e.ins, "takes another number from the head")
    # head itself
    ok = fold(lmod({q: v for q, v in alin(g.addr).items() if q != batch}, None)) == {done: 8, num(it): 8}
    c.ob("pop", ok, "head-place", g.ins, "the head goes to another place")
    nh = [x for x in ws if x.addr == FL]
    c.ob("pop", len(nh) == 1 and nh[0].ins.b == g.ins.b and nh[0].val[0] == "load" and is_ptr(nh[0].val[1], HEAD), "head-next", g.ins, "the next head is not the one linked behind it")
    ne = [x for x in ws if x.addr == EC]
    lim = [x for x in ne if half(x.val, size)]
    sub = [x for x in ne if x not in lim]
    c.ob("pop", len(lim) == 1 and lim[0].ins.b == g.ins.b, "head-full", g.ins, "the next head is not taken as full")
    ok = bool(sub)
    for x in sub:
        d = {num(q) if q != 1 else 1: v for q, v in (inc(x.val, x.addr) or {}).items()}
        ok = ok and d == {num(it): -1} and not f.dom(g.ins, x.ins)
    c.ob("pop", ok, "head-left", f, "the head's count is not lowered by what was taken")
    away = reachable(f, hi, {g.ins.b} | {x.ins.b for x in sub})
    c.ob("pop", not any(i.b in away for i in f.live("ret")), "head-left-always", f, "the head's count is not lowered on some path")
    for S in P.at(g.ins):
        d = ladd({done: 1, num(it): 1}, {n: 1}, -1)
        c.ob("pop", any(x[0] == "cmp" and x[1] in ("ne", "ult", "ugt") and linsame(x, d) for x in S) or lineq_lt(S, d), "head-room", g.ins, "writes past the batch")
        c.ob("pop", any(x[0] == "cmp" and x[1] == "ne" and HEAD in x[2:] and (x[2] in END or x[3] in END) for x in f.guards(e.ins) | f.guards(g.ins) | S), "head-end", g.ins, "follows the end mark")
    for p, nx, env in loop_paths3(f, ho):
        d = ladd(alin(nx[done[1]]), {done: 1}, -1) if done[0] == "phi" and done[1] in nx else None
        w = ladd(alin(subst(it, env)), {1: 1})
        c.ob("pop", d is not None and lmod(d, None) == lmod(w, None), "result", g.ins, "the number handed out grows by something else")
    for v in phi_inits(f, done[1]):
        c.ob("pop", num(v) in (num(k), num(cnt)), "result-start", f, "what the cache gave is overwritten")


def fold(a):
    """x + ~y etc. as linear"""
    out = {}
    for q, v in a.items():
        if q != 1 and q[0] == "xor" and I(-1) in q[1:]:
            y = next(z for z in q[1:] if z != I(-1))
            out[y] = out.get(y, 0) - v
            out[1] = out.get(1, 0) - v
        else:
            out[q] = out.get(q, 0) + v
    return {q: v for q, v in out.items() if v}


def bounded(G, a, b):
    """a <= b in the facts (linear maps)"""
    d = ladd(a, b, -1)
    for x in G:
        if x[0] != "cmp" or x[1] not in ("ule", "ult", "uge", "ugt", "eq"):
            continue
        e = lmod(ladd(alin(x[2]), alin(x[3]), -1), None)
        if x[1] in ("uge", "ugt"):
            e = {k: -v for k, v in e.items()}
        if e == d:
            return True
    return False


def linsame(x, d):
    e = lmod(ladd(alin(x[2]), alin(x[3]), -1), None)
    return e == d or e == {k: -v for k, v in d.items()}


def lineq_lt(S, d):
    return False


# -- bitmap ------------------------------------------------------------------
def bitmap(c):
    fs = c.fns(r"Span::BitmapPopBatch\(.*lambda.*operator\(\)", AN, floor=1)
    for f in fs:
        P, E = effects(f)
        for t, S, e in E:
            addr = [(a, w.val) for a, w in e.items() if w.val[0] == "lin" or is_obj(w.val)]
            adv = [(a, w.val) for a, w in e.items() if inc_ptr(w.val, a)]
            ok = len(e) == 2 and len(adv) == 1 and len(addr) == 1 and addr[0][0] == ("load", adv[0][0], None)
            if ok:
                a = alin(addr[0][1])
                st = [q for q in a if q != 1 and "first_page_" in show(q)]
                pr = [q for q in a if q != 1 and q not in st]
                ok = len(st) == 1 and a[st[0]] in (1, 8192) and len(pr) == 1 and a[pr[0]] == 1 and pr[0][0] == "mul" and ("arg", 1) in [num(z) for z in pr[0][1:]]
            c.ob("index", ok, "bitmap-pointer", f, "a bit stands for another object, or the output does not advance")
    for f in c.fns(r"Bitmap<\d+(ul)?>::PopBatch<.*Span::BitmapPopBatch", ["BitmapPopBatch\\(.*lambda.*operator\\(\\)\\("], floor=1):
        vis = [i for i in f.live("call") if i.cshort.endswith("BitmapPopBatch")]
        if len(vis) != 1:
            c.need(False, "visitor calls: %d" % len(vis))
        i = vis[0]
        hi = loop_of(f, i)
        ho = next((L["header"] for L in f.loops if hi in L["blocks"] and L["header"] != hi), None)
        c.need(hi is not None and ho is not None, "bitmap loops")
        bit = args(f, i)[1]
        a = alin(bit)
        if bit[0] == "or":
            a = {}
            for y in bit[1:]:
                a = ladd(a, alin(y))
        tz = [q for q in a if q != 1 and "cttz" in show(q)]
        wi = [q for q in a if q != 1 and q not in tz]
        ok = len(tz) == 1 and a[tz[0]] == 1 and len(wi) == 1 and a[wi[0]] == 64 and 1 not in a
        c.ob("pop", ok, "bitmap-bit", i, "hands out another bit: %s" % show(bit)[:60])
        if not ok:
            continue
        wd = next((x for x in subterms(tz[0]) if x[0] == "phi"), None)
        c.need(wd is not None, "bitmap word")
        P = PF(f)
        for F, nx, st, p in path_loop(f, hi):
            v = nx.get(wd[1])
            ok = v is not None and v[0] == "and" and wd in v[1:] and any(alin(z) == {wd: 1, 1: -1} for z in v[1:])
            c.ob("pop", ok, "bitmap-clear", i, "the bit handed out is not the one cleared")
            inc1 = [q for q, z in nx.items() if alin(z) == {("phi", q): 1, 1: 1}]
            c.ob("pop", len(inc1) == 1 and i.b in p, "bitmap-count", i, "the count differs from the bits taken")
            if len(inc1) == 1:
                cn = ("phi", inc1[0])
                for S in P.at(i):
                    c.ob("pop", entails(S, cmp("ult", cn, ("arg", 2))), "bitmap-limit", i, "takes more than asked")
                    c.ob("pop", entails(S, cmp("ne", wd, 0)), "bitmap-some", i, "takes a bit of an empty word")
        back = [w for w in writes(f) if index_of(w.addr) is not None and "bits_" in show(w.addr)]
        ok = bool(back)
        for w in back:
            ok = ok and w.val == wd or w.val[0] == "phi"
            ok = ok and gep_index(w.addr, 8) == wi[0] and w.ins.b not in next(L["blocks"] for L in f.loops if L["header"] == hi)
        c.ob("pop", ok, "bitmap-kept", f, "the taken bits stay set")
        for p, nx in loop_paths(f, ho):
            c.ob("pop", any(w.ins.b in p for w in back), "bitmap-kept-always", f, "the taken bits stay set on some path")
        # every exit of the outer loop passes the write-back of its word
        for b0, s, F in exits(f, hi):
            c.ob("pop", any(f.bdom(w.ins.b, w.ins.b) for w in back) and any(w.ins.b == s or f.bdom(s, w.ins.b) for w in back), "bitmap-kept-end", f, "the taken bits stay set when the limit is reached")


def is_obj(v):
    return "first_page_" in show(v)


def inc_ptr(v, a):
    return v[0] == "gep" and v[1] == ("load", a, None) and v[2] == 8 and not v[3]


# -- validity ----------------------------------------------------------------
def valid(c, one, L):
    f = one("IsValidSizeClass")
    bits = None
    g = c.fns(r"Bitmap<\d+(ul)?>::PopBatch<.*Span::BitmapPopBatch", ["^absl::"], floor=1)[0]
    bits = int(re.search(r"Bitmap<(\d+)", g.name).group(1))
    size, pg = ("arg", 0), ("arg", 1)
    lim = None
    for t, S in PF(f).rets():
        for v, G in cases(f, t, S):
            if v == I(0):
                continue
            H = set(G) | ({v} if v[0] == "cmp" else set())
            for y in list(G):
                if y[0] == "iff" and y[1] == v:
                    H.add(y[2])
            big = entails(H, cmp("uge", size, L.min))
            q = ("udiv", ("lin", ((pg, 8192),)), size)
            if big:
                ok = any(x[0] == "cmp" and x[1] in ("ult", "ule") and x[2][0] == "udiv" and x[2][2] == size and alin(x[2][1]) == {pg: 8192} and x[3][0] == "int" and x[3][1] - (x[1] == "ult") <= bits for x in H)
                c.ob("valid", ok, "bitmap", f, "accepts more objects than the bitmap holds")
            else:
                c.ob("valid", entails(H, cmp("eq", pg, 1)), "list", f, "accepts a list span of several pages")
            c.ob("valid", entails(H, cmp("ule", pg, 63)), "pages", f, "accepts a span too long for the short page count")
