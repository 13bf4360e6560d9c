"""Intrusive lists link and unlink exactly one element, and an array of lists
with an emptiness bitmap marks exactly its non-empty lists."""
from tcm import *
from segs import segs
from C09 import nrm, same, add, mk

T = r"TList<tcmalloc::tcmalloc_internal::[A-Za-z]+>::"
H = r"HintedTrackerLists<tcmalloc::tcmalloc_internal::[A-Za-z]+, [0-9]+ul>::"
HA = ["TList<[^<>]*>::", "Bitmap<[0-9]+ul>::"]


def run(c):
    c.rule("link", "inserting makes the neighbours and the element point at each other; removing joins the neighbours")
    c.rule("walk", "first, last, empty and iteration follow the links")
    c.rule("bit", "a list's bit is set exactly while the list has elements")
    c.rule("count", "sizes and lengths change by what is linked or unlinked")
    c.rule("pick", "the list chosen is the first marked one at or after the one asked for, and what is returned was in it")
    c.rule("stack", "a singly linked stack gives out what was pushed, and nothing twice")
    tlists(c)
    hinted(c)
    stacks(c)


# -- memory -------------------------------------------------------------------
def deps(f, o, memo):
    """the loads an operand is made of"""
    if o[0] != "v":
        return frozenset()
    if o[1] in memo:
        return memo[o[1]]
    memo[o[1]] = frozenset()
    i = f.ins[o[1]]
    r = set()
    if i.op == "load":
        r.add(i.id)
    if i.op != "phi":
        for x in i.ops:
            r |= deps(f, x, memo)
    memo[o[1]] = frozenset(r)
    return memo[o[1]]


def repl(t, env):
    if t in env:
        return env[t]
    return tuple(repl(x, env) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def memory(s, wrote=None):
    """[(address, value, instruction)] of a path's stores in order, reloads
    of a stored address standing for what was stored; and the same view of a term.
    wrote(call) gives what a call writes through its arguments"""
    f, out, cur, memo, seen = s.f, [], {}, {}, {}

    def val(o):
        env = {}
        for l in deps(f, o, memo):
            if l in seen:
                env[nrm(s.term(f.term(("v", l))))] = seen[l]
        return repl(nrm(s.t(o)), env)
    for i in s.ins:
        if i.op == "load":
            a = val(i.ops[0])
            if a in cur:
                seen[i.id] = cur[a]
        elif i.op == "store":
            a = val(i.ops[1])
            v = val(i.ops[0])
            cur[a] = v
            out.append((a, v, i))
        elif wrote and i.op == "call":
            cur.update(wrote(i))
    return out, val


def final(out):
    r = {}
    for a, v, _ in out:
        r[a] = v
    return r


def ld(a):
    return ("load", a, None)


def links(t):
    """(base, field) of an address"""
    t = nrm(t)
    return (t[3], t[1:3]) if t[0] == "fld" else None


# -- doubly linked ------------------------------------------------------------
def nx(e):
    return ("fld", "anon", "#0", e)


def pv(e):
    return ("fld", "anon", "#1", e)


def tlists(c):
    n = {"prepend": 0, "append": 0, "remove": 0, "empty": 0, "first": 0, "last": 0, "length": 0}
    for f in c.fns(r"%s(prepend|append|remove|empty|first|last|length)\(" % T, [], floor=1):
        nm = short(f.name).split("::")[-1].split("(")[0]
        two = f.name.split("(")[-1].count("*") == 2
        n[nm] += 1
        item = ("arg", 2) if two else ("arg", 1)
        near = ("arg", 1) if two else ("fld", "TList", "head_", ("arg", 0))
        near = nrm(near)
        head = nrm(("fld", "TList", "head_", ("arg", 0)))
        S = segs(f)
        if nm == "length":
            length(c, f, head)
            continue
        for s in S:
            if s.end[0] != "ret":
                c.ob("walk", False, nm, f, "the operation loops")
                continue
            out, val = memory(s)
            m = final(out)
            r = nrm(s.end[1]) if s.end[1] else None
            if nm in ("prepend", "append"):
                # before an element: between its predecessor and it; to the front: between the head and its successor
                after = (nm == "prepend") != two
                if after:
                    a, b = near, ld(nx(near))
                else:
                    a, b = ld(pv(near)), near
                want = {nx(item): b, pv(item): a, nx(a): item, pv(b): item}
                c.ob("link", m == want, nm, f, "the element is not linked between its two neighbours")
            elif nm == "remove":
                a, b = ld(pv(item)), ld(nx(item))
                m = {k: v for k, v in m.items() if k not in (nx(item), pv(item))}
                c.ob("link", m == {nx(a): b, pv(b): a}, nm, f, "the neighbours of the removed element are not joined")
                e = only(s, r)
                c.ob("walk", e is not None and e in ({a, b},), "remove-empty", f, "the result does not say whether the list became empty: %s" % show(r))
            elif nm == "empty":
                e = only(s, r)
                c.ob("walk", e in ({head, ld(nx(head))}, {head, ld(pv(head))}) and not m, nm, f, "emptiness is not the head pointing at itself")
            else:
                c.ob("walk", r == ld(nx(head) if nm == "first" else pv(head)) and not m, nm, f, "not the %s element" % nm)
    for k in ("prepend", "append", "remove", "empty", "first", "length"):
        c.need(n[k], "no TList::" + k)
    iters(c)
    for f in c.fns(r"%sTList\(\)" % T, [], floor=1):
        head = nrm(("fld", "TList", "head_", ("arg", 0)))
        for s in segs(f):
            m = final(memory(s)[0])
            c.ob("link", m.get(nx(head)) == head and m.get(pv(head)) == head, "init", f, "a new list's head does not point at itself both ways")


def only(s, r):
    """the two things the result says are equal"""
    if r and r[0] == "cmp" and r[1] == "eq":
        return {r[2], r[3]}
    return None


def length(c, f, head):
    ok = False
    for L in f.loops:
        its = [s for s in segs(f, first(f, L["header"])) if s.end[0] == "turn"]
        ent = {i.id: i for i in f.blocks[L["header"]] if i.op == "phi"}
        for cnt in ent:
            for cur in ent:
                if cnt == cur:
                    continue
                e = [s.end[2] for s in its]
                if not e:
                    continue
                if all(same(x[cnt], add(("phi", cnt), I(1))) for x in e) and (all(follow(x[cur], cur, nx) for x in e) or all(follow(x[cur], cur, pv) for x in e)):
                    i0 = inits(f, cnt)
                    p0 = inits(f, cur)
                    exits = [s for s in segs(f, first(f, L["header"])) if s.end[0] == "ret"]
                    at = lambda s, k: any(x[0] == "cmp" and x[1] == "eq" and {nrm(x[2]), nrm(x[3])} in ({head, k}, {head, ld(k)}) for x in s.F)
                    ok = i0 == {I(0)} and bool(p0) and bool(exits) and all(nrm(s.end[1]) == ("phi", cnt) for s in exits)
                    # the cursor is a pointer to a link or the link's target
                    ok = ok and all(at(s, ("phi", cur)) for s in exits) and p0 <= {nx(head), ld(nx(head)), pv(head), ld(pv(head))}
    c.ob("count", ok, "length", f, "the length is not one per element from the first to the head")


def follow(t, cur, step):
    t = nrm(t)
    k = ("phi", cur)
    return t in (step(ld(k)), ld(step(k)), ld(step(ld(k))), ld(k))


def first(f, b):
    return next(i for i in f.blocks[b] if i.op != "phi")


def inits(f, pid):
    i = f.ins[pid]
    r = set()
    for o, b in zip(i.ops, i.d["in"]):
        if not f.bdom(i.b, b):
            r.add(nrm(f.term(o)))
    return r


def iters(c):
    """iteration starts behind the head, steps along one direction and ends at the head"""
    head = ("fld", "TList", "head_", ("arg", 0))
    for f in c.fns(r"%s(begin|end|rbegin|rend|at)\(" % T, [], floor=1):
        nm = short(f.name).split("::")[-1].split("(")[0]
        want = {"begin": ld(nx(nrm(head))), "rbegin": ld(pv(nrm(head))), "end": nrm(head), "rend": nrm(head), "at": ("arg", 1)}[nm]
        for s in segs(f):
            c.ob("walk", s.end[0] == "ret" and s.end[1] is not None and nrm(s.end[1]) == want, nm, f, "the iterator does not start or stop where it should: %s" % show(s.end[1]))
    for f in c.fns(r"TList<tcmalloc::tcmalloc_internal::[A-Za-z]+>::R?Iter::operator(\+\+|--)\(", [], floor=1):
        back = ("RIter" in f.name) != ("operator--" in f.name)
        for s in segs(f):
            m = memory(s)[0]
            c.ob("walk", len(m) == 1 and m[0][1] == ld((pv if back else nx)(ld(m[0][0]))), "step", f, "the step does not follow the links in its direction")


# -- lists with a bitmap ------------------------------------------------------
def hinted(c):
    fs = {}
    for f in c.fns(r"^tcmalloc::tcmalloc_internal::%s(Add|Remove|Move|GetLeast|PeekLeast|SizeOfList|size|operator\[\])\(" % H, HA, floor=5):
        nm = short(f.name).split("::")[-1].split("(")[0]
        fs.setdefault(nm, []).append(f)
    for nm in ("Add", "Remove", "Move", "GetLeast", "PeekLeast", "size"):
        c.need(fs.get(nm), "no HintedTrackerLists::" + nm)
    for nm, L in fs.items():
        for f in L:
            for s in segs(f):
                if s.end[0] != "ret":
                    c.ob("bit", False, nm, f, "the operation loops")
                    continue
                one(c, f, s, nm)
    for f in c.fns(r"^void tcmalloc::tcmalloc_internal::HintedTrackerLists<tcmalloc::tcmalloc_internal::Span, [0-9]+ul>::Iter<", HA, floor=1):
        walk(c, f)


def listno(t):
    """the index of the list at an address"""
    t = nrm(t)
    while t[0] == "fld" and t[2] == "head_":
        t = t[3]
    if t[0] == "fld" and t[2] == "lists_" and t[3] == ("arg", 0):
        return I(0)
    if t[0] == "gep" and t[1][0] == "fld" and t[1][2] == "lists_" and t[1][3] == ("arg", 0) and t[2] % 16 == 0 and all(v % 16 == 0 for k, v in t[3]):
        return nrm(mk({**{k: v // 16 for k, v in t[3]}, 1: t[2] // 16}))
    return None


def size_delta(s):
    """the change of size_, None when not a constant"""
    out, val = memory(s)
    d = 0
    for a, v, i in out:
        if a[0] == "fld" and a[2] == "size_" and a[3] == ("arg", 0):
            e = add(v, ld(a), -1)
            if e[0] != "int":
                return None
            d = e[1]
        elif a[0] != "alloca" and not (a[0] in ("fld", "gep") and a[1] and a[1][0] == "alloca"):
            return None
    return d


def known(s, t):
    """what the path knows of a boolean"""
    for x in s.F:
        y, neg = x, False
        while y[0] == "not":
            neg, y = not neg, y[1]
        if nrm(y) == t:
            return not neg
        if y[0] == "cmp" and y[1] in ("eq", "ne") and y[3] == I(0) and nrm(y[2]) == t:
            return (y[1] == "ne") != neg
    return None


def one(c, f, s, nm):
    ev = []
    for i in s.ins:
        if i.op == "call":
            m = re.search(r"(TList|Bitmap)(?:<.*>)?::(\w+)$", i.cshort)
            if m:
                ev.append((m.group(2), [nrm(x) for x in s.args(i)], i))
            elif not re.search(r"llvm\.|^absl::|__builtin", i.cshort):
                c.ob("bit", False, nm, i, "an operation outside the lists: " + i.cshort)
    d = size_delta(s)
    r = nrm(s.end[1]) if s.end[1] else None
    N = int(re.search(r", ([0-9]+)ul>::", f.name).group(1))
    if nm == "size":
        c.ob("count", r == ld(("fld", "HintedTrackerLists", "size_", ("arg", 0))) and d == 0, nm, f, "size is not the element count")
        return
    if nm == "operator[]":
        c.ob("pick", r is not None and listno(r) == ("arg", 1), nm, f, "not the list asked for")
        return
    if nm == "SizeOfList":
        k = [e for e in ev if e[0] == "length"]
        c.ob("pick", len(k) == 1 and listno(k[0][1][0]) == ("arg", 1) and r is not None and r[0] == "call" and r[3] == k[0][2].id, nm, f, "not the length of the list asked for")
        return
    # state of each list's membership bit along the path
    gone, added = [], []
    for k, a, i in ev:
        if k == "remove":
            gone.append((listno(a[0]), a[1], i))
        elif k in ("prepend", "append"):
            added.append((listno(a[0]), a[1], i))
            c.ob("link", len(a) == 2, nm, i, "the element is not put at an end of the list")
    bits(c, f, s, nm, ev, gone, added)
    if nm == "Add":
        c.ob("link", not gone and [x[:2] for x in added] == [(("arg", 2), ("arg", 1))], nm, f, "the element is not put into its list exactly once")
        c.ob("count", d == 1, nm, f, "the size does not grow by one")
    elif nm == "Remove":
        c.ob("link", not added and [x[1] for x in gone] == [("arg", 1)] and gone[0][0] == ("arg", 2), nm, f, "the element is not taken from its list exactly once")
        c.ob("count", d == -1, nm, f, "the size does not shrink by one")
    elif nm == "Move":
        nop = not gone and not added and any(x[0] == "cmp" and x[1] == "eq" and {nrm(x[2]), nrm(x[3])} == {("arg", 2), ("arg", 3)} for x in s.F)
        c.ob("link", nop or [x[:2] for x in gone] == [(("arg", 2), ("arg", 1))] and [x[:2] for x in added] == [(("arg", 3), ("arg", 1))] and
             pos(s, gone[0][2]) < pos(s, added[0][2]), nm, f, "the element does not leave the one list and enter the other")
        c.ob("count", d == 0, nm, f, "the size changes")
    else:
        fd = [e for e in ev if e[0] == "FindSet"]
        if not fd:
            c.ob("pick", False, nm, f, "no search for a marked list")
            return
        c.ob("pick", len(fd) == 1 and fd[0][1][1] == ("arg", 1) and fd[0][1][0] == ("fld", "HintedTrackerLists", "nonempty_", ("arg", 0)), nm, fd[0][2], "the search does not start at the list asked for")
        i = nrm(("call", fd[0][2].cshort, tuple(s.args(fd[0][2])), fd[0][2].id))
        none = any(x[0] == "cmp" and (x[1] == "eq" and {nrm(x[2]), nrm(x[3])} == {i, I(N)} or x[1] in ("uge",) and nrm(x[2]) == i and nrm(x[3]) == I(N) or
                                      x[1] == "ule" and nrm(x[2]) == I(N) and nrm(x[3]) == i or x[1] == "ult" and nrm(x[2]) == I(N - 1) and nrm(x[3]) == i or x[1] == "ugt" and nrm(x[2]) == i and nrm(x[3]) == I(N - 1)) for x in s.F)
        some = any(x[0] == "cmp" and (x[1] == "ne" and {nrm(x[2]), nrm(x[3])} == {i, I(N)} or x[1] == "ult" and nrm(x[2]) == i and nrm(x[3]) == I(N) or
                                      x[1] == "ugt" and nrm(x[2]) == I(N) and nrm(x[3]) == i) for x in s.F)
        c.ob("pick", none or some, nm, f, "a search without a result is not told from one with one")
        pick = [e for e in ev if e[0] in ("first", "last")]
        res = r
        idx = None
        if nm == "PeekLeast":
            res, idx = parts(s, r)
            c.ob("link", not gone and not added and d == 0, nm, f, "looking changes the lists")
        if none:
            c.ob("pick", res in (("null",), I(0)) and not gone and not added and d == 0, nm + "-none", f, "without a marked list, something is returned or changed")
            if nm == "PeekLeast":
                c.ob("pick", idx in (i, I(N)), nm + "-none", f, "the index of nothing is not the end")
        else:
            ok = len(pick) == 1 and listno(pick[0][1][0]) == i
            c.ob("pick", ok and res is not None and res[0] == "call" and res[3] == pick[0][2].id, nm, f, "what is returned is not an element of the list found")
            if nm == "PeekLeast":
                c.ob("pick", idx == i, nm, f, "the index returned is not the one of the list found")
            else:
                c.ob("link", [x[0] for x in gone] == [i] and bool(ok) and gone[0][1][0] == "call" and gone[0][1][3] == pick[0][2].id and pos(s, pick[0][2]) < pos(s, gone[0][2]), nm, f, "the element returned is not taken from its list")
                c.ob("count", d == -1, nm, f, "the size does not shrink by one")


def parts(s, r):
    x = [None, None]
    while r is not None and r[0] == "insv":
        k = r[3][0]
        if x[k] is None:
            x[k] = r[2]
        r = r[1]
    if r is not None and r[0] == "phi":
        return None, None
    return x


def pos(s, i):
    return next(k for k, j in enumerate(s.ins) if j.id == i.id)


def bits(c, f, s, nm, ev, gone, added):
    """after every change of a list its bit says whether it has elements"""
    for k, a, i in ev:
        if k in ("SetBit", "ClearBit"):
            c.ob("bit", a[0] == ("fld", "HintedTrackerLists", "nonempty_", ("arg", 0)), nm, i, "another bitmap is changed")
    for n, e, i in gone:
        res = nrm(("call", i.cshort, tuple(s.args(i)), i.id))
        em = known(s, res)
        later = [x for x in ev if x[0] == "empty" and listno(x[1][0]) == n and pos(s, x[2]) > pos(s, i)]
        for x in later:
            v = known(s, nrm(("call", x[2].cshort, tuple(s.args(x[2])), x[2].id)))
            em = v if v is not None else em
        cl = [x for x in ev if x[0] == "ClearBit" and x[1][1] == n and pos(s, x[2]) > pos(s, i)]
        if em is True:
            c.ob("bit", len(cl) == 1, nm + "-last", i, "the list became empty and its bit stays set")
        elif em is False:
            c.ob("bit", not cl, nm + "-more", i, "the list has elements and its bit is cleared")
        else:
            c.ob("bit", False, nm + "-unknown", i, "the removal's result does not decide the bit")
    for n, e, i in added:
        st = [x for x in ev if x[0] == "SetBit" and x[1][1] == n]
        was = [x for x in ev if x[0] == "empty" and listno(x[1][0]) == n and pos(s, x[2]) < pos(s, i) and not [g for g in gone if pos(s, g[2]) > pos(s, x[2])]]
        nonempty = any(known(s, nrm(("call", x[2].cshort, tuple(s.args(x[2])), x[2].id))) is False for x in was)
        c.ob("bit", bool(st) or nonempty, nm + "-add", i, "the list has an element and its bit is not set")
        c.ob("bit", not [x for x in ev if x[0] == "ClearBit" and st and pos(s, x[2]) > pos(s, st[-1][2]) and x[1][1] in (n,)] , nm + "-add", i, "the bit is cleared after it was set")
        c.ob("bit", not [x for x in ev if x[0] == "ClearBit" and st and pos(s, x[2]) > pos(s, st[-1][2])], nm + "-order", i, "a bit is cleared after the list was marked, which may be the same one")
    known_ = {n for n, _, _ in gone}, {n for n, _, _ in added}
    for k, a, i in ev:
        if k == "ClearBit":
            c.ob("bit", a[1] in known_[0], nm + "-which", i, "the bit of another list is cleared")
        if k == "SetBit":
            c.ob("bit", a[1] in known_[1], nm + "-which", i, "the bit of another list is set")


def walk(c, f):
    """iteration visits the marked lists in order and each of their elements"""
    fs = [i for i in f.live("call") if "FindSet" in i.cshort]
    N = int(re.search(r", ([0-9]+)ul>::", f.name).group(1))
    first_ = [i for i in fs if not f.in_loop(i)]
    c.ob("pick", len(first_) == 1 and nrm(f.term(first_[0].ops[1])) == ("arg", 2), "iter-start", f, "the walk does not start at the first marked list from the one asked for")
    again = [i for i in fs if f.in_loop(i)]
    good = False
    for L in f.loops:
        for p in (i for i in f.blocks[L["header"]] if i.op == "phi"):
            st = inits(f, p.id)
            if not first_ or not any(t[0] == "call" and t[3] == first_[0].id for t in st):
                continue
            k = ("phi", p.id)
            T_ = [s for s in segs(f, first(f, L["header"])) if s.end[0] == "turn" and s.end[1] == L["header"]]
            # the turns of inner loops end elsewhere; those that come round go on behind
            nxt = set()
            for o, b in zip(p.ops, p.d["in"]):
                if f.bdom(p.b, b):
                    nxt |= leaves(f, o)
            ok = bool(nxt)
            for t in nxt:
                if t[0] == "call" and t[3] in [i.id for i in again]:
                    ok = ok and nrm(t[2][1]) == nrm(add(k, I(1)))
                else:
                    ok = ok and (t[0] == "int" and t[1] >= N or same(t, add(k, I(1))))
            c.ob("pick", ok, "iter-next", f, "the walk does not go on behind the list it just visited")
            good = True
            # stays in the loop exactly below N
            out = [x for b in L["blocks"] for s2 in f.succ[b] if s2 not in L["blocks"] and s2 not in f.crash for x in f.edge_facts(b, s2)]
            c.ob("pick", any(x[0] == "cmp" and nrm(x[2]) == k and x[1] in ("uge", "eq") and x[3] == I(N) or x[0] == "cmp" and x[1] == "ult" and x[3] == k and x[2] == I(N - 1) or
                             x[0] == "cmp" and x[1] in ("ugt", "ult", "ule", "uge", "eq") and k in (nrm(x[2]), nrm(x[3])) and (x[2][0] == "int" or x[3][0] == "int") and
                             holds_end(x, k, N) for x in out), "iter-end", f, "the walk does not end behind the last list")
            # the visited list is the one found
            seen = [i for b in L["blocks"] for i in f.blocks[b] if i.op in ("load", "call") and uses_list(f, i, k)]
            c.ob("pick", bool(seen), "iter-list", f, "the list found is not the one visited")
            break
    c.ob("pick", good, "iter", f, "no walk over the marked lists")


def holds_end(x, k, N):
    """the exit condition holds at N and not below"""
    def ev(v):
        a, b = (v if nrm(x[2]) == k else x[2][1] if x[2][0] == "int" else None), (v if nrm(x[3]) == k else x[3][1] if x[3][0] == "int" else None)
        if a is None or b is None:
            return None
        return {"eq": a == b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[x[1]]
    return ev(N) is True and all(ev(v) is False for v in range(N))


def leaves(f, o, seen=None):
    seen = set() if seen is None else seen
    t = nrm(f.term(o))
    if t[0] == "phi" and t[1] not in seen:
        seen.add(t[1])
        r = set()
        for x in f.ins[t[1]].ops:
            r |= leaves(f, x, seen)
        return r
    if t[0] == "select":
        return {t[2], t[3]}
    return {t}


def uses_list(f, i, k):
    for o in i.ops:
        for t in subterms(nrm(f.term(o))):
            if isinstance(t, tuple) and t and t[0] == "gep" and listno(t) == k:
                return True
    return False


# -- singly linked ------------------------------------------------------------
def stacks(c):
    """the list word and the length are two fields of the stack, found by
    what Push does to them"""
    fs = {}
    for f in c.fns(r"^tcmalloc::tcmalloc_internal::LinkedList::(Push|TryPop|PushBatch|PopBatch|length|empty)\(", [], floor=4):
        fs.setdefault(short(f.name).split("::")[-1].split("(")[0], []).append(f)
    for nm in ("Push", "TryPop", "PushBatch", "PopBatch", "length", "empty"):
        c.need(fs.get(nm), "no LinkedList::" + nm)
    LI = CN = None
    f = fs["Push"][0]
    for s in segs(f):
        m = final(memory(s)[0])
        li = [k for k, v in m.items() if v == ("arg", 1)]
        c.ob("stack", len(li) == 1 and m.get(("arg", 1)) == ld(li[0]), "push", f, "the element does not become the top with the old top behind it")
        LI = li[0] if li else None
        cn = [k for k, v in m.items() if same(v, add(ld(k), I(1)))]
        c.ob("count", len(cn) == 1 and len(m) == 3, "push", f, "the length does not grow by one")
        CN = cn[0] if cn else None
    if LI is None or CN is None:
        return
    f = fs["TryPop"][0]
    for s in segs(f):
        m = final(memory(s)[0])
        r = s.end[1]
        if r[0] == "cmp" and r in s.F:
            r = I(1)
        elif r[0] == "cmp" and f.neg(r) in s.F:
            r = I(0)
        empty = any(x[0] == "cmp" and x[1] == "eq" and nrm(x[2]) == ld(LI) and x[3] in (("null",), I(0)) for x in s.F)
        some = any(x[0] == "cmp" and x[1] == "ne" and nrm(x[2]) == ld(LI) and x[3] in (("null",), I(0)) for x in s.F)
        if r == I(0):
            c.ob("stack", empty and not m, "trypop-none", f, "a stack with elements gives out none, or an empty one changes")
        else:
            c.ob("stack", some and r in (I(1), I(-1)) and m.get(("arg", 1)) == ld(LI) and m.get(LI) == ld(ld(LI)), "trypop", f, "the top is not given out with the next one left as top")
            c.ob("count", len(m) == 3 and CN in m and same(m[CN], add(ld(CN), I(-1))), "trypop", f, "the length does not shrink by one")
    for f in fs["length"]:
        for s in segs(f):
            c.ob("count", nrm(s.end[1]) == ld(CN), "length", f, "not the number of elements")
    for f in fs["empty"]:
        for s in segs(f):
            r = nrm(s.end[1])
            c.ob("stack", r[0] == "cmp" and r[1] == "eq" and r[2] in (ld(LI), ld(CN)) and r[3] in (("null",), I(0)), "empty", f, "not whether the stack has no element")
    for f in fs["PopBatch"]:
        popb(c, f, LI, CN)
    for f in fs["PushBatch"]:
        pushb(c, f, LI, CN)


def slot(a, base):
    """the index of an 8-byte slot of an array"""
    if a == base:
        return I(0)
    if a[0] == "gep" and a[1] == base and a[2] % 8 == 0 and all(v % 8 == 0 for k, v in a[3]):
        return mk({**{k: v // 8 for k, v in a[3]}, 1: a[2] // 8})
    return None


def popb(c, f, LI, CN):
    L = f.loops[0] if len(f.loops) == 1 else None
    if not L:
        c.ob("stack", False, "popbatch", f, "not one loop over the batch")
        return
    ph = [i.id for i in f.blocks[L["header"]] if i.op == "phi"]
    its = [s for s in segs(f, first(f, L["header"])) if s.end[0] == "turn"]
    ok = bool(its)
    cur = idx = None
    for s in its:
        out, val = memory(s)
        st = [(slot(a, ("arg", 2)), v) for a, v, i in out]
        ok = ok and len(st) == 1 and st[0][0] is not None
        if not ok:
            break
        k, v = st[0]
        e = {p: nrm(t) for p, t in s.end[2].items()}
        # the counter and the cursor; the cursor may be the link or the address it is read from
        cand = [p for p in ph if same(e.get(p, I(0)), add(("phi", p), I(1)))]
        idx = next((p for p in cand if same(k, ("phi", p))), None)
        cur = next((p for p in ph if v in (("phi", p), ld(("phi", p))) and e.get(p) in (ld(("phi", p)),)), None)
        ok = ok and idx is not None and cur is not None
    c.ob("stack", ok, "popbatch", f, "not every slot of the batch gets the next element")
    if not ok:
        return
    byaddr = any(v == ld(("phi", cur)) for s in its for a, v, i in memory(s)[0])
    c.ob("stack", inits(f, cur) == {LI if byaddr else ld(LI)} and inits(f, idx) == {I(0)}, "popbatch-start", f, "the batch does not start with the top")
    for s in segs(f, first(f, L["header"])):
        if s.end[0] != "ret":
            continue
        m = final(memory(s)[0])
        c.ob("stack", m.get(LI) == (ld(("phi", cur)) if byaddr else ("phi", cur)), "popbatch-rest", f, "the top left is not the element behind the batch")
        c.ob("count", CN in m and same(m[CN], add(ld(CN), ("arg", 1), -1)) and len(m) == 2, "popbatch", f, "the length does not shrink by the batch")
        c.ob("stack", ended(s, ("phi", idx), ("arg", 1)), "popbatch-all", f, "not all slots of the batch are filled")


def ended(s, i, n):
    return any(x[0] == "cmp" and (x[1] in ("sle", "ule") and nrm(x[2]) == n and nrm(x[3]) == i or x[1] in ("sge", "uge") and nrm(x[2]) == i and nrm(x[3]) == n or
                                  x[1] == "eq" and {nrm(x[2]), nrm(x[3])} == {i, n}) for x in s.F)


def pushb(c, f, LI, CN):
    L = f.loops[0] if len(f.loops) == 1 else None
    if not L:
        c.ob("stack", False, "pushbatch", f, "not one loop over the batch")
        return
    ph = [i.id for i in f.blocks[L["header"]] if i.op == "phi"]
    its = [s for s in segs(f, first(f, L["header"])) if s.end[0] == "turn"]
    el = lambda k: ld(nrm(("gep", ("arg", 2), k.get(1, 0) * 8, tuple((q, v * 8) for q, v in k.items() if q != 1))))
    ok = bool(its)
    idx = None
    down = False
    for s in its:
        out, val = memory(s)
        cand = [p for p in ph if same(s.end[2].get(p, I(0)), add(("phi", p), I(1)))]
        ok = ok and len(out) == 1
        if not ok:
            break
        a, v, _ = out[0]
        hit = None
        for p in cand:
            for o in (0, -1):
                if a == at(add(("phi", p), I(o))) and v == at(add(("phi", p), I(o + 1))):
                    hit = (p, o)
        ok = ok and hit is not None
        idx = hit
    c.ob("stack", ok, "pushbatch", f, "an element of the batch does not point at the next")
    if not ok:
        return
    p, o = idx
    c.ob("stack", inits(f, p) == {I(-o)}, "pushbatch-start", f, "the first element is not linked")
    n1 = add(("arg", 1), I(-1))
    for s in segs(f, first(f, L["header"])):
        if s.end[0] != "ret":
            continue
        m = final(memory(s)[0])
        c.ob("stack", m.get(LI) == at(I(0)), "pushbatch-top", f, "the first element does not become the top")
        c.ob("stack", m.get(at(n1)) == ld(LI), "pushbatch-rest", f, "the last element does not point at the old top")
        c.ob("count", CN in m and same(m[CN], add(ld(CN), ("arg", 1))) and len(m) == 3, "pushbatch", f, "the length does not grow by the batch")
        c.ob("stack", ended(s, ("phi", p), nrm(add(n1, I(-o)))), "pushbatch-all", f, "not all elements of the batch are linked")


def at(k):
    a = alin(nrm(k))
    q = tuple(sorted(((x, v * 8) for x, v in a.items() if x != 1), key=repr))
    b = ("arg", 2)
    return ld(b if not q and not a.get(1) else ("gep", b, a.get(1, 0) * 8, q))
