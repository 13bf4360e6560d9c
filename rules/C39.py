"""Metadata arena: every grant is aligned, inside the current area, and handed out once."""
from tcm import *
from lib import _, effects, inc, at_field, same_lin, unspill, aligner, loadof, iterations, lock_named
from C05 import n_

T = "tcmalloc/arena.cc"
D = "drivers/d_tmpl.cc"
ANC = ["Arena::AllocSlow", "Arena::StashRemainingFreeArea", "Arena::TryPopFromFreelist", "^absl::", "SpinLock::", "SystemAllocator", "Parameters::"]
LOCK = "arg0->arena_lock_"


def run(c):
    c.rule("grant", "a grant starts at the first aligned address of the current area, ends inside it and is carved off it")
    c.rule("account", "every byte of the area is either granted, available, stashed or counted as unavailable")
    c.rule("refill", "a new area is large enough for the request and properly obtained")
    c.rule("objects", "an object allocator hands out each free object once and counts what it handed out")
    c.rule("locked", "shared state changes only under its lock")
    for f in c.fns(r"Arena::Alloc\(", ANC, tu=T, floor=1):
        alloc(c, f)
    for f in c.fns(r"Arena::StashRemainingFreeArea\(", ANC[1:], tu=T, floor=1):
        stash(c, f)
    for f in c.fns(r"Arena::TryPopFromFreelist\(", ANC[2:], tu=T, floor=1):
        pop(c, f)
    for f in c.fns(r"Arena::AllocSlow\(", ANC[1:], tu=T, floor=1):
        slow(c, f)
    stats(c)
    objects(c)


def grows(S, w, by, sign=1):
    """The write adds sign*by to the field."""
    if w is None:
        return False
    d = inc(w.val, w.addr)
    if d is None:
        return False
    return same_lin(S, d, {k: sign * v for k, v in (by if isinstance(by, dict) else alin(by)).items()})


def alloc(c, f):
    P, E = effects(f, locks=True, more=lambda i: "slow" if i.op == "call" and re.search("AllocSlow", i.cshort) else None)
    n, a = ("arg", 1), ("arg", 2)
    for i in sites(f, "Arena::AllocSlow"):
        for S in P.at(i):
            c.ob("locked", ("held", LOCK) in S, "slow", i, "refills without the lock")
        c.ob("grant", args(f, i)[1:3] == [n, a], "slow-args", i, "refills for another request")
    ws = list(writes(f))
    for w in ws:
        for S in P.at(w.ins):
            c.ob("locked", ("held", LOCK) in S, "store", w.ins, "the arena changes without its lock")
    for t, S, e in E:
        c.ob("locked", not held(S), "freed", f, "returns with a lock held")
        pos, av, got = at_field(e, "free_area_"), at_field(e, "free_avail_"), at_field(e, "bytes_allocated_")
        if not (pos and av and got):
            c.ob("grant", False, "carved", f, "the grant is not carved off the area")
            continue
        d = inc(av.val, av.addr)
        base = next((x for x in subterms(pos.val) if x[0] == "load" and loadof(x, "free_area_")), None)
        if d is None or base is None:
            c.ob("grant", False, "carved", f, "the grant is not carved off the area")
            continue
        used = {k: -v for k, v in d.items()}          # pad + n
        pad = ladd(used, alin(n), -1)
        c.ob("grant", aligner(S, pad, base, a), "aligned", f, "the padding does not reach the alignment: %s" % pad)
        off = lambda v: (alin_from(v, base))
        c.ob("grant", off(pos.val) is not None and same_lin(S, off(pos.val), used), "cursor", f, "the area advances by something else than it loses")
        c.ob("grant", off(t) is not None and same_lin(S, off(t), pad), "result", f, "the result is not the aligned start")
        c.ob("account", grows(S, got, used), "allocated", f, "bytes allocated are not what the area lost")
        if n_(P, S, "slow") == 0:
            c.ob("grant", fits(S, used), "fits", f, "the grant can run past the area's end")
        else:
            c.ob("grant", n_(P, S, "slow") == 1, "once", f, "refills twice")
    for i in sites(f, "Arena::AllocSlow"):
        for S in P.at(i):
            c.ob("grant", any(x[0] == "cmp" and x[1] in ("ult", "ugt") and any(loadof(y, "free_avail_") for y in x[2:]) for x in S), "needed", i, "drops an area that could serve the request")


def alin_from(v, base):
    """v - base as a linear map."""
    if v == base:
        return {}
    if v[0] == "gep" and v[1] == base:
        acc = {1: v[2]} if v[2] else {}
        for k, w in v[3]:
            acc = ladd(acc, alin(k), w)
        return acc
    if v[0] == "fld" or v[0] == "gep":
        return None
    a = alin(v)
    if a.get(base) == 1:
        return ladd(a, {base: 1}, -1)
    return None


def fits(S, used):
    """used <= free_avail_ as tested on the path."""
    for x in S:
        if x[0] != "cmp":
            continue
        for p, l, r in ((x[1], x[2], x[3]), (SWAP.get(x[1]), x[3], x[2])):
            if p in ("uge", "ugt") and loadof(l, "free_avail_") and same_lin(S, alin(r), used):
                return True
    return False


def stash(c, f):
    P, E = effects(f)
    for t, S, e in E:
        av = next((x for s in S if s[0] == "cmp" for x in subterms(s) if loadof(x, "free_avail_")), None)
        area, left = at_field(e, "free_area_"), at_field(e, "free_avail_")
        c.ob("account", area is not None and area.val[0] == "null" and left is not None and left.val == ("int", 0), "dropped", f, "the stashed area stays in use")
        un = at_field(e, "bytes_unavailable_")
        d = inc(un.val, un.addr) if un else {}
        size, head, cnt, fb = (at_field(e, x) for x in ("size", "freelist_", "freelist_blocks_", "freelist_bytes_unallocated_"))
        avail = lambda m: next((k for k in m if k != 1 and loadof(k, "free_avail_")), None)
        if head is None:
            c.ob("account", d is not None and len(d) == 1 and avail(d) and d[avail(d)] == 1, "lost", f, "a discarded area is not counted as unavailable")
            c.ob("account", cnt is None and fb is None and size is None, "lost-list", f, "a discarded area is counted as listed")
            continue
        if size is None or d is None:
            c.ob("account", False, "block", f, "the stashed block is not sized")
            continue
        sz = alin(size.val)
        k = avail(sz)
        c.ob("account", k is not None and sz[k] == 1 and same_lin(S, ladd(sz, d), {k: 1}), "split", f, "padding and block do not add up to the area")
        c.ob("account", grows(S, fb, sz), "listed-bytes", f, "listed bytes do not grow by the block's size")
        c.ob("account", grows(S, cnt, {1: 1}), "listed-blocks", f, "the number of listed blocks does not grow by one")
        nx = at_field(e, "next")
        c.ob("account", nx is not None and loadof(nx.val, "freelist_"), "chain", f, "the rest of the list is lost")
        b = head.val
        c.ob("account", field(size.addr)[2] == b and nx is not None and field(nx.addr)[2] == b, "block-place", f, "the block is written elsewhere than listed")
        base = next((x for x in subterms(b) if loadof(x, "free_area_")), None)
        off = alin_from(b, base) if base else None
        c.ob("account", off is not None and same_lin(S, off, d) and aligner(S, off, base, ("int", 8)), "block-start", f, "the block does not start at the area's first aligned address")
        roomy = False
        for x in S:
            if x[0] == "cmp":
                for p, l, r in ((x[1], x[2], x[3]), (SWAP.get(x[1]), x[3], x[2])):
                    if p in ("uge", "ugt") and loadof(l, "free_avail_"):
                        q = ladd(alin(r), d, -1)
                        roomy = roomy or any(same_lin(S, q, {1: m}) for m in range(16, 257, 8))
        c.ob("account", roomy, "room", f, "a block is made of an area that cannot hold it")
        c.ob("account", any(x[0] == "cmp" and x[1] in ("ult", "ule", "ne", "ugt", "uge") and any(loadof(y, "freelist_blocks_") for y in x[2:]) for x in S), "cap", f, "the 8-bit block count is not capped")
        for x in S:
            if x[0] == "cmp" and x[1] in ("ult", "ule") and loadof(x[2], "freelist_blocks_"):
                c.ob("account", x[3][0] == "int" and x[3][1] + (x[1] == "ule") <= 255, "cap-value", f, "the cap exceeds the 8-bit block count")


def pop(c, f):
    P, E = effects(f)
    n, a = ("arg", 1), ("arg", 2)
    for t, S, e in E:
        cnt, fb = at_field(e, "freelist_blocks_"), at_field(e, "freelist_bytes_unallocated_")
        if t[0] == "null" or entails(S, Fn.mkcmp("eq", t, ("null",))):
            c.ob("account", not e, "none", f, "nothing is found but the list changes")
            continue
        size = lambda x: loadof(x, "size") and field(x[1])[2] == t
        ok = False
        for x in S:
            if x[0] == "cmp":
                for p, l, r in ((x[1], x[2], x[3]), (SWAP.get(x[1]), x[3], x[2])):
                    if p in ("uge", "ugt") and size(l):
                        pad = ladd(alin(r), alin(n), -1)
                        ok = ok or aligner(S, pad, t, a)
        c.ob("grant", ok, "pop-fits", f, "a block is chosen that need not hold the aligned request")
        c.ob("account", grows(S, cnt, {1: -1}), "pop-count", f, "the block count does not drop by one")
        d = inc(fb.val, fb.addr) if fb else None
        c.ob("account", d is not None and len(d) == 1 and [v for v in d.values()] == [-1] and size(list(d)[0]), "pop-bytes", f, "listed bytes do not drop by the block's size")
        un = [w for w in e.values() if loadof(w.val, "next") and field(w.val[1])[2] == t]
        c.ob("account", len(un) == 1, "unlink", f, "the block is not unlinked")
        for w in un:
            x = field(w.addr)
            if x and x[1] == "freelist_":
                prev = [s for s in S if s[0] == "cmp" and s[1] == "eq" and s[2][0] == "phi" and s[3][0] == "null"]
                c.ob("account", bool(prev) or any(s[0] == "cmp" and s[1] == "eq" and t in s[2:] and any(loadof(y, "freelist_") for y in s[2:]) for s in S), "unlink-head", f, "the list's head is replaced though another block is taken")
            else:
                c.ob("account", x is not None and x[1] == "next" or w.addr[0] == "phi", "unlink-mid", f, "unlinks into " + show(w.addr)[:60])
    # prev is the block before cur
    for L in f.loops:
        h = L["header"]
        ph = [i for i in f.blocks[h] if i.op == "phi" and i.ty == "ptr"]
        for w in writes(f):
            b = field(w.addr)
            if b and b[1] == "next" and b[2][0] == "phi" and any(i.id == b[2][1] for i in ph):
                prev = b[2]
                for ins, F, nx in iterations(f, h):
                    nv = nx.get(prev[1])
                    cur = [nx[i.id] for i in ph if i.id != prev[1] and i.id in nx]
                    c.ob("account", nv is not None and any(contains(cv, nv) for cv in cur), "prev", f, "the predecessor does not follow the walk: %s %s" % (show(nv), [show(x) for x in cur]))


def slow(c, f):
    pick = lambda i: "stash" if i.op == "call" and "StashRemaining" in i.cshort else "pop" if i.op == "call" and "TryPop" in i.cshort else "sys" if i.op == "call" and "SystemAllocator::Allocate" in i.cshort else None
    P, E = effects(f, more=pick)
    n, a = ("arg", 1), ("arg", 2)
    u = lambda t: unspill(f, t)
    for i in sites(f, "TryPopFromFreelist"):
        x = [u(t) for t in args(f, i)]
        c.ob("refill", x[1:3] == [n, a], "pop-args", i, "looks for a block for another request")
    for i in sites(f, "SystemAllocator::Allocate"):
        x = [u(t) for t in args(f, i)]
        for S in P.at(i):
            S = frozenset(u(s) for s in S)
            for v, F in cases(f, x[1], S):
                c.ob("refill", v == n or entails(F, Fn.mkcmp("uge", v, n)), "size", i, "asks for less than the request")
            for v, F in cases(f, x[2], S):
                c.ob("refill", v == a or entails(F, Fn.mkcmp("uge", v, a)), "align", i, "asks for less alignment than the request")
                c.ob("refill", v == a or v[0] == "int" and v[1] >= 4096 and v[1] & (v[1] - 1) == 0, "align-pow2", i, "asks for alignment %s" % show(v))
        c.ob("refill", x[3] == ("int", 3), "tag", i, "metadata comes from an address range of other memory")
    for t, S, e in E:
        c.ob("account", n_(P, S, "stash") == 1, "stash", f, "the old area is dropped without a trace")
        area, av, bl = at_field(e, "free_area_"), at_field(e, "free_avail_"), at_field(e, "blocks_")
        if not area or not av:
            c.ob("refill", False, "new", f, "returns without a new area")
            continue
        if n_(P, S, "sys"):
            c.ob("refill", area.val[0] == "ext" and area.val[2] == (0,) and av.val == ("ext", area.val[1], (1,)) and "SystemAllocator" in show(area.val), "sys", f, "the area is not what the system gave")
            ok = any(entails(S, Fn.mkcmp("ne", x, ("null",))) for x in (area.val, ("load", area.addr, 0)) ) or any(s[0] == "cmp" and s[1] == "ne" and s[3][0] == "null" and (loadof(s[2], "free_area_") or s[2] == area.val) for s in S)
            c.ob("refill", ok, "null", f, "a failed system allocation is used")
            c.ob("account", grows(S, bl, {1: 1}), "blocks", f, "blocks are not counted")
        else:
            c.ob("refill", area.val[0] == "call" and "TryPop" in show(area.val) and entails(S, Fn.mkcmp("ne", area.val, ("null",))), "popped", f, "the area is not the popped block")
            c.ob("refill", loadof(av.val, "size") and field(av.val[1])[2] == area.val, "popped-size", f, "the area's length is not the block's")
            c.ob("account", bl is None, "blocks", f, "a reused block counts as a new one")
    for i in sites(f, "TryPopFromFreelist"):
        for S in P.at(i):
            c.ob("account", n_(P, S, "stash") == 1, "stash-first", i, "a block is taken before the old area is stashed")


def stats(c):
    for f in c.fns("DrvArenaStats", ["^absl::", "SpinLock::"], tu=D, floor=1):
        P, E = effects(f, locks=True)
        want = {"bytes_allocated": ["bytes_allocated_"], "bytes_unallocated": ["free_avail_", "freelist_bytes_unallocated_"], "bytes_unavailable": ["bytes_unavailable_"],
                "bytes_nonresident": ["bytes_nonresident_"], "blocks": ["blocks_"], "freelist_blocks": ["freelist_blocks_"]}
        for t, S, e in E:
            for k, v in want.items():
                w = at_field(e, k)
                m = alin(w.val) if w else {}
                c.ob("account", sorted(field(x[1])[1] for x in m if x != 1 and x[0] == "load" and field(x[1])) == sorted(v) and all(y == 1 for y in m.values()) and len(m) == len(v), "stats-" + k, f, "reports something else as %s" % k)
            for w in e.values():
                c.ob("locked", all(("held", "arg1->arena_lock_") in Z for Z in P.at(w.ins)), "stats", w.ins, "statistics read without the lock")
    for f in c.fns("DrvArenaUpdate", ["^absl::", "SpinLock::"], tu=D, floor=1):
        P, E = effects(f, locks=True)
        for t, S, e in E:
            for k, v in (("bytes_allocated_", 1), ("bytes_nonresident_", 2)):
                c.ob("account", grows(S, at_field(e, k), ("arg", v)), "update-" + k, f, "does not add the given change to %s" % k)
            c.ob("account", len(e) == 2, "update", f, "changes something else")
            for w in e.values():
                c.ob("locked", all(("held", LOCK) in Z for Z in P.at(w.ins)), "update", w.ins, "changes without the lock")


def objects(c):
    M = "arg0->metadata_lock_"
    R = r"MetadataObjectAllocator<.*>::"
    AN = ["Arena::Alloc", "^absl::", "SpinLock::"]
    for f in c.fns([R + r"LockAndAllocMemory\(", "DrvNew"], AN, tu=D, floor=1):
        P, E = effects(f, locks=True, more=lambda i: "arena" if i.op == "call" and "Arena::Alloc" in i.cshort else None)
        for t, S, e in E:
            u, tot, fl = (at_field(e, x) for x in ("in_use", "total", "free_list_"))
            c.ob("objects", grows(S, u, {1: 1}), "in-use", f, "an object handed out is not counted")
            c.ob("locked", not held(S), "freed", f, "returns with a lock held")
            if n_(P, S, "arena"):
                c.ob("objects", n_(P, S, "arena") == 1 and t[0] == "call" and "Arena::Alloc" in show(t), "fresh", f, "the fresh object is not the arena's")
                c.ob("objects", grows(S, tot, {1: 1}) and fl is None, "fresh-count", f, "a fresh object is not counted once")
            else:
                c.ob("objects", loadof(t, "free_list_") and entails(S, Fn.mkcmp("ne", t, ("null",))), "reuse", f, "the reused object is not the free list's first")
                c.ob("objects", fl is not None and fl.val == ("load", t, fl.val[2]) if fl and fl.val[0] == "load" else False, "reuse-next", f, "the reused object stays on the free list")
                c.ob("objects", tot is None, "reuse-count", f, "a reused object is counted as new")
        for w in writes(f):
            x = field(w.addr)
            if x and x[1] in ("in_use", "total", "free_list_"):
                c.ob("locked", all(("held", M) in Z for Z in P.at(w.ins)), x[1], w.ins, "changes without the lock")
        for i in sites(f, "Arena::Alloc"):
            x = args(f, i)
            if "DrvNew" in f.name:
                need = [args(f, m)[2] for m in f.live("call") if "memset" in m.cshort and args(f, m)[2][0] == "int"]
                c.ob("objects", x[1][0] == "int" and x[2][0] == "int" and x[2][1] >= 8 and all(x[1][1] >= m[1] for m in need), "size", i, "asks the arena for %s bytes" % show(x[1]))
            else:
                c.ob("objects", x[1:3] == [("arg", 1), ("arg", 2)], "request", i, "asks the arena for another size or alignment")
    for f in c.fns(R + r"(LockAndDeleteMemory|Delete)\(", AN, tu=D, floor=2):
        P, E = effects(f, locks=True)
        for t, S, e in E:
            u, tot, fl = (at_field(e, x) for x in ("in_use", "total", "free_list_"))
            c.ob("objects", grows(S, u, {1: -1}), "deleted", f, "an object given back is not counted")
            c.ob("objects", fl is not None and fl.val == ("arg", 1), "deleted-head", f, "the object does not join the free list")
            nx = e.get(("arg", 1))
            c.ob("objects", nx is not None and loadof(nx.val, "free_list_"), "deleted-next", f, "the rest of the free list is lost")
            c.ob("objects", tot is None, "deleted-total", f, "the total changes")
            c.ob("locked", not held(S), "freed", f, "returns with a lock held")
        for w in writes(f):
            c.ob("locked", all(("held", M) in Z for Z in P.at(w.ins)), "delete", w.ins, "changes without the lock")
    for f in c.fns(R + r"stats\(", AN, tu=D, floor=1):
        for r in f.rets:
            for (a, b), S in structs(f, PF(f), r):
                c.ob("objects", a[0] == "load" and show(a[1]).endswith("arg0->stats_") or loadof(a, "in_use"), "stats", r, "in_use reports " + show(a))
                c.ob("objects", b[0] == "load" and show(b[1]) in ("&arg0->stats_[8]", "arg0->stats_->total"), "stats", r, "total reports " + show(b))
