"""Acyclic path segments of a function: from a point to the next return or
loop turn, with phis resolved along the way, facts and events in order."""
import re
from lib import subst, refold, contradictory, lin_of
from ir import short


class Seg:
    __slots__ = ("ins", "F", "env", "end", "f", "blocks")

    def t(self, o):
        """an operand's term on this path"""
        return fold(subst(self.f.term(o), self.env))

    def term(self, t):
        return fold(subst(t, self.env))

    def calls(self, rx):
        return [i for i in self.ins if i.op == "call" and re.search(rx, i.cshort)]

    def args(self, i):
        return [self.t(o) for o in i.ops]

    def has(self, fact):
        return fact in self.F


def fold(t):
    """comparisons refolded after substitution, at any depth of selects"""
    if isinstance(t, tuple) and t and t[0] in ("cmp", "not"):
        return refold(t)
    return t


def truth(t):
    if t == ("int", 0):
        return False
    if t in (("int", 1), ("int", -1)):
        return True
    if isinstance(t, tuple) and t and t[0] == "cmp":
        a, b = t[2], t[3]
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            m = (1 << 64) - 1
            return {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                    "ult": x & m < y & m, "ule": x & m <= y & m, "ugt": x & m > y & m, "uge": x & m >= y & m}.get(t[1])
        if a == b:
            return t[1] in ("eq", "sle", "sge", "ule", "uge")
        # a loaded or returned pointer compared with the null it was found to be
    return None


def assume(f, F, facts):
    """F extended by facts, or None when they cannot hold together"""
    out = set(F)
    todo = list(facts)
    while todo:
        x = fold(todo.pop())
        neg = False
        y = x
        while y[0] == "not":
            neg, y = not neg, y[1]
        v = truth(y)
        if v is not None:
            if v == neg:
                return None
            continue
        if x[0] != "cmp":
            s = f.split(y, not neg)
            if s != {x} and s:
                todo += list(s)
                continue
        if f.neg(x) in out:
            return None
        out.add(x)
    if contradictory(out):
        return None
    return out


def segs(f, start=None, stop=(), limit=6000, within=None):
    """Paths from an instruction (or the entry) to a return, a loop turn
    (the edge back to a header already on the path, or to the header of the
    loop the start lies in) or a block in stop.  Loop headers entered from
    outside keep their phis opaque."""
    stop = set(stop)
    heads = {L["header"]: set(L["blocks"]) for L in f.loops}
    b0 = start.b if start is not None else 0
    around = {h for h, m in heads.items() if b0 in m}
    out = []
    n = [0]

    def finish(ins, F, env, blocks, end):
        s = Seg()
        s.ins, s.F, s.env, s.end, s.f, s.blocks = ins, frozenset(F), env, end, f, blocks
        out.append(s)

    def go(b, ins, F, env, blocks):
        n[0] += 1
        if n[0] > limit:
            raise RuntimeError("too many paths in " + short(f.name))
        L = f.blocks[b]
        body = [i for i in L if i.op != "phi"]
        if not blocks and start is not None:
            k = next(k for k, i in enumerate(body) if i.id == start.id) if start.op != "phi" else 0
            body = body[k:]
        ins = ins + body
        blocks = blocks + [b]
        last = L[-1]
        if not f.succ[b]:
            if last.op == "ret":
                finish(ins, F, env, blocks, ("ret", fold(subst(f.term(last.ops[0]), env)) if last.ops else None))
            return
        for s in dict.fromkeys(f.succ[b]):
            if s in f.crash:
                continue
            for alt in f.edge_alts(b, s):
                G = assume(f, F, [subst(x, env) for x in alt])
                if G is None:
                    continue
                new = {}
                for i in f.blocks[s]:
                    if i.op != "phi":
                        break
                    for o, pb in zip(i.ops, i.d["in"]):
                        if pb == b:
                            new[i.id] = fold(subst(f.term(o), env))
                if s in blocks or s in around and b0 != s or s in around and s == b0:
                    finish(ins, G, env, blocks, ("turn", s, new))
                    continue
                if s in stop:
                    finish(ins, G, {**env, **new}, blocks, ("stop", s, new))
                    continue
                if s in heads:
                    go(s, ins, G, env, blocks)
                else:
                    go(s, ins, G, {**env, **new}, blocks)
    go(b0, [], frozenset(), {}, [])
    return out
