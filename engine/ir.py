"""Query layer over the canonical SSA control-flow graphs dumped by irx.

Everything here is classical static analysis: dominance, must/may dataflow over
CFG edges, value numbering of SSA terms.  There is no solver and no execution.
"""
import re, functools
from collections import defaultdict, deque


def strip_targs(s):
    """Drops template argument lists and parameter lists from a demangled name."""
    out, d, i = [], 0, 0
    while i < len(s):
        if s.startswith("operator", i) and d == 0:
            j = i + 8
            for op in ("<<=", ">>=", "<=>", "->*", "<<", ">>", "<=", ">=", "->",
                       "()", "<", ">"):
                if s.startswith(op, j):
                    out.append("operator" + op)
                    i = j + len(op)
                    break
            else:
                out.append("operator")
                i = j
            continue
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">":
            if d > 0:
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


@functools.lru_cache(maxsize=None)
def short(name):
    """Qualified function name without return type, parameters, template args
    and the tcmalloc/absl/std namespaces."""
    s = name.replace("(anonymous namespace)", "anon")
    s = s.replace("'lambda'", "lambda")
    s = strip_targs(s)
    # cut parameter list: first '(' at depth 0 not part of operator()
    k = s.find("(")
    while k >= 0 and s[max(0, k - 8):k] == "operator":
        k = s.find("(", k + 2)
    if k >= 0:
        s = s[:k]
    s = s.strip()
    if " " in s and "operator" not in s:
        s = s.split(" ")[-1]
    elif "operator" in s:
        pre, _, post = s.partition("operator")
        s = pre.split(" ")[-1] + "operator" + post
    for ns in ("tcmalloc::tcmalloc_internal::", "tcmalloc::", "tcmalloc_internal::"):
        s = s.replace(ns, "")
    s = re.sub(r"absl::(debian\d+|lts_\d+)::", "absl::", s)
    s = s.replace("anon::", "")
    return s


def shortS(S):
    s = strip_targs(S)
    for ns in ("tcmalloc::tcmalloc_internal::", "tcmalloc::"):
        s = s.replace(ns, "")
    s = s.replace("(anonymous namespace)::", "")
    return re.sub(r"absl::(debian\d+|lts_\d+)::", "absl::", s)


def relname(f):
    k = f.rfind("/tcmalloc/internal/")
    if k < 0:
        k = f.rfind("/tcmalloc/")
    return f[k + 1:] if k >= 0 else f


class Ins:
    __slots__ = ("id", "op", "b", "idx", "d", "fn")

    def __init__(self, fn, d, b, idx):
        self.fn, self.d, self.b, self.idx = fn, d, b, idx
        self.id, self.op = d["i"], d["op"]

    @property
    def ops(self):
        return self.d.get("o", [])

    @property
    def callee(self):
        return self.d.get("callee")

    @property
    def cshort(self):
        c = self.d.get("callee")
        if c is None:
            return "<asm>" if "asm" in self.d else "<indirect>"
        return short(c)

    @property
    def ord(self):
        return self.d.get("ord")

    @property
    def ty(self):
        return self.d.get("t")

    def where(self):
        l = self.d.get("l")
        if not l:
            return "%s:?" % self.fn.file
        k = 0
        while k < len(l) - 1 and "/repo/" not in l[k][0] and not l[k][0].startswith("tcmalloc"):
            k += 1
        f, n, _ = l[k]
        f = relname(f)
        s = "%s:%d" % (f, n)
        if len(l) > 1:
            s += " (inlined into %s via %s)" % (
                l[-1][2], ">".join(x[2] for x in reversed(l[:-1])))
        return s

    def __repr__(self):
        return "<%%%d %s b%d %s>" % (self.id, self.op, self.b, self.where())


# Single-member library wrappers: transparent in terms.
WRAP = {"_M_i", "_M_b", "_M_p", "_M_base", "_M_head_impl", "<base>", "_M_t",
        "_M_elems", "_M_u"}

NORETURN_OPS = ("unreachable",)


def lin_add(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        v = r.get(t, 0) + k * c
        if v:
            r[t] = v
        else:
            r.pop(t, None)
    return r


class Fn:
    def __init__(self, d, dead=frozenset()):
        """dead: CFG edges (b, s) an interval analysis proved infeasible."""
        self.d = d
        self.dead = frozenset(dead)
        self.name = d["name"]
        self.sname = short(d["name"])
        self.file = relname(d.get("file", "?"))
        self.line = d.get("line", 0)
        self.note = d.get("note", "")
        self.args = d["args"]
        self.ins = {}
        self.blocks = []
        self.succ = []
        for bi, b in enumerate(d["blocks"]):
            L = []
            for k, x in enumerate(b["ins"]):
                I = Ins(self, x, bi, k)
                self.ins[I.id] = I
                L.append(I)
            self.blocks.append(L)
            self.succ.append(list(b["succ"]))
        n = len(self.blocks)
        self.osucc = [list(x) for x in self.succ]
        if self.dead:
            self.succ = [[s for s in ss if (i, s) not in self.dead]
                         for i, ss in enumerate(self.succ)]
        live, w = {0}, [0]
        while w:
            for s in self.succ[w.pop()]:
                if s not in live:
                    live.add(s)
                    w.append(s)
        for i in range(n):
            if i not in live:
                self.succ[i] = []
        self.livb = live
        self.pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                if i not in self.pred[s]:
                    self.pred[s].append(i)
        self.crash = {i for i in range(n)
                      if self.blocks[i][-1].op in NORETURN_OPS or i not in live}
        # Blocks all of whose paths end in a crash.
        changed = True
        while changed:
            changed = False
            for i in range(n):
                if i in self.crash or not self.succ[i]:
                    continue
                if all(s in self.crash for s in self.succ[i]):
                    self.crash.add(i)
                    changed = True
        self.rets = [self.blocks[i][-1] for i in range(n)
                     if self.blocks[i][-1].op == "ret" and i in live]
        if self.rets:
            # Loops (such as message formatting) that only ever end in a crash.
            def back(start):
                seen, w = set(start), list(start)
                while w:
                    for p in self.pred[w.pop()]:
                        if p not in seen:
                            seen.add(p)
                            w.append(p)
                return seen
            self.crash |= back(self.crash) - back({r.b for r in self.rets})
        self._term = {}
        self._dom = None
        self._facts = None
        self.loops = d.get("loops", [])

    def where(self):
        return "%s:%d" % (self.file, self.line)

    # ------------------------------------------------------------- basics --
    def all(self, op=None):
        for b in self.blocks:
            for i in b:
                if op is None or i.op == op:
                    yield i

    def live(self, op=None):
        """Instructions not on crash-only paths."""
        for bi, b in enumerate(self.blocks):
            if bi in self.crash:
                continue
            for i in b:
                if op is None or i.op == op:
                    yield i

    def calls(self, rx=None, live=True):
        r = re.compile(rx) if rx else None
        for i in (self.live("call") if live else self.all("call")):
            if r is None or r.search(i.cshort):
                yield i

    # ----------------------------------------------------------- dominance --
    def _dominators(self):
        if self._dom is not None:
            return self._dom
        n = len(self.blocks)
        order = self.rpo()
        full = set(order)
        dom = {b: full for b in order}
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in full]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    changed = True
        self._dom = dom
        return dom

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def bdom(self, a, b):
        return a in self._dominators().get(b, ())

    def dom(self, a, b):
        """Instruction a dominates instruction b (strictly earlier)."""
        if a.b == b.b:
            return a.idx < b.idx
        return self.bdom(a.b, b.b)

    # --------------------------------------------------- reachability/paths --
    def reach_blocks(self, start, avoid=()):
        seen, w = set(), [start]
        while w:
            x = w.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            w.extend(self.succ[x])
        return seen

    def path_avoiding(self, src, dst, avoid, edge_ok=None):
        """Is there a CFG path from just after instruction src (None = entry) to
        instruction dst (or, if dst is a predicate, to an instruction satisfying
        it) with no instruction satisfying avoid in between?  Crash-only blocks
        are not traversed.  Returns the list of blocks or None."""
        is_dst = dst if callable(dst) else (lambda i: i is dst)
        if src is None:
            start = (0, 0)
        else:
            start = (src.b, src.idx + 1)
        q = deque([(start, None)])
        seen = {}
        while q:
            (b, k), par = q.popleft()
            key = (b, k)
            if key in seen:
                continue
            seen[key] = par
            stop = False
            for i in self.blocks[b][k:]:
                if is_dst(i):
                    path = [b]
                    cur = par
                    while cur is not None:
                        path.append(cur[0])
                        cur = seen[cur]
                    return path[::-1]
                if avoid(i):
                    stop = True
                    break
            if stop:
                continue
            for s in self.succ[b]:
                if s in self.crash:
                    continue
                if edge_ok and not edge_ok(b, s):
                    continue
                q.append(((s, 0), key))
        return None

    def must_pass(self, src, dst, pred):
        """Every path src->dst contains an instruction satisfying pred."""
        return self.path_avoiding(src, dst, pred) is None

    def count_on_paths(self, pred, lo_hi_for=None):
        """(min,max) number of instructions satisfying pred over paths entry ->
        return (loops containing a match give max=inf)."""
        INF = 10 ** 6
        n = len(self.blocks)
        cnt = [sum(1 for i in b if pred(i)) for b in self.blocks]
        exits = {r.b for r in self.rets}
        # min: shortest path
        import heapq
        dist = {0: cnt[0]}
        h = [(cnt[0], 0)]
        while h:
            d, b = heapq.heappop(h)
            if d > dist.get(b, INF):
                continue
            for s in self.succ[b]:
                if s in self.crash:
                    continue
                nd = d + cnt[s]
                if nd < dist.get(s, INF):
                    dist[s] = nd
                    heapq.heappush(h, (nd, s))
        mn = min([dist[e] for e in exits if e in dist] or [None]) if exits else None
        # max over DAG of SCCs
        sccs, comp = self._sccs()
        best = {}
        for ci in range(len(sccs) - 1, -1, -1):
            pass
        order = self.rpo()
        mx = {}
        compmax = {}
        corder = []
        for b in order:
            if comp[b] not in corder:
                corder.append(comp[b])
        # topological over components
        indeg = defaultdict(set)
        for b in order:
            for s in self.succ[b]:
                if comp[s] != comp[b]:
                    indeg[comp[s]].add(comp[b])

        @functools.lru_cache(None)
        def cm(c):
            mem = [b for b in order if comp[b] == c]
            self_c = sum(cnt[b] for b in mem)
            cyc = len(mem) > 1 or mem[0] in self.succ[mem[0]]
            w = self_c
            if cyc and self_c:
                w = INF
            ps = [cm(p) for p in indeg[c]]
            return min(INF, (max(ps) if ps else 0) + w)
        mxv = max([cm(comp[e]) for e in exits if e in dist] or [0])
        return mn, mxv

    def _sccs(self):
        idx, low, onst, st = {}, {}, set(), []
        comp, sccs = {}, []
        c = [0]

        def dfs(root):
            work = [(root, iter(self.succ[root]))]
            idx[root] = low[root] = c[0]; c[0] += 1
            st.append(root); onst.add(root)
            while work:
                b, it = work[-1]
                adv = False
                for s in it:
                    if s not in idx:
                        idx[s] = low[s] = c[0]; c[0] += 1
                        st.append(s); onst.add(s)
                        work.append((s, iter(self.succ[s])))
                        adv = True
                        break
                    elif s in onst:
                        low[b] = min(low[b], idx[s])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[b])
                if low[b] == idx[b]:
                    s2 = []
                    while True:
                        x = st.pop(); onst.discard(x)
                        comp[x] = len(sccs)
                        s2.append(x)
                        if x == b:
                            break
                    sccs.append(s2)
        for b in range(len(self.blocks)):
            if b not in idx:
                dfs(b)
        return sccs, comp

    def feasible(self, assume=None, vals=None):
        """The same function without the edges that the interval analysis
        proves infeasible (optionally under input assumptions)."""
        import absint
        A = absint.AbsInt(self, assume, vals)
        if A.gave_up:
            return self
        f = Fn(self.d, self.dead | A.infeasible)
        f.absint = A
        return f

    def in_loop(self, i):
        sccs, comp = self._sccs()
        m = sccs[comp[i.b]]
        return len(m) > 1 or i.b in self.succ[i.b]

    # --------------------------------------------------------------- terms --
    def term(self, o):
        """Symbolic value of an operand or an instruction."""
        if isinstance(o, Ins):
            return self._iterm(o.id)
        k = o[0]
        if k == "v":
            return self._iterm(o[1])
        if k == "a":
            return ("arg", o[1])
        if k == "c":
            return ("int", o[1])
        if k == "C":
            return ("int", int(o[1]))
        if k == "n":
            return ("null",)
        if k == "f":
            return ("fn", short(o[1]))
        if k == "g":
            return ("glob", short(o[1]), o[2] if len(o) > 2 else None)
        if k == "u":
            return ("undef",)
        if k == "d":
            return ("fp", o[1])
        if k == "o":
            return ("gep", self.term(o[1]), o[2], ())
        return ("x",) + tuple(str(x) for x in o[1:])

    def _iterm(self, id):
        if id in self._term:
            return self._term[id]
        self._term[id] = ("rec", id)
        I = self.ins[id]
        t = self._mk(I)
        self._term[id] = t
        return t

    def _lin(self, t):
        if t[0] == "int":
            return {1: t[1]} if t[1] else {}
        if t[0] == "lin":
            return dict(t[1])
        return {t: 1}

    def _mklin(self, d):
        d = {k: v for k, v in d.items() if v}
        if not d:
            return ("int", 0)
        if set(d) == {1}:
            return ("int", d[1])
        if len(d) == 1:
            k, v = next(iter(d.items()))
            if v == 1:
                return k
        return ("lin", tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))

    def _mk(self, I):
        op, d = I.op, I.d
        T = self.term
        o = I.ops
        if op == "fld":
            S = shortS(d["S"])
            if d["f"] in WRAP and S.startswith("std::"):
                return T(o[0])
            return ("fld", S, d["f"], T(o[0]))
        if op == "load":
            return ("load", T(o[0]), d.get("ord"))
        if op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze",
                  "addrspacecast"):
            return T(o[0])
        if op == "trunc":
            t = T(o[0])
            if t[0] == "int":
                return t
            return ("trunc", d["t"], t)
        if op in ("add", "sub"):
            a, b = self._lin(T(o[0])), self._lin(T(o[1]))
            return self._mklin(lin_add(a, b, 1 if op == "add" else -1))
        if op == "mul":
            a, b = T(o[0]), T(o[1])
            if a[0] == "int":
                a, b = b, a
            if b[0] == "int":
                return self._mklin({k: v * b[1] for k, v in self._lin(a).items()})
            return ("mul",) + tuple(sorted((a, b), key=repr))
        if op == "shl":
            a, b = T(o[0]), T(o[1])
            if b[0] == "int" and 0 <= b[1] < 64:
                return self._mklin({k: v << b[1] for k, v in self._lin(a).items()})
            return ("shl", a, b)
        if op in ("and", "or", "xor"):
            if d.get("t") == "i1":
                a, b = T(o[0]), T(o[1])
                if op == "xor" and b == ("int", -1):
                    return self.neg(a)
                return (op + "1",) + tuple(sorted((a, b), key=repr))
            return (op,) + tuple(sorted((T(o[0]), T(o[1])), key=repr))
        if op in ("lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            return (op, T(o[0]), T(o[1]))
        if op in ("icmp", "fcmp"):
            return self.mkcmp(d["p"], T(o[0]), T(o[1]))
        if op == "phi":
            ins = I.d.get("in")
            if any(self.bdom(I.b, p) for p in ins if p in self.livb):
                return ("phi", I.id)
            if self.dead and ins:
                vals = {T(x) for x, p in zip(o, ins)
                        if p in self.livb and (p, I.b) not in self.dead}
            else:
                vals = {T(x) for x in o}
            vals.discard(("rec", I.id))
            if len(vals) == 1 and not any(v[0] == "rec" for v in vals):
                return next(iter(vals))
            return ("phi", I.id)
        if op == "select":
            return ("select", T(o[0]), T(o[1]), T(o[2]))
        if op == "gep":
            if "co" in d:
                base = T(o[0])
                co = d["co"]
                vo = [(T(x), s) for x, s in d["vo"]]
                # merge nested geps
                if base[0] == "gep":
                    co += base[2]
                    vo = list(base[3]) + vo
                    base = base[1]
                # expand linear indices
                acc = {}
                for t, s in vo:
                    for k, v in self._lin(t).items():
                        if k == 1:
                            co += v * s
                        else:
                            acc[k] = acc.get(k, 0) + v * s
                vo = tuple(sorted(((k, v) for k, v in acc.items() if v), key=repr))
                if co == 0 and not vo:
                    return base
                return ("gep", base, co, vo)
            return ("gepx",) + tuple(T(x) for x in o)
        if op == "call":
            if d.get("callee"):
                nm = I.cshort
                m = re.match(r"llvm\.(umin|umax|smin|smax|ctpop|ctlz|cttz|usub\.sat|uadd\.sat|abs|fshl|fshr|bswap|bitreverse)\.", d["callee"])
                if m:
                    a = [T(x) for x in o]
                    if m.group(1) in ("umin", "umax", "smin", "smax"):
                        a.sort(key=repr)
                    return (m.group(1),) + tuple(a)
                m = re.match(r"llvm\.(u|s)(mul|add|sub)\.with\.overflow", d["callee"])
                if m:
                    return ("ovf", m.group(1) + m.group(2)) + tuple(T(x) for x in o)
                return ("call", nm, tuple(T(x) for x in o), I.id)
            if "asm" in d:
                return ("asm", d["asm"], tuple(T(x) for x in o), I.id)
            return ("icall", T(d["cv"]), tuple(T(x) for x in o), I.id)
        if op == "extractvalue":
            return ("ext", T(o[0]), tuple(d["ix"]))
        if op == "insertvalue":
            return ("insv", T(o[0]), T(o[1]), tuple(d["ix"]))
        if op == "alloca":
            return ("alloca", I.id, d.get("at"))
        if op == "cmpxchg":
            return ("cmpxchg", T(o[0]), T(o[1]), T(o[2]), I.id)
        if op == "atomicrmw":
            return ("rmw", d["rop"], T(o[0]), T(o[1]), I.id)
        return (op,) + tuple(T(x) for x in o) + (I.id,)

    FLIP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge",
            "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
    NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule",
           "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}

    @classmethod
    def mkcmp(cls, p, a, b):
        """Canonical comparison: constants on the right; < / <= preferred."""
        if p in cls.FLIP:
            if a[0] in ("int", "null") and b[0] not in ("int", "null"):
                a, b, p = b, a, cls.FLIP[p]
            elif b[0] not in ("int", "null"):
                if p in ("eq", "ne"):
                    if repr(b) < repr(a):
                        a, b = b, a
                elif p in ("ugt", "uge", "sgt", "sge"):
                    a, b, p = b, a, cls.FLIP[p]
            # x <= c  ->  x < c+1 ; x > c -> x >= c+1
            if b[0] == "int":
                c = b[1]
                if p in ("ule", "sle") and c != -1 and c < 2 ** 62:
                    p, b = {"ule": "ult", "sle": "slt"}[p], ("int", c + 1)
                elif p in ("ugt", "sgt") and c < 2 ** 62 and not (p == "ugt" and c == -1):
                    p, b = {"ugt": "uge", "sgt": "sge"}[p], ("int", c + 1)
                if p == "ult" and b == ("int", 1):
                    p, b = "eq", ("int", 0)
                elif p == "uge" and b == ("int", 1):
                    p, b = "ne", ("int", 0)
                # linear lhs: move the constant to the right for eq/ne
                if p in ("eq", "ne") and a[0] == "lin":
                    d = dict(a[1])
                    k = d.pop(1, 0)
                    if k and b[0] == "int":
                        b = ("int", b[1] - k)
                        d = {x: v for x, v in d.items()}
                        if len(d) == 1 and list(d.values()) == [1]:
                            a = list(d)[0]
                        else:
                            a = ("lin", tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))
                    if len(d) == 2 and b == ("int", 0) and sorted(d.values()) == [-1, 1]:
                        # x - y == 0
                        x = [t for t, v in d.items() if v == 1][0]
                        y = [t for t, v in d.items() if v == -1][0]
                        a, b = sorted((x, y), key=repr)
        return ("cmp", p, a, b)

    @classmethod
    def neg(cls, t):
        if t[0] == "cmp" and t[1] in cls.NEG:
            return cls.mkcmp(cls.NEG[t[1]], t[2], t[3])
        if t[0] == "not":
            return t[1]
        if t[0] == "int":
            return ("int", 0 if t[1] else -1)
        return ("not", t)

    # -------------------------------------------------------------- guards --
    def split(self, t, pol, depth=0):
        """Atomic facts implied by condition t having truth value pol."""
        if depth > 12:
            return set()
        if t[0] == "not":
            return self.split(t[1], not pol, depth + 1)
        if t[0] == "and1" and pol or t[0] == "or1" and not pol:
            return (self.split(t[1], pol, depth + 1) |
                    self.split(t[2], pol, depth + 1))
        if t[0] == "select":
            c, a, b = t[1], t[2], t[3]
            if pol and b == ("int", 0):
                return self.split(c, True, depth + 1) | self.split(a, True, depth + 1)
            if not pol and a in (("int", 1), ("int", -1)):
                return self.split(c, False, depth + 1) | self.split(b, False, depth + 1)
            if pol and a == ("int", 0):
                return self.split(c, False, depth + 1) | self.split(b, True, depth + 1)
            if not pol and b in (("int", 1), ("int", -1)):
                return self.split(c, True, depth + 1) | self.split(a, False, depth + 1)
        if t[0] == "cmp":
            f = t if pol else self.neg(t)
            r = {f}
            # bool stored in an integer: (x != 0) / (x & 1)
            return r
        if pol:
            return {t}
        return {("not", t)}

    def splits(self, t, pol, depth=0):
        """Disjunctive form of split(): a list of fact sets, one per way the
        condition can have truth value pol (bounded; falls back to split)."""
        if depth > 6:
            return [frozenset(self.split(t, pol))]
        if t[0] == "not":
            return self.splits(t[1], not pol, depth + 1)
        if t[0] in ("and1", "or1") or t[0] == "select" and self._boolsel(t):
            if t[0] == "select":
                c, a, b = t[1], t[2], t[3]
                ways = [(c, True, a), (c, False, b)]
                out = []
                for c_, p_, v in ways:
                    if v[0] == "int":
                        if bool(v[1]) == pol:
                            out += self.splits(c_, p_, depth + 1)
                    else:
                        out += [x | y for x in self.splits(c_, p_, depth + 1) for y in self.splits(v, pol, depth + 1)]
            elif (t[0] == "and1") == pol:
                out = [x | y for x in self.splits(t[1], pol, depth + 1) for y in self.splits(t[2], pol, depth + 1)]
            else:
                first = self.splits(t[1], pol, depth + 1)
                out = first + [x | y for x in self.splits(t[1], not pol, depth + 1) for y in self.splits(t[2], pol, depth + 1)]
            if 0 < len(out) <= 8:
                return out
        return [frozenset(self.split(t, pol))]

    @staticmethod
    def _boolsel(t):
        def b(x):
            return x[0] in ("cmp", "not", "and1", "or1") or x in (("int", 0), ("int", 1), ("int", -1))
        return b(t[2]) and b(t[3])

    def edge_alts(self, b, s):
        last = self.blocks[b][-1]
        if last.op == "br" and last.ops:
            tb, fb = self.osucc[b][0], self.osucc[b][1]
            if tb != fb:
                return self.splits(self.term(last.ops[0]), s == tb)
        return [frozenset(self.edge_facts(b, s))]

    def edge_facts(self, b, s):
        last = self.blocks[b][-1]
        if last.op == "br" and last.ops:
            tb, fb = self.osucc[b][0], self.osucc[b][1]
            if tb == fb:
                return set()
            c = self.term(last.ops[0])
            return self.split(c, s == tb)
        if last.op == "switch":
            v = self.term(last.ops[0])
            cs = [c for c, t in last.d["cases"] if t == s]
            if s != last.d["def"] and len(cs) == 1:
                return {self.mkcmp("eq", v, ("int", cs[0]))}
            if s == last.d["def"] and not cs:
                return {self.mkcmp("ne", v, ("int", c)) for c, _ in last.d["cases"]}
        return set()

    def _mentions(self, t, ids):
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                if len(x) >= 2 and x[0] == "phi" and x[1] in ids:
                    return True
                st.extend(x)
        return False

    def facts(self):
        """Per block: set of atomic facts that hold on entry on every path
        (forward must analysis; facts about a loop-carried value are dropped
        where the value is redefined)."""
        if self._facts is not None:
            return self._facts
        order = [b for b in self.rpo()]
        TOP = None
        inn = {b: TOP for b in order}
        inn[0] = frozenset()
        phis = {b: {i.id for i in self.blocks[b] if i.op == "phi"} for b in order}
        ef = {}
        for b in order:
            for s in self.succ[b]:
                ef[(b, s)] = frozenset(self.edge_facts(b, s))
        changed = True
        it = 0
        while changed and it < 60:
            changed = False
            it += 1
            for b in order:
                if b == 0:
                    continue
                acc = TOP
                for p in self.pred[b]:
                    if p not in inn or inn[p] is TOP:
                        continue
                    f = inn[p] | ef[(p, b)]
                    acc = f if acc is TOP else acc & f
                if acc is TOP:
                    continue
                if phis[b]:
                    acc = frozenset(f for f in acc if not self._mentions(f, phis[b]))
                if inn[b] is TOP or acc != inn[b]:
                    inn[b] = acc
                    changed = True
        self._facts = {b: (inn[b] or frozenset()) for b in order}
        return self._facts

    def guards(self, i):
        b = i.b if isinstance(i, Ins) else i
        return self.facts().get(b, frozenset())

    # --------------------------------------------------------- ret decisions --
    def ret_cases(self):
        """[(block, term, facts)] one entry per way a value reaches a return,
        looking through phis and selects (acyclic)."""
        out = []

        def walk(t_op, blk, facts, seen):
            t = self.term(t_op) if not isinstance(t_op, tuple) else t_op
            if t[0] == "phi":
                I = self.ins[t[1]]
                if I.id in seen:
                    return
                for o, p in zip(I.ops, I.d["in"]):
                    if p in self.crash or p not in self.facts() or (p, I.b) in self.dead:
                        continue
                    f = self.facts()[p] | self.edge_facts(p, I.b)
                    walk(o, p, facts | f, seen | {I.id})
                return
            if t[0] == "select":
                walk(t[2], blk, facts | self.split(t[1], True), seen)
                walk(t[3], blk, facts | self.split(t[1], False), seen)
                return
            out.append((blk, t, facts))
        for r in self.rets:
            if r.ops:
                walk(r.ops[0], r.b, self.facts().get(r.b, frozenset()), frozenset())
        return out


# --------------------------------------------------------------- matching ----
class _Any:
    def __repr__(self):
        return "_"


_ = _Any()


class B:
    """Binding wildcard."""
    def __init__(self, n, p=_):
        self.n, self.p = n, p


class Or:
    def __init__(self, *ps):
        self.ps = ps


def match(p, t, env=None):
    """Structural match; returns the binding dict or None."""
    if env is None:
        env = {}
    if p is _:
        return env
    if isinstance(p, B):
        e = match(p.p, t, env)
        if e is None:
            return None
        if p.n in e and e[p.n] != t:
            return None
        e = dict(e)
        e[p.n] = t
        return e
    if isinstance(p, Or):
        for q in p.ps:
            e = match(q, t, env)
            if e is not None:
                return e
        return None
    if isinstance(p, re.Pattern):
        return env if isinstance(t, str) and p.search(t) else None
    if callable(p):
        return env if p(t) else None
    if isinstance(p, tuple):
        if not isinstance(t, tuple) or len(p) != len(t):
            return None
        for a, b in zip(p, t):
            env = match(a, b, env)
            if env is None:
                return None
        return env
    return env if p == t else None


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


def contains(t, p):
    if not isinstance(p, (tuple,)) and callable(p):
        return any(p(x) for x in subterms(t))
    return any(match(p, x) is not None for x in subterms(t))


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if d > 9:
        return "..."
    s = lambda x: show(x, d + 1)
    if k == "arg":
        return "arg%d" % t[1]
    if k == "int":
        return str(t[1])
    if k == "null":
        return "null"
    if k == "fld":
        return "%s->%s" % (s(t[3]), t[2])
    if k == "load":
        return "*%s" % s(t[1]) + ("{%s}" % t[2] if t[2] else "")
    if k == "lin":
        return "(" + " + ".join(("%s" % v) if x == 1 else ("%s" % s(x) if v == 1 else "%d*%s" % (v, s(x))) for x, v in t[1]) + ")"
    if k == "cmp":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k == "call":
        return "%s(%s)#%d" % (t[1], ", ".join(s(x) for x in t[2]), t[3])
    if k == "gep":
        return "&%s[%s%s]" % (s(t[1]), t[2], "".join(" + %d*%s" % (v, s(x)) for x, v in t[3]))
    if k == "phi":
        return "phi%d" % t[1]
    if k == "fn":
        return "&" + t[1]
    if k == "glob":
        return t[1]
    if k == "not":
        return "!" + s(t[1])
    return "%s(%s)" % (k, ", ".join(s(x) for x in t[1:]))


def dump(fn, file=None):
    """Human-readable listing of a canonical function."""
    print("== %s  [%s:%d] %s" % (fn.name, fn.file, fn.line, fn.note), file=file)
    F = fn.facts()
    for bi, b in enumerate(fn.blocks):
        print(" b%d preds=%s%s" % (bi, fn.pred[bi], " CRASH" if bi in fn.crash else ""), file=file)
        for f in sorted(F.get(bi, ()), key=repr):
            print("      | " + show(f), file=file)
        for i in b:
            l = i.d.get("l")
            ln = ("%s:%d" % (l[0][0].split("/")[-1], l[0][1])) if l else ""
            if i.op == "store":
                print("   %4d  store %s := %s %s   ;%s" % (i.id, show(fn.term(i.ops[1])), show(fn.term(i.ops[0])), i.ord or "", ln), file=file)
            elif i.op == "br":
                print("   %4d  br %s -> %s  ;%s" % (i.id, show(fn.term(i.ops[0])) if i.ops else "", fn.succ[bi], ln), file=file)
            elif i.op == "switch":
                print("   %4d  switch %s %s def %s  ;%s" % (i.id, show(fn.term(i.ops[0])), i.d["cases"], i.d["def"], ln), file=file)
            elif i.op == "phi":
                print("   %4d  phi %s" % (i.id, ", ".join("%s<-b%d" % (show(fn.term(o)), p) for o, p in zip(i.ops, i.d["in"]))), file=file)
            elif i.op == "ret":
                print("   %4d  ret %s" % (i.id, show(fn.term(i.ops[0])) if i.ops else ""), file=file)
            elif i.op in ("call", "atomicrmw", "cmpxchg", "fence", "unreachable", "memcpy"):
                print("   %4d  %s %s ;%s" % (i.id, show(fn.term(i)), i.ord or "", ln), file=file)
            elif i.op == "load":
                print("   %4d  %s ;%s" % (i.id, show(fn.term(i)), ln), file=file)
    for L in fn.loops:
        print("  loop header b%d blocks %s btc=%s ivs=%s" % (L["header"], L["blocks"], L["btc"], L["ivs"]), file=file)
