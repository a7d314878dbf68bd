"""Loops with a symbolic trip count are cut at an inductive invariant.

The invariant is *searched* from templates (Houdini over scalar relations, content templates for arrays, lock-step
coupling with the ghost automaton of the contract) and *checked* with the solver: it holds on entry and is preserved
by every path through the body. Whatever survives is assumed at the header; nothing is assumed unchecked.
Termination is not proved."""
import time
from math import gcd
import z3
from ir import Unsupported
from terms import *
import engine as E
from engine import Ptr, PInt, Undef, UNDEF, FP, StrVal, VecVal, Arr, fresh, arr_fresh, arr_concat, LoopCtx, Dead


class Fail(Exception):
    pass


def same_val(a, b):
    if a is b:
        return True
    if con(a) and con(b):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.same(b)
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    if isinstance(a, StrVal) and isinstance(b, StrVal):
        return a.buf == b.buf
    if isinstance(a, VecVal) and isinstance(b, VecVal):
        return a.buf == b.buf
    if isinstance(a, PInt) and isinstance(b, PInt):
        return a.p.same(b.p)
    if isinstance(a, FP) and isinstance(b, FP):
        return a.v is not None and a.v == b.v
    return False


def is_int(v):
    return con(v) or isinstance(v, z3.BitVecRef)


class Loc:
    """a modified location"""

    __slots__ = ("k", "oid", "off", "size", "kind", "sc", "entry", "w", "name", "ghost", "h")

    def __init__(self, k, oid, off=0, size=0):
        self.k = k  # 'c' cell, 'n' array length, 'a' array content, 'p' phi
        self.oid = oid
        self.off = off
        self.size = size
        self.kind = None
        self.sc = 1
        self.entry = None
        self.w = 64
        self.name = ""
        self.ghost = False
        self.h = None

    def key(self):
        return (self.k, self.oid, self.off)

    def raw(self, S, d):
        if self.k == "c":
            o = S.mem.get(self.oid)
            if o is None:
                return None
            c = o.cells.get(self.off)
            return c[1] if c is not None and c[0] == self.size else None
        if self.k == "n":
            return S.mem[self.oid].n
        if self.k == "a":
            return S.mem[self.oid].arr
        return S.frames[d].env.get(self.oid)


def diff(e, H, B, d, phis):
    """locations whose value differs between header state H and back-edge state B"""
    out = {}
    for oid, o in H.mem.items():
        b = B.mem.get(oid)
        if b is o:
            continue
        if b is None:
            # freed inside the loop although it existed at the header
            out[("dead", oid, 0)] = None
            continue
        if o.kind != b.kind:
            raise Unsupported("loop changes object kind")
        if o.kind == "arr":
            if not same_val(o.n, b.n):
                out[("n", oid, 0)] = 8
            if o.arr is not b.arr:
                out[("a", oid, 0)] = o.es
        elif o.kind == "cells":
            for off in set(o.cells) | set(b.cells):
                x = o.cells.get(off)
                y = b.cells.get(off)
                if x is not None and y is not None and x[0] == y[0] and same_val(x[1], y[1]):
                    continue
                out[("c", oid, off)] = (x or y)[0] if (x is None or y is None or x[0] == y[0]) else None
    for p in phis:
        x = H.frames[d].env.get(p)
        y = B.frames[d].env.get(p)
        if not same_val(x, y):
            out[("p", p, 0)] = None
    return out


class Cut:
    def __init__(self, e, st, h, body):
        self.e = e
        self.st = st
        self.h = h
        self.body = body
        self.d = len(st.frames) - 1
        self.fn = st.frames[self.d].fn
        self.phis = [p.res for p in self.fn.blocks[h].phis]
        self.locs = {}
        self.tmpl = {}  # array loc key -> template index
        self.stats = {}

    # ------------------------------------------------------------ execution helpers
    def run_body(self, H, dry=True):
        e = self.e
        l = LoopCtx(self.d, self.h, self.body)
        s = H.fork()
        s.kv["lstart"] = 1
        s.kv.pop("hdr", None)
        if dry:
            e.dry += 1
            save = e.buf
        e.loopstack.append(l)
        try:
            e.explore([s], l)
        finally:
            e.loopstack.pop()
            if dry:
                e.dry -= 1
                e.buf = save
        return l.backs, l.exits

    def call_ghost(self, S, fkey, ptr):
        """run a ghost function in S -> list of (state, retval)"""
        e = self.e
        out = []
        s = S.fork()
        f = e.getf(fkey)
        s.kv.pop("hdr", None)

        def cb(t, v):
            t.status = "gret"
            t.retval = v

        e.dry += 1
        try:
            e.push_call(s, f, [(None, ptr, None)], None, cb)
            l = LoopCtx(-1, None, ())
            e.explore([s], l)
            for t in l.exits:
                if t.status != "gret":
                    raise Fail("ghost step threw")
                v = t.retval
                t.status = None
                t.retval = None
                out.append((t, v))
        finally:
            e.dry -= 1
        return out

    def step_ghost(self, S, g, k):
        """states after k ghost steps (each only when not done)"""
        cur = [S]
        for _ in range(k):
            nxt = []
            for s in cur:
                for t, v in self.call_ghost(s, g["done"], g["p"]):
                    if isinstance(v, Undef):
                        raise Fail("ghost done undefined")
                    if con(v):
                        if v:
                            return None
                    elif not self.e.quick_valid(t, Not(v)):
                        r, _ = self.e.check_valid(t, Not(v), 3000)
                        if r != "proved":
                            return None
                    for t2, _ in self.call_ghost(t, g["step"], g["p"]):
                        nxt.append(t2)
            cur = nxt
        return cur

    # ------------------------------------------------------------ discovery of modified locations
    def add_mods(self, H, B, ghostlocs=False):
        new = False
        for (k, oid, off), sz in diff(self.e, H, B, self.d, self.phis).items():
            if k == "dead":
                raise Unsupported("loop frees an outer object")
            key = (k, oid, off)
            if key not in self.locs:
                l = Loc(k, oid, off, sz)
                if k == "c" and sz is None:
                    l.kind = "junk"
                ent = l.raw(self.st, self.d)
                l.entry = ent
                l.ghost = ghostlocs or oid in self.ghost_oids
                self.locs[key] = l
                new = True
            l = self.locs[key]
            v = l.raw(B, self.d)
            if k == "c" and self.st.mem[oid].cells.get(off, (None,))[0] not in (None, l.size):
                l.kind = "junk"
            new |= self.classify(l, v)
        return new

    def classify(self, l, v):
        old = (l.kind, l.sc)
        if l.kind == "junk":
            return False
        if l.k == "n":
            l.kind = "int"
            l.w = 64
        elif l.k == "a":
            l.kind = "arr"
        else:
            ent = l.entry
            if is_int(ent) and is_int(v):
                w = l.size * 8 if l.k == "c" else (v.size() if not con(v) else (ent.size() if not con(ent) else 64))
                l.w = w
                l.kind = "int"
            elif isinstance(ent, Ptr) and isinstance(v, Ptr) and ent.obj == v.obj and ent.obj != 0:
                g = l.sc if l.kind == "ptr" else 0
                do = abs(v.off - ent.off)
                g = gcd(g, do)
                for p in (v,):
                    if p.idx is not None and not (ent.idx is not None and ent.idx.eq(p.idx) and ent.sc == p.sc):
                        g = gcd(g, p.sc)
                l.kind = "ptr"
                l.sc = g or 1
            else:
                l.kind = "junk"
        return old != (l.kind, l.sc)

    def discover(self):
        st = self.st
        # ghost objects (and the buffers they own)
        self.ghost_oids = set()
        for g in st.ghosts:
            o = st.mem.get(g["p"].obj)
            if o is None:
                continue
            self.ghost_oids.add(g["p"].obj)
            for off, (sz, v) in o.cells.items():
                if isinstance(v, (StrVal, VecVal)):
                    self.ghost_oids.add(v.buf)
        for rnd in range(8):
            H = self.havoc(plain=True)
            backs, exits = self.run_body(H)
            if not backs and rnd == 0:
                return False
            new = False
            for b in backs:
                new |= self.add_mods(H, b)
            if not new:
                self.backs0 = backs
                return True
        raise Unsupported("loop modification set does not stabilise")

    def havoc(self, plain=False):
        """header state: every modified location unconstrained"""
        H = self.st.fork()
        fr = None
        for l in self.locs.values():
            if l.kind == "junk":
                v = UNDEF
            elif l.kind == "int":
                v = fresh("h", l.w)
            elif l.kind == "ptr":
                i = fresh("hp", 64)
                v = self.e.ptradd(l.entry, i, l.sc)
                l.h = i
            elif l.kind == "arr":
                v = arr_fresh("ha", self.st.mem[l.oid].es)
            if l.kind != "ptr":
                l.h = v
            if l.k == "c":
                o = H.wobj(l.oid)
                if l.kind == "junk":
                    c = o.cells.pop(l.off, None)
                    for co, cc in self.e._overlap(o, l.off, l.size or 8):
                        if co != l.off and (l.size is None):
                            pass
                else:
                    o.cells[l.off] = (l.size, v)
            elif l.k == "n":
                o = H.wobj(l.oid)
                o.n = v
                H.pc.append(z3.ULE(v, BV(1 << 41, 64)))
            elif l.k == "a":
                o = H.wobj(l.oid)
                o.arr = v
            else:
                H.top().env[l.oid] = v
        H.kv["cut"] = 1
        return H

    # ------------------------------------------------------------ scalar view
    def term(self, l, S):
        """scalar term of l in S (pointer: distance from entry in units of sc); None if not of the expected shape"""
        v = l.raw(S, self.d)
        if l.kind == "int":
            if not is_int(v):
                return None
            return v
        if l.kind == "ptr":
            if not isinstance(v, Ptr) or v.obj != l.entry.obj:
                return None
            return self.pdist(v, l.entry, l.sc)
        return None

    def pdist(self, p, q, sc):
        do = p.off - q.off
        if do % sc:
            return None
        r = (do // sc) & mask(64)
        for x, s in ((p, 1), (q, -1)):
            if x.idx is None:
                continue
            if x.sc % sc:
                return None
            t = mul(x.idx, x.sc // sc, 64)
            r = add(r, t, 64) if s > 0 else sub(r, t, 64)
        return simp(r)

    # ------------------------------------------------------------ candidates
    def candidates(self):
        """list of (name, fn(S)->formula)"""
        e, st, d = self.e, self.st, self.d
        ints = [l for l in self.locs.values() if l.kind in ("int", "ptr")]
        out = []

        def ext(t, w):
            return zext(t, w, 64) if w < 64 else t

        def width(l):
            return 64 if l.kind == "ptr" else l.w

        ent = {l.key(): (0 if l.kind == "ptr" else l.entry) for l in ints}
        # pairwise
        for i, x in enumerate(ints):
            for y in ints[i + 1 :]:
                wx, wy = width(x), width(y)
                ex, ey = ent[x.key()], ent[y.key()]
                if wx == wy:
                    w = wx

                    def f(S, x=x, y=y, ex=ex, ey=ey, w=w):
                        a, b = self.term(x, S), self.term(y, S)
                        if a is None or b is None:
                            return 0
                        return eq(sub(a, ex, w), sub(b, ey, w), w)

                    def f2(S, x=x, y=y, w=w):
                        a, b = self.term(x, S), self.term(y, S)
                        if a is None or b is None:
                            return 0
                        return eq(a, b, w)

                    if x.kind == "int" and y.kind == "int" and not (con(ex) and con(ey) and ex == ey):
                        out.append((f"{self.nm(x)} == {self.nm(y)}", f2))
                    out.append((f"d{self.nm(x)} == d{self.nm(y)}", f))
                    for c in (2, 4, 8):
                        for (u, v, eu, ev) in ((x, y, ex, ey), (y, x, ey, ex)):

                            def f3(S, u=u, v=v, eu=eu, ev=ev, w=w, c=c):
                                a, b = self.term(u, S), self.term(v, S)
                                if a is None or b is None:
                                    return 0
                                return eq(sub(a, eu, w), mul(sub(b, ev, w), c, w), w)

                            if w == 64 and (u.k == "n" or v.k == "n" or u.ghost or v.ghost):
                                out.append((f"d{self.nm(u)} == {c}*d{self.nm(v)}", f3))
                    for (u, v) in ((x, y), (y, x)):

                        def f4(S, u=u, v=v, w=w):
                            a, b = self.term(u, S), self.term(v, S)
                            if a is None or b is None:
                                return 0
                            return ule(a, b, w)

                        if w >= 32 and u.kind == "int" and v.kind == "int":
                            out.append((f"{self.nm(u)} <= {self.nm(v)}", f4))
                else:
                    w = max(wx, wy)
                    if min(wx, wy) < 8:
                        continue

                    def f(S, x=x, y=y, wx=wx, wy=wy):
                        a, b = self.term(x, S), self.term(y, S)
                        if a is None or b is None:
                            return 0
                        return eq(ext(a, wx), ext(b, wy), 64)

                    out.append((f"{self.nm(x)} == {self.nm(y)}", f))
                    if min(wx, wy) >= 32:
                        for (u, v, wu, wv) in ((x, y, wx, wy), (y, x, wy, wx)):

                            def f5(S, u=u, v=v, wu=wu, wv=wv):
                                a, b = self.term(u, S), self.term(v, S)
                                if a is None or b is None:
                                    return 0
                                return ule(ext(a, wu), ext(b, wv), 64)

                            out.append((f"{self.nm(u)} <= {self.nm(v)}", f5))
        # bounds
        lens = []
        seen = set()

        def addlen(t, nm):
            if con(t):
                k = ("c", t)
            else:
                k = t.get_id()
            if k in seen:
                return
            seen.add(k)
            lens.append((t, nm))

        arrs = {}
        for oid, o in st.mem.items():
            if o.kind == "arr" and ("n", oid, 0) not in self.locs:
                if not con(o.n):
                    addlen(o.n, f"len{oid}")
        for fr in st.frames[max(0, d - 1) : d + 1]:
            for nme, v in fr.env.items():
                if isinstance(v, Ptr) and v.idx is None and v.obj in st.mem:
                    o = st.mem[v.obj]
                    if o.kind != "cells" or len(o.cells) > 12:
                        continue
                    for off, (sz, cv) in o.cells.items():
                        if ("c", v.obj, off) in self.locs:
                            continue
                        if sz == 8 and isinstance(cv, z3.BitVecRef):
                            addlen(cv, nme)
                        elif sz == 4 and isinstance(cv, z3.BitVecRef):
                            addlen(zext(cv, 32, 64), nme)
        for x in ints:
            w = width(x)
            ex = ent[x.key()]

            def fe(S, x=x, ex=ex, w=w):
                a = self.term(x, S)
                return 0 if a is None else eq(a, ex, w)

            out.append((f"{self.nm(x)} unchanged", fe))
            if w == 64:

                def fm(S, x=x, ex=ex):
                    a = self.term(x, S)
                    return 0 if a is None else ule(ex, a, 64)

                def fs(S, x=x):
                    a = self.term(x, S)
                    return 0 if a is None else sle(0, a, 64)

                def fb(S, x=x):
                    a = self.term(x, S)
                    return 0 if a is None else ule(a, 1 << 42, 64)

                out.append((f"{self.nm(x)} monotone", fm))
                out.append((f"{self.nm(x)} >= 0", fs))
                if x.kind == "int":
                    out.append((f"{self.nm(x)} <= 2^42", fb))
            if w in (32,):

                def fs32(S, x=x):
                    a = self.term(x, S)
                    return 0 if a is None else sle(0, a, 32)

                out.append((f"{self.nm(x)} >= 0", fs32))
            if w == 8:

                def f01(S, x=x):
                    a = self.term(x, S)
                    return 0 if a is None else ule(a, 1, 8)

                out.append((f"{self.nm(x)} <= 1", f01))
            if w >= 32 and x.kind == "int":
                for t, nm in lens[:40]:

                    def fl(S, x=x, t=t, w=w):
                        a = self.term(x, S)
                        return 0 if a is None else ule(ext(a, w), t, 64)

                    out.append((f"{self.nm(x)} <= {nm}", fl))
            if x.kind == "ptr":
                o = st.mem.get(x.entry.obj)
                if o is not None and o.kind == "arr" and x.sc % o.es == 0:

                    def fp(S, x=x):
                        a = self.term(x, S)
                        if a is None:
                            return 0
                        i = e.elem_index(x.raw(S, d), S.mem[x.entry.obj].es)
                        return 0 if i is None else And(ule(i, S.mem[x.entry.obj].n, 64))

                    out.append((f"{self.nm(x)} within array", fp))
                # other pointers into the same object
                for fr in st.frames[max(0, d - 1) : d + 1]:
                    for nme, v in fr.env.items():
                        if isinstance(v, Ptr) and v.idx is None and v.obj in st.mem:
                            oo = st.mem[v.obj]
                            if oo.kind != "cells" or len(oo.cells) > 12:
                                continue
                            for off, (sz, cv) in oo.cells.items():
                                if ("c", v.obj, off) in self.locs or not isinstance(cv, Ptr) or cv.obj != x.entry.obj:
                                    continue

                                def fq(S, x=x, cv=cv):
                                    if self.term(x, S) is None:
                                        return 0
                                    return e.ptrcmp(S, "ule", x.raw(S, d), cv)

                                out.append((f"{self.nm(x)} <= {nme}", fq))
        # flags: a boolean tells something about the element before the position, or delays a ghost by one
        flags = [x for x in ints if x.kind == "int" and x.w == 8 and not x.ghost and con(ent[x.key()]) and ent[x.key()] in (0, 1)]
        if flags:
            cs = self.body_consts()
            poss = [x for x in ints if x.kind == "int" and x.w == 64 and not x.ghost and con(ent[x.key()])]
            ptrs = [x for x in ints if x.kind == "ptr" and not x.ghost and x.sc == 1]
            arrays = [(oid, o) for oid, o in st.mem.items() if o.kind == "arr" and o.es == 1 and not con(o.n) and ("a", oid, 0) not in self.locs][:6]
            for f in flags:
                for c in cs:
                    for val in (1, 0):
                        for x in poss:
                            for oid, o in arrays:

                                def fp(S, x=x, f=f, o=o, c=c, val=val):
                                    i, b = self.term(x, S), self.term(f, S)
                                    if i is None or b is None:
                                        return 0
                                    return Or(Not(eq(b, val, 8)), And(ult(0, i, 64), ule(i, o.n, 64), eq(o.arr.get(sub(i, 1, 64)), c, 8)))

                                out.append((f"{self.nm(f)}={val} -> arr{oid}[{self.nm(x)}-1]={c}", fp))
                        for x in ptrs:
                            o = st.mem.get(x.entry.obj)
                            if o is None or o.kind != "arr" or o.es != 1 or ("a", x.entry.obj, 0) in self.locs:
                                continue

                            def fq(S, x=x, f=f, o=o, c=c, val=val):
                                b = self.term(f, S)
                                i = e.elem_index(x.raw(S, d), 1) if self.term(x, S) is not None else None
                                if i is None or b is None:
                                    return 0
                                return Or(Not(eq(b, val, 8)), And(ult(0, i, 64), ule(i, o.n, 64), eq(o.arr.get(sub(i, 1, 64)), c, 8)))

                            out.append((f"{self.nm(f)}={val} -> *({self.nm(x)}-1)={c}", fq))
                for g in ints:
                    if not g.ghost or width(g) != 64:
                        continue
                    for x in ints:
                        if x.ghost or width(x) != 64:
                            continue

                        def fg(S, x=x, f=f, g=g):
                            a, b, v = self.term(x, S), self.term(f, S), self.term(g, S)
                            if a is None or b is None or v is None:
                                return 0
                            return eq(add(sub(v, ent[g.key()], 64), sub(zext(b, 8, 64), ent[f.key()], 64), 64), sub(a, ent[x.key()], 64), 64)

                        out.append((f"d{self.nm(x)}-{self.nm(f)} == d{self.nm(g)}", fg))
        return out

    def body_consts(self):
        """byte constants the loop compares with"""
        r = set()
        for bn in self.body:
            for i in self.fn.blocks[bn].ins:
                if i.op == "icmp":
                    for v in (i.c, i.d):
                        if isinstance(v, tuple) and len(v) > 1 and v[0] == "int" and isinstance(v[1], int) and 0 < v[1] < 256:
                            r.add(v[1])
                elif i.op == "switch":
                    pass
        return sorted(r)[:4]

    def nm(self, l):
        if l.name:
            return l.name
        o = self.st.mem.get(l.oid) if l.k != "p" else None
        n = (o.name if o is not None else str(l.oid)) or "obj"
        if l.k == "n":
            n = f"size({n}{l.oid})"
        elif l.k == "c":
            n = f"{n}" + (f"+{l.off}" if l.off else "")
        if l.ghost:
            n = "ghost." + n
        l.name = n
        return n

    # ------------------------------------------------------------ array templates
    def array_templates(self, l):
        """candidate content functions: list of (name, fn(S) -> Arr) evaluated in any state S"""
        e, st = self.e, self.st
        es = st.mem[l.oid].es
        w = es * 8
        ea = l.entry
        en = st.mem[l.oid].n
        out = []

        def kept(S):
            a = S.mem[l.oid].arr
            if a is None:
                a = arr_fresh("ha", es)
            return arr_concat(ea, en, E.arr_shift(a, en), w)

        keep = (f"{self.nm(l)} keeps its entry content", kept)
        if con(en) and en == 0:
            keep = None
        if l.ghost:
            if keep:
                out.append(keep)
            return out
        m = self.map_template(l)
        if m is not None:
            out.append(m)
        if not self.gsteps_possible:
            if keep:
                out.append(keep)
            return out
        for g in self.locs.values():
            if g.kind != "arr" or not g.ghost or st.mem[g.oid].es != es:
                continue
            gn0 = st.mem[g.oid].n

            def f(S, g=g, gn0=gn0):
                G = S.mem[g.oid].arr
                G2 = E.arr_shift(G, gn0)
                return arr_concat(ea, en, G2, w)

            out.append((f"{self.nm(l)} == entry ++ {self.nm(g)}", f))
            if ("n", l.oid, 0) not in self.locs:

                def f2(S, g=g):
                    go = S.mem[g.oid]

                    def get(i):
                        c = simp(ult(i, go.n, 64))
                        if con(c):
                            return go.arr.get(i) if c else ea.get(i)
                        return ite(c, go.arr.get(i), ea.get(i), w)

                    return Arr(get)

                out.append((f"{self.nm(l)} == {self.nm(g)} over entry", f2))
        if keep:
            out.append(keep)
        return out

    def map_template(self, l):
        """result[i] as a function of the position only, derived from one abstract iteration"""
        e, st = self.e, self.st
        es = st.mem[l.oid].es
        w = es * 8
        H = self.havoc(plain=True)
        hsym = {}
        for x in self.locs.values():
            if x.kind in ("int", "ptr"):
                hsym[x.h.get_id()] = x
        try:
            backs, _ = self.run_body(H)
        except Unsupported:
            return None
        if not backs:
            return None
        nl = self.locs.get(("n", l.oid, 0))
        npc = len(H.pc)
        ea = l.entry
        en = st.mem[l.oid].n
        if nl is not None:
            # append pattern: m new elements per iteration
            nH = nl.h
            m = None
            alts = []
            for b in backs:
                dn = simp(sub(b.mem[l.oid].n, nH, 64))
                if not con(dn) or dn == 0 or dn > 16:
                    return None
                if m is None:
                    m = dn
                if m != dn:
                    return None
                pcs = And(*b.pc[npc:]) if len(b.pc) > npc else 1
                vals = [b.mem[l.oid].arr.get(add(nH, k, 64)) for k in range(m)]
                alts.append((pcs, vals))
            exprs = []
            for k in range(m):
                r = alts[-1][1][k]
                for pcs, vals in reversed(alts[:-1]):
                    r = ite(pcs, vals[k], r, w)
                exprs.append(r)
            # header symbols used -> functions of the iteration number
            it = z3.BitVec("it!map", 64)
            subs = self.iter_subst(backs, hsym, it)
            if subs is None:
                return None
            fs = []
            for r in exprs:
                if con(r):
                    fs.append(r)
                    continue
                r2 = z3.substitute(r, *subs) if subs else r
                if not self.closed(r2, hsym, H, it):
                    return None
                fs.append(r2)
            sh = (m - 1).bit_length()

            def F(j):
                """element j of the appended part"""
                if m == 1:
                    x = fs[0]
                    return x if con(x) else simp(z3.substitute(x, (it, BV(j, 64))))
                if con(j):
                    x = fs[j % m]
                    return x if con(x) else simp(z3.substitute(x, (it, BV(j // m, 64))))
                jb = BV(j, 64)
                if m & (m - 1) == 0:
                    q = z3.LShR(jb, sh)
                    rm = jb & BV(m - 1, 64)
                else:
                    q = z3.UDiv(jb, BV(m, 64))
                    rm = z3.URem(jb, BV(m, 64))
                r = None
                for k in range(m - 1, -1, -1):
                    x = fs[k] if con(fs[k]) else z3.substitute(fs[k], (it, q))
                    r = x if r is None else ite(rm == BV(k, 64), x, r, w)
                return simp(r) if not con(r) else r

            tail = Arr(F)
            T = arr_concat(ea, en, tail, w)
            return (f"{self.nm(l)} == entry ++ map(iteration)", lambda S: T)
        # in place pattern
        aH = H.mem[l.oid].arr
        alts = []
        idx = None
        for b in backs:
            pcs = And(*b.pc[npc:]) if len(b.pc) > npc else 1
            if b.mem[l.oid].arr is aH:
                continue
            # find the stored index: the last noted index is good enough
            cand = [i for i in b.idx[len(H.idx) :]]
            if not cand:
                return None
            i = cand[-1]
            if idx is None:
                idx = i
            elif not idx.eq(i):
                return None
            alts.append((pcs, b.mem[l.oid].arr.get(i)))
        if idx is None:
            return None
        r = aH.get(idx)
        base = r
        for pcs, v in reversed(alts):
            r = ite(pcs, v, r, w)
        if con(r):
            return None
        c = z3.BitVec("cell!map", w)
        it = z3.BitVec("it!map", 64)
        subs = self.iter_subst(backs, hsym, it)
        if subs is None:
            return None
        if subs:
            # two pointers may walk the same buffer: equal as functions of the iteration
            r = simp(z3.substitute(r, *subs))
            base = simp(z3.substitute(base, *subs))
            if con(r):
                return None
        r2 = z3.substitute(r, (base, c))
        # index as function of iteration must be it + const or vice versa
        i2 = simp(z3.substitute(idx, *subs)) if subs else idx
        off = simp(sub(i2, it, 64))
        if not con(off) and _uses(off, it):
            return None
        r3 = r2
        if not self.closed(r3, hsym, H, it):
            return None
        # number of iterations so far, from any position variable
        pos = self.itvar
        if pos is None:
            return None

        def f(S):
            cur = sub(self.term(pos[0], S), pos[1], 64)  # iterations done

            def get(i):
                j = sub(i, off, 64)
                v = z3.substitute(r3, (c, BV(ea.get(i), w)), (it, BV(j, 64)))
                return ite(simp(And(ule(off, i, 64), ult(j, cur, 64))), simp(v), ea.get(i), w)

            return Arr(get)

        return (f"{self.nm(l)} == map(entry) up to position", f)

    def iter_subst(self, backs, hsym, it):
        """header symbols with constant stride s: sym = entry + s*it"""
        subs = []
        self.itvar = None
        for l in self.locs.values():
            if l.kind not in ("int", "ptr"):
                continue
            s = None
            ok = True
            for b in backs:
                t = self.term(l, b)
                if t is None:
                    ok = False
                    break
                wd = 64 if l.kind == "ptr" else l.w
                dlt = simp(sub(t, l.h, wd))
                if not con(dlt):
                    ok = False
                    break
                if s is None:
                    s = dlt
                elif s != dlt:
                    ok = False
                    break
            if not ok or s is None:
                continue
            wd = 64 if l.kind == "ptr" else l.w
            if wd not in (64, 32):
                continue
            ent = 0 if l.kind == "ptr" else l.entry
            t = it if wd == 64 else z3.Extract(31, 0, it)
            subs.append((l.h, BV(add(ent, mul(t, s, wd), wd), wd)))
            if s == 1 and wd == 64 and not l.ghost and self.itvar is None:
                self.itvar = (l, ent)
        return subs

    def closed(self, t, hsym, H, it):
        """no header symbol left"""
        ids = {x.h.get_id() for x in self.locs.values() if x.kind in ("int", "ptr")}
        names = {x.h.name for x in self.locs.values() if x.kind == "arr"}
        base = _maxcnt(H)
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                return False
            if z3.is_app(x):
                n = x.decl().name()
                if n in names:
                    return False
                if "!" in n and x.num_args() == 0 and not n.startswith(("it!", "cell!")):
                    # a symbol created inside the body is not a function of the position
                    try:
                        if int(n.rsplit("!", 1)[1]) > self.mark:
                            return False
                    except ValueError:
                        pass
                stack.extend(x.children())
        return True

    # ------------------------------------------------------------ main
    def header(self, cands, tm):
        H = self.havoc()
        for key, t in tm.items():
            if t is None:
                continue
            H.wobj(self.locs[key].oid).arr = None
        for key, t in tm.items():
            if t is None:
                H.wobj(self.locs[key].oid).arr = arr_fresh("ha", self.st.mem[self.locs[key].oid].es) if H.mem[self.locs[key].oid].arr is None else H.mem[self.locs[key].oid].arr
        # templates may read ghost arrays (plain havoc) and scalars
        for gh in (True, False):
            for key, t in tm.items():
                if t is not None and bool(self.locs[key].ghost) == gh:
                    H.wobj(self.locs[key].oid).arr = t[1](H)
        for n, f in cands:
            c = f(H)
            if con(c):
                if not c:
                    raise Fail("candidate false at header " + n)
            else:
                H.pc.append(c)
        return H

    def schedule(self, backs, sched):
        """apply ghost steps; sched: list of (ghost, policy)"""
        out = []
        for b in backs:
            cur = [b]
            for g, pol in sched:
                nxt = []
                for s in cur:
                    if isinstance(pol, int):
                        r = self.step_ghost(s, g, pol)
                        if r is None:
                            raise Fail("ghost done too early")
                        nxt += r
                    else:
                        todo = [(s, 0)]
                        while todo:
                            t, k = todo.pop()
                            p = pol(t)
                            if self.valid(t, p):
                                nxt.append(t)
                                continue
                            if not con(p):
                                # step while the policy does not hold: split the state when undetermined
                                np_ = Not(p)
                                if not self.valid(t, np_, 1500):
                                    t1, t2 = t.fork(), t.fork()
                                    t1.pc.append(B(p))
                                    t2.pc.append(B(np_))
                                    nxt.append(t1)
                                    t = t2
                            if k >= 5 or len(nxt) + len(todo) > 40:
                                raise Fail("no ghost schedule")
                            r = self.step_ghost(t, g, 1)
                            if r is None:
                                raise Fail("no ghost schedule")
                            todo += [(x, k + 1) for x in r]
                cur = nxt
            out += cur
        return out

    def valid(self, S, phi, tmo=4000):
        if con(phi):
            return bool(phi)
        phi = simp(phi)
        if con(phi):
            return bool(phi)
        r, _ = self.e.check_valid(S, phi, tmo)
        return r == "proved"

    def solve(self, sched):
        """Houdini for a given ghost schedule -> (cands, templates) or Fail"""
        e, st = self.e, self.st
        if sched:
            # ghost cells become modified: discover them by stepping from a havoced header
            for _ in range(4):
                H = self.havoc(plain=True)
                backs, _x = self.run_body(H)
                new = False
                for b in backs:
                    cur = [b]
                    for g, pol in sched:
                        nxt = []
                        for s in cur:
                            for t, _v in self.call_ghost(s, g["step"], g["p"]):
                                nxt.append(t)
                        cur = nxt
                    for t in cur:
                        new |= self.add_mods(H, t)
                if not new:
                    break
        cands = []
        for n, f in self.candidates():
            if n in self.dropped:
                continue
            if self.valid(st, f(st), 2000):
                cands.append((n, f))
        tm = {}
        opts = {}
        for key, l in self.locs.items():
            if l.kind == "arr":
                opts[key] = self.array_templates(l)
                tm[key] = opts[key].pop(0) if opts[key] else None
        for rnd in range(40):
            if time.time() - e.t0 > e.o["wall"]:
                raise Unsupported("wall time exceeded")
            H = self.header(cands, tm)
            backs, _ = self.run_body(H)
            ends = self.schedule(backs, sched)
            changed = False
            for b in ends:
                # scalar candidates: drop everything the solver refutes
                live = [(n, f, f(b)) for n, f in cands]
                while True:
                    todo = [(n, f, p) for n, f, p in live if not (con(p) and p)]
                    if not todo:
                        break
                    if any(con(p) for n, f, p in todo):
                        bad = {n for n, f, p in todo if con(p)}
                    else:
                        r, mm = e.check_valid(b, And(*[p for _, _, p in todo]), 6000)
                        if r == "proved":
                            break
                        bad = set()
                        if r == "fail":
                            m = mm[0]
                            for n, f, p in todo:
                                if z3.is_false(m.eval(B(p), model_completion=True)):
                                    bad.add(n)
                        if not bad:
                            for n, f, p in todo:
                                if not self.valid(b, p, 2500):
                                    bad.add(n)
                        if not bad:
                            break
                    live = [x for x in live if x[0] not in bad]
                    cands = [c for c in cands if c[0] not in bad]
                    changed = True
            if changed:
                continue
            # array templates
            for key, t in list(tm.items()):
                if t is None:
                    continue
                l = self.locs[key]
                okall = True
                for b in ends:
                    o = b.mem[l.oid]
                    k = fresh("sk", 64)
                    s2 = b.fork()
                    s2.pc.append(B(ult(k, o.n, 64)))
                    s2.idx.append(k)
                    A = t[1](b)
                    if not self.valid(s2, eq(o.arr.get(k), A.get(k), o.es * 8), 8000):
                        okall = False
                        break
                if not okall:
                    tm[key] = opts[key].pop(0) if opts[key] else None
                    changed = True
            if not changed:
                # array templates at entry
                for key, t in list(tm.items()):
                    if t is None:
                        continue
                    l = self.locs[key]
                    o = st.mem[l.oid]
                    k = fresh("sk", 64)
                    s2 = st.fork()
                    s2.pc.append(B(ult(k, o.n, 64)))
                    if not self.valid(s2, eq(o.arr.get(k), t[1](st).get(k), o.es * 8), 4000):
                        tm[key] = opts[key].pop(0) if opts[key] else None
                        changed = True
                if not changed:
                    return cands, tm, H
        raise Fail("no fixpoint")

    def coupled(self, cands, tm, g):
        """score: how many ghost locations are tied to the program by surviving equalities; (score, complete)"""
        tied = set()
        for n, f in cands:
            a, _, b = n.partition(" == ")
            if b and ("ghost." in a) != ("ghost." in b):
                x = a if "ghost." in a else b
                tied.add(x[x.index("ghost.") :])
        for t in tm.values():
            if t is not None and "ghost." in t[0]:
                x = t[0].partition(" == ")[2]
                if "ghost." not in x:
                    continue
                tied.add(x[x.index("ghost.") :].split(" ")[0])
        tot = {self.nm(l) for l in self.locs.values() if l.ghost and l.kind in ("int", "ptr", "arr")}
        return len(tied), len(tied) >= len(tot)

    def run(self):
        e, st = self.e, self.st
        self.dropped = set()
        self.mark = next(E._cnt)
        self.gsteps_possible = False
        if not self.discover():
            return None
        best = None
        score = 0
        prog_locs = dict(self.locs)
        ghosts = [g for g in st.ghosts if g["p"].obj in st.mem]
        for g in reversed(ghosts):
            self.gsteps_possible = True
            # one step per iteration
            for pol in self.policies(g):
                self.locs = dict(prog_locs)
                try:
                    cands, tm, H = self.solve([(g, pol)])
                except Fail as x:
                    self.stats["ghost"] = str(x)
                    continue
                sc, full = self.coupled(cands, tm, g)
                if sc > score:
                    score = sc
                    best = (cands, tm, g, pol, dict(self.locs))
                if full:
                    break
            if best:
                break
        if best is None:
            self.gsteps_possible = False
            self.locs = dict(prog_locs)
            cands, tm, H = self.solve([])
            best = (cands, tm, None, None, dict(self.locs))
        cands, tm, g, pol, self.locs = best
        # final pass: obligations inside the body are checked for real
        H = self.header(cands, tm)
        key = f"{e.short(self.fn.name)}:{self.h}"
        if not e.dry:
            inv = [n for n, f in cands] + [t[0] for t in tm.values() if t]
            ent = e.loops_cut.setdefault(key, {"cuts": 0, "invariant": []})
            ent["cuts"] += 1
            ent["invariant"] = inv[:40]
            for n in inv:
                e._rec("loop invariant: " + n, "proved", 0.0, None, st)
        backs, exits = self.run_body(H, dry=bool(e.dry))
        try:
            self.completed(H, backs, exits)
        except Exception as x:
            if e.o.get("debug"):
                raise
        return exits

    def completed(self, H, backs, exits):
        """every completed iteration took one of the back edges: for all it < iterations done, D(it)"""
        if not backs:
            return
        it = z3.BitVec("it!done", 64)
        subs = self.iter_subst(backs, None, it)
        if not subs or self.itvar is None:
            return
        npc = len(H.pc)
        offs = {0}
        strides = set()
        alts = []
        for b in backs:
            cs = []
            for c in b.pc[npc:]:
                c2 = z3.substitute(c, *subs)
                if self.closed(c2, None, H, it) and _uses(c2, it):
                    cs.append(c2)
            for i in b.idx[len(H.idx):]:
                if con(i):
                    continue
                i2 = z3.substitute(i, *subs)
                o = simp(sub(i2, it, 64))
                if con(o):
                    offs.add(o)
                    continue
                for k in (2, 4, 8):
                    if con(simp(sub(i2, it * k, 64))):
                        strides.add(k)
            if not cs:
                return
            alts.append(z3.And(*cs) if len(cs) > 1 else cs[0])
        D = z3.simplify(z3.Or(*alts)) if len(alts) > 1 else alts[0]
        l, ent = self.itvar
        cur = sub(l.h, ent, 64)
        for x in exits:
            for o in offs:

                def fn(t, o=o):
                    return z3.substitute(D, (it, BV(sub(t, o, 64), 64)))

                x.univ.append((o, add(cur, o, 64), fn))
            for k in strides:
                for c in range(k):

                    def fk(t, k=k, c=c):
                        j = z3.LShR(BV(t, 64) + c, k.bit_length() - 1)
                        return z3.Implies(z3.ULT(j, BV(cur, 64)), z3.substitute(D, (it, j)))

                    x.univ.append((0, mask(64), fk))

    def policies(self, g):
        yield 1
        # step until the ghost's leading counter meets a program position
        goid, goff = g["p"].obj, g["p"].off
        st = self.st
        c = st.mem[goid].cells.get(goff)
        if c is None or c[0] != 8 or not is_int(c[1]):
            return
        g0 = c[1]
        for l in list(self.locs.values()):
            if l.kind not in ("int", "ptr") or l.ghost:
                continue
            w = 64 if l.kind == "ptr" else l.w
            if w not in (64, 32):
                continue
            e0 = 0 if l.kind == "ptr" else l.entry

            def pol(S, l=l, w=w, e0=e0):
                a = self.term(l, S)
                if a is None:
                    return 0
                dlt = sub(a, e0, w)
                if w == 32:
                    dlt = zext(dlt, 32, 64)
                gc = S.mem[goid].cells[goff][1]
                return eq(dlt, sub(gc, g0, 64), 64)

            yield pol
        for l in list(self.locs.values()):
            if l.ghost or l.kind not in ("int", "ptr") or (l.kind == "int" and l.w != 64):
                continue
            for f in list(self.locs.values()):
                if f.ghost or f.kind != "int" or f.w != 8 or not con(f.entry):
                    continue
                e0 = 0 if l.kind == "ptr" else l.entry

                def pol2(S, l=l, f=f, e0=e0):
                    a, b = self.term(l, S), self.term(f, S)
                    if a is None or b is None:
                        return 0
                    gc = S.mem[goid].cells[goff][1]
                    return eq(sub(a, e0, 64), add(sub(gc, g0, 64), sub(zext(b, 8, 64), f.entry, 64), 64), 64)

                yield pol2


def _uses(t, v):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        stack.extend(x.children())
    return False


def _maxcnt(H):
    return 0


def cut_loop(e, st, h, body):
    c = Cut(e, st, h, body)
    try:
        ex = c.run()
    except Fail as x:
        raise Unsupported("loop invariant: " + str(x))
    if ex is None:
        # the body never reaches the back edge: no induction needed
        st.top().loopmode[h] = "unroll"
        return None
    return ex
