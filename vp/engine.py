"""Deductive verifier over LLVM IR.

Every path of a harness (contract) function is executed symbolically; calls are inlined from the IR of
/repo's current sources, calls into the C++ standard library are replaced by the models of stl.py, loops
whose trip count is not fixed by the code are cut at an inductive invariant (couple.py) that is searched
from templates and *checked* (entry + preservation) by the solver.
"""
import re
import time
import itertools
import z3
from ir import Unsupported, Ty, I8, I32, I64, PTR, FLOATS
from terms import *
import ir as IR


class Ptr:
    """byte address  base(obj) + off + idx*sc   (off: python int, idx: None or BV64 term)"""

    __slots__ = ("obj", "off", "idx", "sc")

    def __init__(self, obj, off=0, idx=None, sc=1):
        self.obj = obj
        self.off = off
        self.idx = idx
        self.sc = sc

    def __repr__(self):
        return f"Ptr({self.obj}+{self.off}" + (f"+{self.idx}*{self.sc})" if self.idx is not None else ")")

    def same(self, o):
        return (
            self.obj == o.obj
            and self.off == o.off
            and ((self.idx is None and o.idx is None) or (self.idx is not None and o.idx is not None and self.sc == o.sc and self.idx.eq(o.idx)))
        )


NULL = Ptr(0, 0)


class PInt:
    """integer obtained from a pointer"""

    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Agg:
    """first class aggregate"""

    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class FP:
    """floating point value; concrete python float or opaque"""

    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class StrVal:
    """a std::string: owns array object 'buf'"""

    __slots__ = ("buf",)

    def __init__(self, buf):
        self.buf = buf


class VecVal:
    """a modelled std::vector<scalar>: owns array object 'buf'"""

    __slots__ = ("buf", "es")

    def __init__(self, buf, es):
        self.buf = buf
        self.es = es


_cnt = itertools.count(1)


def fresh(name, w):
    n = f"{name}!{next(_cnt)}"
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)


# --------------------------------------------------------------- functional arrays
class Arr:
    """immutable array contents: get(i) -> es*8-bit value, i python int or BV64 term"""

    __slots__ = ("fn", "name")

    def __init__(self, fn, name=""):
        self.fn = fn
        self.name = name

    def get(self, i):
        return self.fn(i)


def arr_fresh(name, es):
    f = z3.Function(f"{name}!{next(_cnt)}", z3.BitVecSort(64), z3.BitVecSort(es * 8))
    a = Arr(lambda i: f(BV(i, 64)), str(f))
    return a


def arr_list(vals, es):
    vals = list(vals)
    cache = {}

    def get(i):
        if con(i):
            return vals[i] if 0 <= i < len(vals) else 0
        k = i.get_id()
        if k in cache and cache[k][0].eq(i):
            return cache[k][1]
        r = tree_select(vals, i, es * 8)
        cache[k] = (i, r)
        return r

    return Arr(get, "lit")


def tree_select(vals, i, w):
    n = len(vals)
    if n == 0:
        return 0
    if n > 16:
        # balanced selection on index bits
        bits = max(1, (n - 1).bit_length())

        def rec(lo, b):
            if lo >= n:
                return None
            if b < 0:
                return vals[lo]
            x = rec(lo, b - 1)
            y = rec(lo + (1 << b), b - 1)
            if y is None:
                return x
            if con(x) and con(y) and x == y:
                return x
            return z3.If(z3.Extract(b, b, i) == BV(1, 1), BV(y, w), BV(x, w))

        return rec(0, bits - 1)
    r = vals[-1]
    for k in range(n - 2, -1, -1):
        r = ite(i == BV(k, 64), vals[k], r, w)
    return r


def arr_shift(a, off):
    """b[i] = a[i+off]"""
    if con(off) and off == 0:
        return a
    return Arr(lambda i: a.get(add(i, off, 64)), a.name)


def arr_concat(a, n, b, w):
    """a[0..n) ++ b"""
    if con(n) and n == 0:
        return b

    def get(i):
        if con(i) and con(n):
            return a.get(i) if i < n else b.get(i - n)
        c = simp(ult(i, n, 64))
        if con(c):
            return a.get(i) if c else b.get(sub(i, n, 64))
        # i == n + const
        d = sub(i, n, 64)
        if con(d):
            if d < (1 << 62):
                return b.get(d)
            return a.get(i)
        return ite(c, a.get(i), b.get(d), w)

    return Arr(get)


def arr_store(a, k, v, w):
    def get(i):
        c = eq(i, k, 64)
        if not con(c):
            c = simp(c)
        if con(c):
            return v if c else a.get(i)
        return ite(c, v, a.get(i), w)

    return Arr(get)


# --------------------------------------------------------------- memory
class Obj:
    __slots__ = ("kind", "size", "cells", "dflt", "tok", "es", "n", "arr", "name", "ro", "nul", "bounds")

    def __init__(self, kind, size=None, name="", dflt="undef"):
        self.kind = kind  # cells | arr | func | opaque
        self.size = size
        self.cells = {}
        self.dflt = dflt
        self.tok = None
        self.es = 1
        self.n = 0
        self.arr = None
        self.name = name
        self.ro = False
        self.nul = False
        self.bounds = True

    def clone(self, tok):
        o = Obj(self.kind, self.size, self.name, self.dflt)
        o.cells = dict(self.cells)
        o.tok = tok
        o.es = self.es
        o.n = self.n
        o.arr = self.arr
        o.ro = self.ro
        o.nul = self.nul
        o.bounds = self.bounds
        return o


class Frame:
    __slots__ = ("fn", "env", "blk", "prev", "ip", "res", "inv", "tok", "loopmode", "loopcnt", "onret", "rty")

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.blk = fn.entry if fn else None
        self.prev = None
        self.ip = 0
        self.res = None
        self.inv = None
        self.tok = None
        self.loopmode = {}
        self.loopcnt = {}
        self.onret = None
        self.rty = None

    def clone(self, tok):
        f = Frame(None)
        f.fn = self.fn
        f.env = dict(self.env)
        f.blk = self.blk
        f.prev = self.prev
        f.ip = self.ip
        f.res = self.res
        f.inv = self.inv
        f.tok = tok
        f.loopmode = dict(self.loopmode)
        f.loopcnt = dict(self.loopcnt)
        f.onret = self.onret
        f.rty = self.rty
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "univ", "idx", "trace", "nondets", "exc", "caught", "tok", "ghosts", "globs", "notes", "status", "retval", "steps", "approx", "pins", "kv")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.univ = []
        self.idx = []
        self.trace = []
        self.nondets = []
        self.exc = None
        self.caught = []
        self.tok = object()
        self.ghosts = []
        self.globs = {}
        self.notes = []
        self.status = None
        self.retval = None
        self.steps = 0
        self.approx = False
        self.pins = {}
        self.kv = {}

    def fork(self):
        s = State()
        s.frames = list(self.frames)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.univ = list(self.univ)
        s.idx = list(self.idx)
        s.trace = list(self.trace)
        s.nondets = list(self.nondets)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.ghosts = list(self.ghosts)
        s.globs = dict(self.globs)
        s.notes = list(self.notes)
        s.status = self.status
        s.retval = self.retval
        s.steps = self.steps
        s.approx = self.approx
        s.pins = dict(self.pins)
        s.kv = dict(self.kv)
        self.tok = object()
        s.tok = object()
        return s

    def top(self):
        f = self.frames[-1]
        if f.tok is not self.tok:
            f = f.clone(self.tok)
            self.frames[-1] = f
        return f

    def wobj(self, oid):
        o = self.mem[oid]
        if o.tok is not self.tok:
            o = o.clone(self.tok)
            self.mem[oid] = o
        return o

    def new_obj(self, o):
        oid = next(_cnt)
        o.tok = self.tok
        self.mem[oid] = o
        return oid

    def new_arr(self, es, n, arr, name="", nul=False):
        o = Obj("arr", None, name)
        o.es = es
        o.n = n
        o.arr = arr
        o.nul = nul
        return self.new_obj(o)


class Dead(Exception):
    """path infeasible / ended"""


class Failed(Exception):
    """a named obligation failed"""

    def __init__(self, ob):
        self.ob = ob


class Throw(Exception):
    def __init__(self, ptr, tinfo):
        self.ptr = ptr
        self.tinfo = tinfo


class ForkReq(Exception):
    """re-execute the current instruction in several states: list of (state)"""

    def __init__(self, states):
        self.states = states


class LoopCtx:
    def __init__(self, depth, header, body):
        self.depth = depth
        self.header = header
        self.body = body
        self.backs = []
        self.exits = []
        self.sym_exit = False
        self.con_exit = False
        self.fx_sym = False
        self.fx_con = False
        self.first = True


class Engine:
    def __init__(self, mods, opts=None):
        self.mods = mods
        self.o = {
            "timeout": 20000,  # ms per obligation
            "max_steps": 3_000_000,
            "max_paths": 20000,
            "unroll": 300,
            "symunroll": 12,
            "wall": 600,
            "ub": True,
            "bounded": None,  # int: no loop cutting; unroll symbolic loops at most this often
            "overflow": True,
        }
        if opts:
            self.o.update(opts)
        self.funcs = {}
        self.gmod = {}
        self.decls = set()
        alln = set()
        self.aliases = {}
        self.bytag = {m.tag: m for m in mods}
        for m in mods:
            for n, f in m.funcs.items():
                internal = re_internal(f.header)
                if n not in self.funcs or not internal:
                    if n not in self.funcs:
                        self.funcs[n] = f
                alln.add(n)
            for n in m.decls:
                alln.add(n)
            for n, g in m.globals.items():
                ext = isinstance(g, str) and (g.startswith("external") or g.startswith("extern_weak"))
                if n not in self.gmod or (self.gmod[n][1] and not ext):
                    self.gmod[n] = (m, ext)
            self.aliases.update(m.aliases)
        self.dn = IR.demangle_all(sorted(alln))
        import stl

        self.models = stl.Models(self)
        self.modelcache = {}
        self.mergecache = {}
        self.usecache = {}
        self.dyncache = {}
        self.dynactive = []
        self.contracts_used = set()
        self.simplecache = {}
        self.obligations = []  # (name, status, secs)
        self.failures = []
        self.unsup = []
        self.solver_time = 0.0
        self.nq = 0
        self.paths = 0
        self.steps = 0
        self.inlined = set()
        self.modelled = set()
        self.covers = {}
        self.tids = {}
        self.loops_cut = {}
        self.dry = 0
        self.buf = None
        self.t0 = time.time()
        self._s = z3.SolverFor("QF_UFBV") if False else z3.Solver()
        self._s.set("timeout", 1000)
        self._stk = []
        self.funcobjs = {}
        self.loopstack = []
        self.unknowns = 0

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        stk = self._stk
        i = 0
        n = min(len(stk), len(pc))
        while i < n and stk[i] is pc[i]:
            i += 1
        if len(stk) > i:
            self._s.pop(len(stk) - i)
            del stk[i:]
        for c in pc[i:]:
            self._s.push()
            self._s.add(c)
            stk.append(c)

    def feasible(self, st, cond=None):
        if cond is not None:
            if con(cond):
                if not cond:
                    return False
                cond = None
        t = time.time()
        self._sync(st.pc)
        r = self._s.check(cond) if cond is not None else self._s.check()
        self.nq += 1
        if r == z3.unknown and self.int_unsat(st, cond):
            r = z3.unsat
        self.solver_time += time.time() - t
        return r != z3.unsat

    def int_unsat(self, st, cond):
        s3 = z3.Solver()
        s3.add(*st.pc)
        if cond is not None:
            s3.add(B(cond))
        return self._cvc5(s3, 3000, ("--solve-bv-as-int=sum",))[0] == "proved"

    def instances(self, st, extra=()):
        out = []
        if not st.univ:
            return out
        seen = set()
        terms = []
        for i in list(st.idx) + list(extra):
            if con(i):
                i = BV(i, 64)
            k = i.get_id()
            if k not in seen:
                seen.add(k)
                terms.append(i)
        terms = terms[-60:]
        for lo, hi, fn in st.univ:
            sk = getattr(fn, "sk", None)
            if sk:
                for t in list(terms):
                    for x in sk(t):
                        if not con(x) and x.get_id() not in seen:
                            seen.add(x.get_id())
                            terms.append(x)
        self.models.cur_idx = terms
        for lo, hi, fn in st.univ:
            for t in terms:
                f = Implies(And(ule(lo, t, 64), ult(t, hi, 64)), fn(t))
                if not con(f):
                    out.append(f)
        return out

    def check_valid(self, st, phi, timeout=None, extra=()):
        """-> ('proved',None) | ('fail',model) | ('unknown',reason)"""
        phi = simp(phi) if not con(phi) else phi
        if con(phi) and phi:
            return "proved", None
        if not con(phi) and any(phi.eq(c) for c in st.pc):
            return "proved", None
        t = time.time()
        self.nq += 1
        s = z3.Solver()
        s.set("timeout", timeout or self.o["timeout"])
        for c in st.pc:
            s.add(c)
        for c in self.instances(st, extra):
            s.add(c)
        s.add(B(Not(phi)))
        ab = abstract_nonlinear(list(s.assertions()))
        if ab is not None:
            # sound over-approximation: symbolic products/quotients as arbitrary values
            s2 = z3.Solver()
            s2.set("timeout", 4000)
            s2.add(*ab)
            if s2.check() == z3.unsat:
                self.solver_time += time.time() - t
                return "proved", None
        orig = list(s.assertions())
        full = timeout or self.o["timeout"]
        s.set("timeout", min(1500, full))
        r = s.check()
        if r == z3.unknown:
            # length and index arithmetic is often easy over the integers
            s3 = z3.Solver()
            s3.add(*orig)
            if self._cvc5(s3, min(full, self.o.get("inttmo", 12000)), ("--solve-bv-as-int=sum",))[0] == "proved":
                self.solver_time += time.time() - t
                return "proved", None
            if full > 1500:
                s.set("timeout", full)
                r = s.check()
        res = None
        if r == z3.unsat:
            res = ("proved", None)
        elif r == z3.sat:
            res = ("fail", (s.model(), s))
        else:
            # second back end
            s3 = z3.Solver()
            s3.add(*orig)
            res = self._cvc5(s3, full)
        self.solver_time += time.time() - t
        return res

    def _cvc5(self, s, tmo, opts=()):
        import subprocess, tempfile, os

        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            try:
                r = subprocess.run(["cvc5", f"--tlimit={tmo}", *opts, f.name], capture_output=True, text=True, timeout=tmo / 1000 + 5)
            finally:
                os.unlink(f.name)
            o = r.stdout.strip().split("\n")[0]
            if o == "unsat":
                self.cvc5_used = getattr(self, "cvc5_used", 0) + 1
                return ("proved", None)
            return ("unknown", "cvc5: " + o)
        except Exception as e:
            return ("unknown", "timeout " + str(e)[:80])

    def assume(self, st, c):
        if con(c):
            if not c:
                raise Dead()
            return
        c = simp(c)
        if con(c):
            if not c:
                raise Dead()
            return
        st.pc.append(c)

    def oblige(self, st, phi, name, kind="assert", fatal=True):
        """prove phi under st.pc; on failure record. Afterwards assume phi."""
        if con(phi) and phi:
            if kind == "assert":
                self._rec(name, "proved", 0.0, None, st)
            return True
        if self.dry:
            self.assume(st, phi)
            return True
        t = time.time()
        r, m = self.check_valid(st, phi)
        dt = time.time() - t
        self._rec(name, r, dt, m, st)
        self.assume(st, phi)
        return r == "proved"

    def _rec(self, name, r, dt, m, st):
        where = self.where(st)
        if self.dry:
            return
        ent = {"name": name, "status": r, "t": dt, "where": where}
        if r == "fail":
            ent["cex"] = self.extract_cex(st, m)
            # facts about all elements are only instantiated at some: a model is then only a candidate
            ent["approx"] = st.approx or bool(st.univ)
            ent["cut"] = bool(st.kv.get("cut"))
        elif r == "unknown":
            ent["reason"] = m
        (self.buf if self.buf is not None else self.obligations).append(ent)

    def where(self, st):
        out = []
        for f in st.frames[-3:]:
            if f.fn:
                out.append(self.short(f.fn.name) + ":" + str(f.blk))
        return " > ".join(out)

    def short(self, n):
        d = self.dn.get(n, n)
        return d if len(d) < 120 else d[:117] + "..."

    def extract_cex(self, st, mm):
        if mm is None:
            return None
        model, s = mm
        # try to get small strings first
        lens = [n for (_, k, n, _) in st.nondets if k in ("str", "vec") and not con(n)]
        best = model
        if lens:
            for cap in (3, 8, 40, 300):
                s.push()
                for n in lens:
                    s.add(z3.ULE(n, BV(cap, 64)))
                s.set("timeout", 3000)
                r = s.check()
                if r == z3.sat:
                    best = s.model()
                    s.pop()
                    break
                s.pop()
        out = []
        for name, k, n, v in st.nondets:
            if k == "int":
                if con(v):
                    out.append((name, "int", v))
                else:
                    x = best.eval(v, model_completion=True)
                    out.append((name, "int", int(z3.is_true(x)) if z3.is_bool(x) else x.as_long()))
            else:
                ln = n if con(n) else best.eval(n, model_completion=True).as_long()
                vals = []
                for i in range(min(ln, 20000)):
                    x = v.get(i)
                    vals.append(x if con(x) else best.eval(x, model_completion=True).as_long())
                out.append((name, k, vals))
        return out

    # ------------------------------------------------------------ memory access
    def fkey(self, m, name):
        """unique key of a function referenced as 'name' from module m"""
        name = self.aliases.get(name, name)
        f = m.funcs.get(name) if m is not None else None
        if f is not None and re_internal(f.header):
            return (m.tag, name)
        return name

    def getf(self, key):
        if isinstance(key, tuple):
            return self.bytag[key[0]].funcs[key[1]]
        return self.funcs.get(key)

    def gobj(self, st, name, mod=None):
        """object id for a global variable or function referenced from module mod"""
        name = self.aliases.get(name, name)
        gkey = name
        if mod is not None and name in mod.globals:
            g = mod.globals[name]
            if mod.is_local(name):
                gkey = (mod.tag, name)
        if gkey in st.globs:
            return st.globs[gkey]
        if name in self.funcs or (name in self.dn and name not in self.gmod):
            k = self.fkey(mod, name)
            if k in st.globs:
                return st.globs[k]
            if k in self.funcobjs:
                oid = self.funcobjs[k]
            else:
                oid = self.funcobjs[k] = next(_cnt)
            if oid not in st.mem:
                o = Obj("func", 1, k)
                o.tok = st.tok
                st.mem[oid] = o
            st.globs[k] = oid
            return oid
        key = ("G", gkey)
        if key in self.funcobjs:
            oid = self.funcobjs[key]
        else:
            oid = self.funcobjs[key] = next(_cnt)
        if name in self.gmod:
            m, ext = self.gmod[name]
            if gkey != name:
                m, ext = mod, False
            ty, init, const = m.global_init(name)
            try:
                size = m.size(ty)
            except Unsupported:
                size = None
            o = Obj("cells", size, name, "undef")
            o.ro = const
            o.tok = st.tok
            st.mem[oid] = o
            st.globs[gkey] = oid
            if ext or init is None:
                o.dflt = "extern"
                if name.startswith("_ZT"):
                    o.dflt = "undef"
            else:
                self.init_const(st, m, o, 0, ty, init)
                if not const and init[0] == "zero":
                    f = self.dyninit(m).get(name)
                    if f is not None:
                        self.run_dyninit(st, f)
            return oid
        raise Unsupported("global " + name)

    def dyninit(self, m):
        """dynamic initialisers of the module: global -> function"""
        d = self.dyncache.get(m.tag)
        if d is None:
            d = self.dyncache[m.tag] = {}
            for fn in list(m.funcs):
                if fn.startswith("__cxx_global_var_init"):
                    f = m.funcs[fn]
                    f.parse()
                    for b in f.blocks.values():
                        for i in b.ins:
                            for op in (i.a, i.b, i.c, i.d):
                                self._globs_in(op, lambda g: d.setdefault(g, f))
        return d

    def _globs_in(self, x, cb, depth=0):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "glob" and isinstance(x[1], str):
            cb(x[1])
        elif isinstance(x, (list, tuple)) and depth < 6:
            for y in x:
                self._globs_in(y, cb, depth + 1)

    def run_dyninit(self, st, f):
        if f in self.dynactive:
            return
        self.dynactive.append(f)
        try:
            s = st.fork()
            s.kv.pop("hdr", None)
            s.kv.pop("lstart", None)

            def cb(t, v):
                t.status = "ginit"

            l = LoopCtx(-1, None, ())
            self.loopstack.append(l)
            bnd, self.o["bounded"] = self.o["bounded"], None  # an initialiser runs to its end
            try:
                self.push_call(s, f, [], None, cb)
                self.explore([s], l)
            finally:
                self.o["bounded"] = bnd
                self.loopstack.pop()
            if len(l.exits) != 1 or l.exits[0].status != "ginit":
                raise Unsupported("initialiser of a global")
            t = l.exits[0]
            st.mem, st.globs, st.pc, st.pins = t.mem, t.globs, t.pc, t.pins
            st.tok = object()
        finally:
            self.dynactive.pop()

    def init_const(self, st, m, o, off, ty, v):
        k = v[0]
        if k == "zero":
            if o.dflt != "zero" and off == 0 and o.size == m.size(ty):
                o.dflt = "zero"
            elif o.dflt != "zero":
                self.zero_fill(o, off, m.size(ty))
            return
        if k == "undef":
            return
        if k == "str":
            # byte table
            b = v[1]
            for i, x in enumerate(b):
                o.cells[off + i] = (1, x)
            return
        if k == "agg":
            rt = m.resolve(ty)
            if rt.k == "arr":
                es = m.size(rt.b)
                for i, (ety, ev) in enumerate(v[2]):
                    self.init_const(st, m, o, off + i * es, ety, ev)
            elif rt.k == "struct":
                for i, (ety, ev) in enumerate(v[2]):
                    fo, _ = m.field_off(rt, i)
                    self.init_const(st, m, o, off + fo, ety, ev)
            else:
                raise Unsupported("agg const")
            return
        o.cells[off] = (m.size(ty), self.constval(st, m, ty, v))

    def zero_fill(self, o, off, n):
        # keep 8-byte granularity
        p = off
        end = off + n
        while p < end:
            s = 8 if p % 8 == 0 and end - p >= 8 else (4 if p % 4 == 0 and end - p >= 4 else 1)
            o.cells[p] = (s, 0)
            p += s

    def constval(self, st, m, ty, v):
        k = v[0]
        if k == "int":
            return v[1]
        if k == "null":
            return NULL
        if k == "glob":
            return Ptr(self.gobj(st, v[1], m))
        if k == "zero":
            return self.zeroval(m, ty)
        if k == "undef":
            return self.undefval(m, ty)
        if k == "fp":
            return FP(v[1])
        if k == "fpraw":
            return FP(None)
        if k == "gep":
            base = self.constval(st, m, PTR, v[2])
            return self.do_gep(st, m, v[1], base, [(t, self.constval(st, m, t, x)) for t, x in v[3]])
        if k == "cast":
            x = self.constval(st, m, v[2], v[3])
            return self.do_cast(st, m, v[1], v[2], x, v[4])
        if k == "bin":
            a = self.constval(st, m, v[2], v[3])
            b = self.constval(st, m, v[2], v[4])
            return self.do_bin(st, v[1], v[2], a, b, ())
        if k == "agg":
            return Agg([self.constval(st, m, t, x) for t, x in v[2]])
        raise Unsupported("const " + k)

    def zeroval(self, m, ty):
        ty = m.resolve(ty) if ty.k == "named" else ty
        if ty.k == "i":
            return 0
        if ty.k == "ptr":
            return NULL
        if ty.k in FLOATS:
            return FP(0.0)
        if ty.k == "struct":
            return Agg([self.zeroval(m, f) for f in ty.a])
        if ty.k == "arr":
            return Agg([self.zeroval(m, ty.b) for _ in range(ty.a)])
        raise Unsupported("zeroval")

    def undefval(self, m, ty):
        ty = m.resolve(ty) if ty.k == "named" else ty
        if ty.k == "struct":
            return Agg([self.undefval(m, f) for f in ty.a])
        if ty.k == "arr":
            return Agg([self.undefval(m, ty.b) for _ in range(ty.a)])
        return UNDEF

    def bounds(self, st, p, size, what):
        if p.obj == 0:
            self.oblige(st, 0, "no-null-dereference", "ub")
            raise Dead()
        o = st.mem.get(p.obj)
        if o is None:
            # dead / freed object
            self.oblige(st, 0, "no-dangling-access", "ub")
            raise Dead()
        return o

    def elem_index(self, p, es):
        if p.off % es:
            return None
        if p.idx is None:
            return p.off // es
        if p.sc % es:
            if p.sc == 1 and es in (2, 4, 8):
                return add(z3.LShR(p.idx, es.bit_length() - 1), p.off // es, 64)
            return None
        return add(mul(p.idx, p.sc // es, 64), (p.off // es) & mask(64), 64)

    def arr_n(self, o):
        return o.n

    def load(self, st, p, size, ty=None):
        """load an integer/pointer/float cell of 'size' bytes"""
        if isinstance(p, Undef):
            raise Unsupported("load through undef pointer")
        o = self.bounds(st, p, size, "load")
        if o.kind == "arr":
            i = self.elem_index(p, o.es)
            if i is None or size != o.es:
                if o.es == 1 and i is not None and size > 1:
                    parts = []
                    for k in range(size):
                        parts.append((self.arr_get(st, o, add(i, k, 64)), 1))
                    return concat_bytes(parts)
                raise Unsupported(f"array access size {size} es {o.es}")
            return self.arr_get(st, o, i)
        if o.kind == "cells":
            if p.idx is None:
                return self.cload(st, o, p.off, size, ty)
            return self.symload(st, p, o, size, ty)
        raise Unsupported("load from " + o.kind + " " + str(o.name))

    def arr_get(self, st, o, i):
        n = o.n
        if con(i) and i >= 1 << 63:
            self.oblige(st, 0, "no-out-of-bounds-access", "ub")
            raise Dead()
        c = ult(i, n, 64)
        if not con(c):
            c = simp(c)
        if con(c) and c:
            return o.arr.get(i)
        if o.nul:
            # index n reads the terminator
            if not con(c):
                if self.quick_valid(st, c):
                    self.note_idx(st, i)
                    return o.arr.get(i)
            if not self.oblige(st, ule(i, n, 64), "no-out-of-bounds-access", "ub"):
                pass
            self.note_idx(st, i)
            if con(c):
                return 0
            e = simp(eq(i, n, 64))
            if con(e):
                return 0 if e else o.arr.get(i)
            return ite(e, 0, o.arr.get(i), 8 * o.es)
        self.oblige(st, c, "no-out-of-bounds-access", "ub")
        self.note_idx(st, i)
        return o.arr.get(i)

    def quick_valid(self, st, c):
        if con(c):
            return bool(c)
        t = time.time()
        self._sync(st.pc)
        r = self._s.check(B(Not(c)))
        self.nq += 1
        if r == z3.unknown and self.int_unsat(st, Not(c)):
            r = z3.unsat
        self.solver_time += time.time() - t
        return r == z3.unsat

    def note_idx(self, st, i):
        if not con(i):
            st.idx.append(i)

    def store(self, st, p, size, v):
        if isinstance(p, Undef):
            raise Unsupported("store through undef pointer")
        o = self.bounds(st, p, size, "store")
        if o.ro:
            raise Unsupported("store to constant " + o.name)
        if o.kind == "arr":
            i = self.elem_index(p, o.es)
            if i is None or size != o.es:
                raise Unsupported(f"array store size {size} es {o.es}")
            if isinstance(v, Undef):
                v = fresh("undef", size * 8)
            c = ult(i, o.n, 64)
            if o.nul and con(v) and v == 0:
                c = ule(i, o.n, 64)
            self.oblige(st, c, "no-out-of-bounds-access", "ub")
            self.note_idx(st, i)
            o = st.wobj(p.obj)
            o.arr = arr_store(o.arr, i, v, o.es * 8)
            return
        if o.kind == "cells":
            if p.idx is None:
                o = st.wobj(p.obj)
                self.cstore(st, o, p.off, size, v)
            else:
                self.symstore(st, p, o, size, v)
            return
        if o.kind == "opaque":
            return
        raise Unsupported("store to " + o.kind)

    def cload(self, st, o, off, size, ty=None):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if o.size is not None and con(o.size) and (off < 0 or off + size > o.size):
            self.oblige(st, 0, "no-out-of-bounds-access", "ub")
            raise Dead()
        if o.kind == "opaque":
            return fresh("opaque", size * 8)
        # compose
        ov = self._overlap(o, off, size)
        if not ov:
            if o.dflt == "zero":
                return 0
            if o.dflt == "extern":
                raise Unsupported("load of external data " + o.name)
            return UNDEF
        parts = []
        pos = off
        for co, (cs, cv) in ov:
            if co > pos:
                parts.append(((0 if o.dflt == "zero" else fresh("undef", 8 * (co - pos))), co - pos))
                pos = co
            lo = pos - co
            n = min(cs - lo, off + size - pos)
            if isinstance(cv, Undef):
                cv = fresh("undef", cs * 8)
            if isinstance(cv, Ptr) and cv.obj == 0 and cv.idx is None:
                cv = cv.off & mask(64)
            if not (con(cv) or isinstance(cv, z3.BitVecRef)):
                if isinstance(cv, z3.BoolRef):
                    cv = zext(cv, 1, 8)
                elif isinstance(cv, (StrVal, VecVal)) :
                    r = self.models.raw_field(st, cv, lo, n)
                    if r is None:
                        raise Unsupported("raw access to library object")
                    if n == size:
                        return r
                    raise Unsupported("raw access to library object")
                else:
                    raise Unsupported(f"partial load of {type(cv).__name__} cell ({cs}) as {size}")
            parts.append((extract_bytes(cv, cs * 8, lo, n), n))
            pos += n
        if pos < off + size:
            parts.append(((0 if o.dflt == "zero" else fresh("undef", 8 * (off + size - pos))), off + size - pos))
        return concat_bytes(parts)

    def _overlap(self, o, off, size):
        r = []
        cells = o.cells
        if len(cells) > 64:
            for co in range(off - 32, off + size):
                c = cells.get(co)
                if c is not None and co + c[0] > off:
                    r.append((co, c))
            return r
        for co, c in cells.items():
            if co < off + size and co + c[0] > off:
                r.append((co, c))
        r.sort(key=lambda x: x[0])
        return r

    def cstore(self, st, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v)
            return
        if o.size is not None and con(o.size) and (off < 0 or off + size > o.size):
            self.oblige(st, 0, "no-out-of-bounds-access", "ub")
            raise Dead()
        for co, (cs, cv) in self._overlap(o, off, size):
            del o.cells[co]
            if isinstance(cv, Undef):
                continue
            if co < off or co + cs > off + size:
                if isinstance(cv, Ptr) and cv.obj == 0 and cv.idx is None:
                    cv = cv.off & mask(64)
                if isinstance(cv, z3.BoolRef):
                    cv = zext(cv, 1, 8)
                if not (con(cv) or isinstance(cv, z3.BitVecRef)):
                    if isinstance(cv, (StrVal, VecVal)):
                        raise Unsupported("raw store into library object")
                    raise Unsupported("partial overwrite of non-int")
                if co < off:
                    o.cells[co] = (off - co, extract_bytes(cv, cs * 8, 0, off - co))
                e = off + size
                if co + cs > e:
                    o.cells[e] = (co + cs - e, extract_bytes(cv, cs * 8, e - co, co + cs - e))
        o.cells[off] = (size, v)

    def sym_targets(self, st, p, o, size):
        """possible concrete byte offsets of p in cell object o"""
        if o.size is None or not con(o.size):
            raise Unsupported("symbolic offset in unsized object")
        step = p.sc
        r = []
        lo = p.off % step if step > 1 else 0
        for x in range(lo, o.size - size + 1, step):
            r.append(x)
        return r

    def symload(self, st, p, o, size, ty):
        offs = self.sym_targets(st, p, o, size)
        if len(offs) > 70000:
            raise Unsupported("symbolic offset: too many targets")
        i = p.idx  # off + idx*sc == x  <=> idx == (x-off)/sc
        n = len(offs)
        if n == 0:
            self.oblige(st, 0, "no-out-of-bounds-access", "ub")
            raise Dead()
        base = (offs[0] - p.off) // p.sc
        j = add(i, (-base) & mask(64), 64)
        self.oblige(st, ult(j, n, 64), "no-out-of-bounds-access", "ub")
        vals = [self.cload(st, o, x, size, ty) for x in offs]
        if all(con(v) or isinstance(v, z3.BitVecRef) for v in vals):
            if n > 16 and (n & (n - 1)):
                pass
            return norm(tree_select(vals, BV(j, 64), size * 8))
        # pointers etc.: fork on the index value
        return self.fork_on(st, j, n, vals)

    def fork_on(self, st, j, n, vals):
        groups = []
        for k in range(n):
            for g in groups:
                if vals[k] is g[0] or (isinstance(vals[k], Ptr) and isinstance(g[0], Ptr) and vals[k].same(g[0])):
                    g[1].append(k)
                    break
            else:
                groups.append((vals[k], [k]))
        if len(groups) == 1:
            return groups[0][0]
        if len(groups) > 600:
            raise Unsupported("symbolic pointer table")
        key = ("forkon", BV(j, 64).get_id())
        if key in st.pins:
            k = st.pins[key]
            for v, ks in groups:
                if k in ks:
                    return v
        states = []
        for v, ks in groups:
            c = Or(*[eq(j, k, 64) for k in ks])
            if self.feasible(st, c):
                s = st.fork()
                self.assume(s, c)
                s.pins[key] = ks[0]
                states.append(s)
        raise ForkReq(states)

    def symstore(self, st, p, o, size, v):
        offs = self.sym_targets(st, p, o, size)
        n = len(offs)
        base = (offs[0] - p.off) // p.sc
        j = add(p.idx, (-base) & mask(64), 64)
        self.oblige(st, ult(j, n, 64), "no-out-of-bounds-access", "ub")
        if n > 600:
            raise Unsupported("symbolic store: too many targets")
        if isinstance(v, Undef):
            v = fresh("undef", size * 8)
        o = st.wobj(p.obj)
        for k, x in enumerate(offs):
            old = self.cload(st, o, x, size)
            if isinstance(old, Undef):
                old = fresh("undef", size * 8)
            if not (con(old) or isinstance(old, z3.BitVecRef)) or not (con(v) or isinstance(v, z3.BitVecRef)):
                raise Unsupported("symbolic store of non-int")
            self.cstore(st, o, x, size, ite(simp(eq(j, k, 64)), v, old, size * 8))

    def memcpy(self, st, d, s, n):
        if con(n) and n == 0:
            return
        if not con(n):
            n = simp(n)
        if not con(n):
            so = self.bounds(st, s, 1, "memcpy")
            do = self.bounds(st, d, 1, "memcpy")
            if so.kind == "arr" and do.kind == "arr" and so.es == do.es:
                es = so.es
                si = self.elem_index(s, es)
                di = self.elem_index(d, es)
                ne = n if es == 1 else self.exact_div(n, es)
                self.oblige(st, And(ule(si, so.n, 64), ule(ne, sub(so.n, si, 64), 64)), "no-out-of-bounds-access", "ub")
                self.oblige(st, And(ule(di, do.n, 64), ule(ne, sub(do.n, di, 64), 64)), "no-out-of-bounds-access", "ub")
                src = so.arr
                w = es * 8
                dst = do.arr
                dw = st.wobj(d.obj)

                def get(i):
                    c = And(ule(di, i, 64), ult(sub(i, di, 64), ne, 64))
                    c = simp(c)
                    if con(c):
                        return src.get(add(sub(i, di, 64), si, 64)) if c else dst.get(i)
                    return ite(c, src.get(add(sub(i, di, 64), si, 64)), dst.get(i), w)

                dw.arr = Arr(get)
                return
            raise Unsupported("memcpy of symbolic size")
        so = self.bounds(st, s, n, "memcpy")
        do = self.bounds(st, d, n, "memcpy")
        if so.kind == "cells" and do.kind == "cells" and s.idx is None and d.idx is None:
            if so.size is not None and con(so.size) and (s.off < 0 or s.off + n > so.size):
                self.oblige(st, 0, "no-out-of-bounds-access", "ub")
                raise Dead()
            if do.size is not None and con(do.size) and (d.off < 0 or d.off + n > do.size):
                self.oblige(st, 0, "no-out-of-bounds-access", "ub")
                raise Dead()
            items = []
            cover = s.off
            for co, (cs, cv) in self._overlap_all(so, s.off, n):
                lo = max(co, s.off)
                hi = min(co + cs, s.off + n)
                if lo == co and hi == co + cs:
                    items.append((lo - s.off, cs, cv))
                else:
                    items.append((lo - s.off, hi - lo, self.cload(st, so, lo, hi - lo)))
            dw = st.wobj(d.obj)
            # clear destination range
            for co, (cs, cv) in self._overlap_all(dw, d.off, n):
                if co >= d.off and co + cs <= d.off + n:
                    del dw.cells[co]
                else:
                    self.cstore(st, dw, max(co, d.off), min(co + cs, d.off + n) - max(co, d.off), UNDEF)
            covered = 0
            for o_, cs, cv in items:
                if isinstance(cv, (StrVal, VecVal)):
                    raise Unsupported("memcpy of library object")
                dw.cells[d.off + o_] = (cs, cv)
                covered += cs
            if covered < n and so.dflt == "zero" and dw.dflt != "zero":
                pos = 0
                for o_, cs, cv in sorted(items, key=lambda x: x[0]) + [(n, 0, None)]:
                    if o_ > pos:
                        self.zero_fill_if(dw, d.off + pos, o_ - pos)
                    pos = o_ + cs
            elif covered < n and dw.dflt == "zero" and so.dflt != "zero":
                pos = 0
                for o_, cs, cv in sorted(items, key=lambda x: x[0]) + [(n, 0, None)]:
                    if o_ > pos:
                        dw.cells[d.off + pos] = (o_ - pos, UNDEF)
                    pos = o_ + cs
            return
        # element-wise
        es = 1
        if so.kind == "arr":
            es = so.es
        if do.kind == "arr":
            es = max(es, do.es)
        if n > 100000:
            raise Unsupported("memcpy large")
        vals = []
        for k in range(0, n, es):
            vals.append(self.load(st, Ptr(s.obj, s.off + k, s.idx, s.sc), es))
        for k in range(0, n, es):
            self.store(st, Ptr(d.obj, d.off + k, d.idx, d.sc), es, vals[k // es])

    def zero_fill_if(self, o, off, n):
        self.zero_fill(o, off, n)

    def _overlap_all(self, o, off, n):
        if len(o.cells) > 200 and n < 64:
            return self._overlap(o, off, n)
        r = [(co, c) for co, c in o.cells.items() if co < off + n and co + c[0] > off]
        r.sort(key=lambda x: x[0])
        return r

    def exact_div(self, t, c):
        if con(t):
            return t // c
        if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2:
            a, b = t.arg(0), t.arg(1)
            if isinstance(b, z3.BitVecNumRef) and b.as_long() == c:
                return norm(a)
            if isinstance(a, z3.BitVecNumRef) and a.as_long() == c:
                return norm(b)
        if z3.is_app_of(t, z3.Z3_OP_BADD):
            # sum of multiples
            parts = [self.exact_div_try(t.arg(k), c) for k in range(t.num_args())]
            if all(p is not None for p in parts):
                r = parts[0]
                for p in parts[1:]:
                    r = add(r, p, 64)
                return r
        return None

    def exact_div_try(self, t, c):
        if isinstance(t, z3.BitVecNumRef):
            v = sgn(t.as_long(), t.size())
            return (v // c) & mask(t.size()) if v % c == 0 else None
        return self.exact_div(t, c)

    # ------------------------------------------------------------ values
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == "ssa":
            try:
                return fr.env[v[1]]
            except KeyError:
                raise Unsupported("ssa value " + v[1])
        if k == "int":
            return v[1]
        return self.constval(st, fr.fn.mod, ty, v)

    def ival(self, st, fr, ty, v):
        x = self.val(st, fr, ty, v)
        if isinstance(x, Undef):
            w = ty.a if ty.k == "i" else 64
            x = fresh("undef", w)
        return x

    # ------------------------------------------------------------ arithmetic
    def do_bin(self, st, op, ty, a, b, fl):
        if ty.k in FLOATS:
            return self.do_fbin(op, a, b)
        w = ty.a
        if isinstance(a, Undef):
            a = fresh("undef", w)
        if isinstance(b, Undef):
            b = fresh("undef", w)
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.pint_bin(st, op, a, b, w, fl)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("binop on pointer")
        ca, cb = con(a), con(b)
        ub = self.o["overflow"]
        if w == 1:
            if op == "xor":
                if cb:
                    return Not(a) if b else a
                if ca:
                    return Not(b) if a else b
                return z3.Xor(a, b)
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            raise Unsupported("i1 " + op)
        if op == "add":
            r = add(a, b, w)
            if ub and "nsw" in fl:
                if ca and cb:
                    s = sgn(a, w) + sgn(b, w)
                    ok = int(-(1 << (w - 1)) <= s < (1 << (w - 1)))
                else:
                    ok = And(z3.BVAddNoOverflow(BV(a, w), BV(b, w), True), z3.BVAddNoUnderflow(BV(a, w), BV(b, w)))
                if not (con(ok) and ok):
                    self.oblige(st, ok, "no-signed-overflow", "ub")
            return r
        if op == "sub":
            r = sub(a, b, w)
            if ub and "nsw" in fl:
                if ca and cb:
                    s = sgn(a, w) - sgn(b, w)
                    ok = int(-(1 << (w - 1)) <= s < (1 << (w - 1)))
                else:
                    ok = And(z3.BVSubNoOverflow(BV(a, w), BV(b, w)), z3.BVSubNoUnderflow(BV(a, w), BV(b, w), True))
                if not (con(ok) and ok):
                    self.oblige(st, ok, "no-signed-overflow", "ub")
            return r
        if op == "mul":
            r = mul(a, b, w)
            if ub and "nsw" in fl:
                if ca and cb:
                    s = sgn(a, w) * sgn(b, w)
                    ok = int(-(1 << (w - 1)) <= s < (1 << (w - 1)))
                else:
                    A, Bb = BV(a, w), BV(b, w)
                    k = sgn(b, w) if cb else sgn(a, w) if ca else None
                    if self._sext_small(A, Bb, w):
                        ok = 1
                    elif k is not None and k > 0:
                        X = A if cb else Bb
                        ok = And(X >= BV(-((1 << (w - 1)) // k), w), X <= BV(((1 << (w - 1)) - 1) // k, w))
                    else:
                        ok = And(z3.BVMulNoOverflow(A, Bb, True), z3.BVMulNoUnderflow(A, Bb))
                if not (con(ok) and ok):
                    self.oblige(st, ok, "no-signed-overflow", "ub")
            if not ca and not cb:
                return self.named(st, op, a, b, r)
            return r
        if op in ("sdiv", "udiv", "srem", "urem"):
            nz = Not(eq(b, 0, w))
            if not (con(nz) and nz):
                self.oblige(st, nz, "no-division-by-zero", "ub")
            if op in ("sdiv", "srem"):
                if "exact" in fl and cb:
                    r = self.exact_div(a, b) if not ca else None
                    if r is not None:
                        return r
                    if not ca and b & (b - 1) == 0:
                        return BV(a, w) >> (b.bit_length() - 1)
                ov = Not(And(eq(a, 1 << (w - 1), w), eq(b, mask(w), w)))
                if not (con(ov) and ov):
                    self.oblige(st, ov, "no-signed-overflow", "ub")
            if ca and cb:
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == "sdiv" else x - q * y) & mask(w)
            A, Bb = BV(a, w), BV(b, w)
            if op == "udiv":
                if cb and b & (b - 1) == 0:
                    return z3.LShR(A, b.bit_length() - 1)
                return self.named(st, op, A, Bb, z3.UDiv(A, Bb))
            if op == "urem":
                if cb and b & (b - 1) == 0:
                    return A & BV(b - 1, w)
                return self.named(st, op, A, Bb, z3.URem(A, Bb))
            if op == "sdiv":
                return self.named(st, op, A, Bb, A / Bb)
            return self.named(st, op, A, Bb, z3.SRem(A, Bb))
        if op in ("shl", "lshr", "ashr"):
            ok = ult(b, w, w)
            if not (con(ok) and ok):
                self.oblige(st, ok, "no-invalid-shift", "ub")
            if ca and cb:
                if b >= w:
                    raise Dead()
                if op == "shl":
                    return (a << b) & mask(w)
                if op == "lshr":
                    return a >> b
                return (sgn(a, w) >> b) & mask(w)
            A, Bb = BV(a, w), BV(b, w)
            return A << Bb if op == "shl" else (z3.LShR(A, Bb) if op == "lshr" else A >> Bb)
        if ca and cb:
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        if op == "and" and ((ca and a == 0) or (cb and b == 0)):
            return 0
        A, Bb = BV(a, w), BV(b, w)
        return {"and": lambda: A & Bb, "or": lambda: A | Bb, "xor": lambda: A ^ Bb}[op]()

    def named(self, st, op, a, b, r):
        """name an expensive term so that simplification cannot split it"""
        if con(r):
            return r
        key = ("nl", op, a.get_id(), b.get_id())
        if key in st.pins:
            return st.pins[key][0]
        v = z3.BitVec(f"{op}!{next(_cnt)}", r.size())
        st.pc.append(v == r)
        st.pins[key] = (v, a, b)
        return v

    def _sext_small(self, A, Bb, w):
        def bits(t):
            if isinstance(t, z3.BitVecNumRef):
                return abs(sgn(t.as_long(), w)).bit_length() + 1
            if z3.is_app_of(t, z3.Z3_OP_SIGN_EXT):
                return t.arg(0).size()
            if z3.is_app_of(t, z3.Z3_OP_ZERO_EXT):
                return t.arg(0).size() + 1
            return w

        return bits(A) + bits(Bb) <= w

    def do_fbin(self, op, a, b):
        if isinstance(a, FP) and isinstance(b, FP) and a.v is not None and b.v is not None:
            try:
                return FP({"fadd": a.v + b.v, "fsub": a.v - b.v, "fmul": a.v * b.v, "fdiv": a.v / b.v if b.v else None}[op])
            except Exception:
                return FP(None)
        return FP(None)

    def pint_bin(self, st, op, a, b, w, fl):
        if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
            return self.ptrdiff(st, a.p, b.p)
        if op in ("add", "sub") and isinstance(a, PInt) and not isinstance(b, PInt):
            if op == "sub":
                b = sub(0, b, w)
            return PInt(self.ptradd(a.p, b, 1))
        if op == "add" and isinstance(b, PInt):
            return PInt(self.ptradd(b.p, a, 1))
        if op == "and" and isinstance(a, PInt) and con(b) and a.p.idx is None and b in (1, 3, 7):
            return a.p.off & b  # objects are 16-byte aligned
        if isinstance(a, PInt) and a.p.obj == 0:
            return self.do_bin(st, op, Ty("i", w), a.p.off & mask(64), b, fl)
        if isinstance(b, PInt) and b.p.obj == 0:
            return self.do_bin(st, op, Ty("i", w), a, b.p.off & mask(64), fl)
        if op == "urem" and isinstance(a, PInt) and con(b) and b and a.p.idx is None and con(a.p.off):
            # hash bucket of an address: any fixed numbering of the objects
            self.models.note_assumption("the bucket of a hashed address does not influence behaviour (only content of unordered containers is observed)")
            return ((a.p.obj * 4096 + a.p.off) & mask(64)) % b
        raise Unsupported("arithmetic on pointer value: " + op)

    def ptrdiff(self, st, p, q):
        if p.obj != q.obj:
            if p.obj == 0 or q.obj == 0:
                raise Unsupported("difference with null")
            raise Unsupported("difference of unrelated pointers")
        d = (p.off - q.off) & mask(64)
        if p.idx is None and q.idx is None:
            return d
        if p.idx is not None and q.idx is not None:
            if p.sc == q.sc:
                t = mul(sub(p.idx, q.idx, 64), p.sc, 64)
            else:
                t = sub(mul(p.idx, p.sc, 64), mul(q.idx, q.sc, 64), 64)
            return add(t, d, 64)
        if p.idx is not None:
            s = p.sc
            if sgn(d, 64) % s == 0:
                return mul(add(p.idx, (sgn(d, 64) // s) & mask(64), 64), s, 64)
            return add(mul(p.idx, s, 64), d, 64)
        s = q.sc
        if sgn(d, 64) % s == 0:
            return mul(sub((sgn(d, 64) // s) & mask(64), q.idx, 64), s, 64)
        return sub(d, mul(q.idx, q.sc, 64), 64)

    def ptradd(self, p, t, s):
        """p + t*s, t 64-bit value, s python int"""
        if isinstance(p, Undef):
            raise Unsupported("gep on undef")
        if s == 0:
            return p
        if con(t):
            return Ptr(p.obj, p.off + sgn(t, 64) * s, p.idx, p.sc)
        # split constant part
        base, c = _off_(t)
        if c:
            q = Ptr(p.obj, p.off + sgn(c, 64) * s, p.idx, p.sc)
            return self.ptradd(q, base, s)
        if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and s == 1:
            a, b = t.arg(0), t.arg(1)
            if isinstance(b, z3.BitVecNumRef) and b.as_long() < 4096:
                return self.ptradd(p, norm(a), b.as_long())
        if p.idx is None:
            return Ptr(p.obj, p.off, t, s)
        if p.sc == s:
            return self._mk(p, add(p.idx, t, 64), s)
        if s % p.sc == 0:
            return self._mk(p, add(p.idx, mul(t, s // p.sc, 64), 64), p.sc)
        if p.sc % s == 0:
            return self._mk(p, add(mul(p.idx, p.sc // s, 64), t, 64), s)
        return self._mk(p, add(mul(p.idx, p.sc, 64), mul(t, s, 64), 64), 1)

    def _mk(self, p, idx, sc):
        idx = simp(idx)
        if con(idx):
            return Ptr(p.obj, p.off + sgn(idx, 64) * sc)
        base, c = _off_(idx)
        return Ptr(p.obj, p.off + sgn(c, 64) * sc, base, sc)

    def do_gep(self, st, m, sty, base, idx):
        p = base
        first = True
        ty = sty
        for ity, i in idx:
            if isinstance(i, Undef):
                raise Unsupported("gep index undef")
            if ity.k == "i" and ity.a < 64:
                i = sext(i, ity.a, 64)
            if first:
                s = m.size(ty) if not (con(i) and i == 0) else 0
                p = self.ptradd(p, i, s)
                first = False
                continue
            rt = m.resolve(ty) if ty.k == "named" else ty
            if rt.k == "struct":
                fo, ty = m.field_off(rt, i)
                p = Ptr(p.obj, p.off + fo, p.idx, p.sc)
            elif rt.k in ("arr", "vec"):
                ty = rt.b
                p = self.ptradd(p, i, m.size(ty))
            else:
                raise Unsupported("gep into " + rt.k)
        return p

    def do_cast(self, st, m, op, ty, x, tty):
        if op in ("zext", "sext", "trunc"):
            if isinstance(x, Undef):
                x = fresh("undef", ty.a)
            if isinstance(x, (PInt, Ptr)):
                if isinstance(x, PInt) and op == "zext" and tty.a >= 64:
                    return x
                raise Unsupported("truncation of pointer")
            if op == "zext":
                return zext(x, ty.a, tty.a)
            if op == "sext":
                return sext(x, ty.a, tty.a)
            return trunc(x, ty.a, tty.a)
        if op == "ptrtoint":
            if isinstance(x, Ptr) and x.obj == 0 and x.idx is None:
                return x.off & mask(tty.a)
            if isinstance(x, Undef):
                return fresh("undef", tty.a)
            return PInt(x)
        if op == "inttoptr":
            if isinstance(x, PInt):
                return x.p
            if con(x):
                return Ptr(0, sgn(x, 64))
            raise Unsupported("inttoptr of symbolic")
        if op == "bitcast":
            return x
        if op in ("sitofp", "uitofp"):
            if con(x):
                return FP(float(sgn(x, ty.a) if op == "sitofp" else x))
            return FP(None)
        if op in ("fptosi", "fptoui"):
            if isinstance(x, FP) and x.v is not None:
                return int(x.v) & mask(tty.a)
            return fresh("fp2int", tty.a)
        if op in ("fpext", "fptrunc"):
            return x
        raise Unsupported("cast " + op)

    def do_icmp(self, st, pred, ty, a, b):
        if isinstance(a, PInt):
            a = a.p if isinstance(b, (PInt, Ptr)) or (con(b)) else a
        if isinstance(b, PInt):
            b = b.p if isinstance(a, (PInt, Ptr)) or con(a) else b
        if isinstance(a, Ptr) and con(b):
            b = Ptr(0, sgn(b, 64))
        if isinstance(b, Ptr) and con(a):
            a = Ptr(0, sgn(a, 64))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.ptrcmp(st, pred, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Undef) or isinstance(b, Undef):
                return fresh("undefcmp", 1)
            raise Unsupported("pointer/integer comparison")
        w = ty.a if ty.k == "i" else 64
        if isinstance(a, Undef):
            a = fresh("undef", w)
        if isinstance(b, Undef):
            b = fresh("undef", w)
        if pred == "eq":
            return eq(a, b, w)
        if pred == "ne":
            return Not(eq(a, b, w))
        if w == 1:
            a, b = zext(a, 1, 8), zext(b, 1, 8)
            w = 8
        if pred == "ult":
            return ult(a, b, w)
        if pred == "ule":
            return ule(a, b, w)
        if pred == "ugt":
            return ult(b, a, w)
        if pred == "uge":
            return ule(b, a, w)
        if pred == "slt":
            return slt(a, b, w)
        if pred == "sle":
            return sle(a, b, w)
        if pred == "sgt":
            return slt(b, a, w)
        return sle(b, a, w)

    def ptrcmp(self, st, pred, a, b):
        if a.obj != b.obj:
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            if a.obj == 0 or b.obj == 0:
                # null is below everything
                x, y = (0, 1) if a.obj == 0 else (1, 0)
            else:
                # addresses of distinct objects: arbitrary but fixed order
                x, y = a.obj, b.obj
                self.models.note_assumption("relational comparison of pointers to distinct objects uses a fixed order")
            return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred])
        if a.idx is None and b.idx is None:
            x, y = a.off, b.off
            return int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y}[pred])
        sc = a.sc if a.idx is not None else b.sc
        if (a.idx is None or a.sc == sc) and (b.idx is None or b.sc == sc) and (a.off - b.off) % sc == 0:
            x = add(a.idx if a.idx is not None else 0, ((a.off - b.off) // sc) & mask(64), 64)
            y = b.idx if b.idx is not None else 0
        else:
            x = add(mul(a.idx if a.idx is not None else 0, a.sc, 64), a.off & mask(64), 64)
            y = add(mul(b.idx if b.idx is not None else 0, b.sc, 64), b.off & mask(64), 64)
        if pred == "eq":
            return eq(x, y, 64)
        if pred == "ne":
            return Not(eq(x, y, 64))
        p = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred)
        return self.do_icmp(st, p, I64, x, y)

    # ------------------------------------------------------------ calls
    def find_model(self, name):
        if name in self.modelcache:
            return self.modelcache[name]
        d = self.dn.get(name, name)
        r = self.models.lookup(name, d)
        self.modelcache[name] = r
        return r

    def call(self, st, fr, ins, name, args, rty):
        """args: list of (ty, value, attrs)"""
        if isinstance(name, tuple):
            name, mod = name[1], self.bytag[name[0]]
        else:
            mod = fr.fn.mod
        name = self.aliases.get(name, name)
        u = self.used_contract(name, st)
        if u is not None:
            # modular step: the callee is represented by its contract (a function of the contract file), not its body
            st.approx = True
            self.push_call(st, u, args, ins)
            return
        mdl = self.find_model(name)
        if mdl is not None:
            self.modelled.add(name)
            r = mdl(st, name, args, rty, ins)
            if r is PUSHED:
                return
            if ins.res is not None:
                st.top().env[ins.res] = r
            self.advance(st, ins)
            return
        f = self.getf(self.fkey(mod, name))
        if f is None:
            raise Unsupported("call to external function " + self.short(name))
        if self.mergeable(f) > 1:
            r = self.merged_call(st, f, args)
            if r is not None:
                if ins.res is not None:
                    st.top().env[ins.res] = r[0]
                self.advance(st, ins)
                return
        self.push_call(st, f, args, ins)

    def used_contract(self, name, st):
        r = self.usecache.get(name, 0)
        if r == 0:
            r = None
            if self.o.get("use") and not self.o["bounded"]:
                d = self.dn.get(name, name)
                for x in self.o["use"].split(";"):
                    rx, _, fn = x.rpartition(":")
                    if re.search(rx, d) and name != fn:
                        for mod in self.mods:
                            f = self.getf(self.fkey(mod, fn))
                            if f is not None:
                                r = f
                                self.contracts_used.add(self.short(name))
                                break
                        else:
                            raise Unsupported("contract function missing: " + fn)
            self.usecache[name] = r
        return r

    def mergeable(self, f, depth=0):
        """0: no; 1: pure but branch free; 2: pure (writes only its own locals, loop free), returns an integer"""
        r = self.mergecache.get(f.name)
        if r is not None:
            return r
        if depth > 6:
            return 0
        self.mergecache[f.name] = 0
        f.parse()
        r = 1
        if f.rty.k != "i" or f.loops or f.vararg or any(at and "byval" in at for _, _, at in f.params):
            return 0
        loc = set()
        n = 0
        for b in f.blocks.values():
            for i in b.ins:
                n += 1
                if i.op == "alloca":
                    loc.add(i.res)
                elif i.op == "store":
                    if not (i.c[0] == "ssa" and i.c[1] in loc):
                        return 0
                elif i.op in ("call", "invoke"):
                    if i.b[0] != "glob":
                        return 0
                    nm = self.aliases.get(i.b[1], i.b[1])
                    if nm.startswith("llvm.dbg"):
                        continue
                    if self.used_contract(nm, None) is not None:
                        return 0
                    if self.find_model(nm) is not None:
                        if nm not in PURE_C:
                            return 0
                        r = 2
                        continue
                    g = self.getf(self.fkey(f.mod, nm))
                    if g is None:
                        return 0
                    q = self.mergeable(g, depth + 1)
                    if not q:
                        return 0
                    r = max(r, q)
                elif i.op == "switch" or (i.op == "br" and len(f.blocks) > 1):
                    r = 2
                elif i.op not in ("load", "gep", "bin", "icmp", "cast", "select", "ret", "unreachable", "br"):
                    return 0
        if n > 150:
            return 0
        self.mergecache[f.name] = r
        return r

    def merged_call(self, st, f, args):
        s = st.fork()
        s.kv.pop("hdr", None)
        s.kv.pop("lstart", None)
        n0 = len(st.pc)
        ni = len(st.idx)

        def cb(t, v):
            t.status = "mret"
            t.retval = v

        l = LoopCtx(-1, None, ())
        self.loopstack.append(l)
        try:
            self.push_call(s, f, [(None, a[1], None) for a in args], None, cb)
            self.explore([s], l)
        except Unsupported:
            return None
        finally:
            self.loopstack.pop()
        ex = l.exits
        if not ex:
            raise Dead()
        if any(t.status != "mret" or not (con(t.retval) or isinstance(t.retval, z3.BitVecRef) or isinstance(t.retval, z3.BoolRef)) for t in ex):
            return None
        seen = {i.get_id() for i in st.idx if not con(i)}
        for t in ex:
            st.approx = st.approx or t.approx
            for i in t.idx[ni:]:
                if not con(i) and i.get_id() not in seen:
                    seen.add(i.get_id())
                    st.idx.append(i)
        if len(ex) == 1:
            st.pc.extend(ex[0].pc[n0:])
            return (ex[0].retval,)
        w = f.rty.a
        sfx = [And(*t.pc[n0:]) for t in ex]
        tot = simp(Or(*sfx))
        if not con(tot) and self.feasible(st, Not(tot)):
            st.pc.append(B(tot))
        r = ex[-1].retval
        for t, c in list(zip(ex, sfx))[-2::-1]:
            r = ite(c, t.retval, r, w)
        return (simp(r) if not con(r) else r,)

    def advance(self, st, ins):
        fr = st.top()
        if ins.op == "invoke":
            self.goto(st, fr, ins.d[0])
        else:
            fr.ip += 1

    def push_call(self, st, f, args, ins=None, onret=None):
        f.parse()
        self.inlined.add(f.name)
        if len(st.frames) > 400:
            raise Unsupported("call depth")
        fr = Frame(f)
        fr.tok = st.tok
        if ins is not None:
            fr.res = ins.res
            fr.inv = ins
        fr.onret = onret
        if len(args) < len(f.params):
            raise Unsupported("argument count")
        for (nm, ty, at), a in zip(f.params, args):
            v = a[1]
            if at and "byval" in at:
                sz = f.mod.size(at["byval"])
                oid = st.new_obj(Obj("cells", sz, nm))
                self.memcpy(st, Ptr(oid), v, sz)
                v = Ptr(oid)
            elif ty.k == "i" and isinstance(v, Undef):
                v = fresh("undefarg", ty.a)
            fr.env[nm] = v
        st.frames.append(fr)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        if fr.onret is not None:
            fr.onret(st, v)
            return
        if not st.frames:
            st.status = "done"
            st.retval = v
            return
        top = st.top()
        ins = fr.inv
        if ins is None:
            raise Unsupported("return without call")
        if ins.res is not None:
            top.env[ins.res] = v
        self.advance(st, ins)

    def goto(self, st, fr, target):
        blk = fr.fn.blocks[target]
        prev = fr.blk
        if blk.phis:
            vals = [(p.res, self.val(st, fr, p.a, p.b[prev])) for p in blk.phis]
            for r, v in vals:
                fr.env[r] = v
        fr.prev = prev
        fr.blk = target
        fr.ip = 0
        st.kv.pop("hdr", None)
        if target in fr.fn.loops:
            st.kv["hdr"] = 1

    # ------------------------------------------------------------ exceptions
    def unwind(self, st, ptr, tinfo):
        """propagate exception; positions state at a landing pad or terminates the path"""
        while st.frames:
            fr = st.frames.pop()
            if not st.frames:
                st.status = "throw"
                st.exc = (ptr, tinfo)
                return
            ins = fr.inv
            if ins is None:
                if fr.onret is not None:
                    raise Unsupported("exception through callback")
                raise Unsupported("exception through top frame")
            if self.land(st, ins, ptr, tinfo):
                return

    def land(self, st, ins, ptr, tinfo):
        if ins.op != "invoke":
            return False
        top = st.top()
        lp = top.fn.blocks[ins.d[1]].ins[0]
        if lp.op != "landingpad":
            raise Unsupported("no landingpad")
        sel = None
        for c in lp.a:
            if c[0] == "cleanup":
                if sel is None:
                    sel = 0
            elif c[0] == "catch":
                if c[1][0] in ("null", "zero"):
                    sel = self.tid("*")
                    break
                t = c[1][1]
                if self.exc_match(tinfo, t):
                    sel = self.tid(t)
                    break
            else:
                sel = sel if sel is not None else 0
        if sel is None:
            return False
        # a cleanup may precede a matching catch: recompute for catch clauses
        st.exc = (ptr, tinfo)
        self.goto(st, top, ins.d[1])
        top.env["__lp"] = Agg([ptr, sel])
        return True

    def tid(self, t):
        if t not in self.tids:
            self.tids[t] = len(self.tids) + 1
        return self.tids[t]

    STD_BASES = {
        "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
        "_ZTISt12length_error": ["_ZTISt11logic_error"],
        "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
        "_ZTISt11logic_error": ["_ZTISt9exception"],
        "_ZTISt13runtime_error": ["_ZTISt9exception"],
        "_ZTISt18bad_variant_access": ["_ZTISt9exception"],
        "_ZTISt19bad_optional_access": ["_ZTISt9exception"],
        "_ZTISt8bad_cast": ["_ZTISt9exception"],
        "_ZTISt17bad_function_call": ["_ZTISt9exception"],
        "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    }

    def exc_match(self, thrown, handler):
        if thrown == handler:
            return True
        for b in self.bases(thrown):
            if self.exc_match(b, handler):
                return True
        return False

    def bases(self, t):
        if t in self.STD_BASES:
            return self.STD_BASES[t]
        if t in self.gmod and not self.gmod[t][1]:
            m, _ = self.gmod[t]
            ty, init, c = m.global_init(t)
            if init and init[0] == "agg":
                r = []
                for ety, ev in init[2][2:]:
                    if ev[0] == "glob" and ev[1].startswith("_ZTI"):
                        r.append(ev[1])
                return r
        return []

    def subobjects(self, t, off=0, rd=None):
        """base class subobjects of a class by its type information: (type, offset); rd(off) reads the
        8 bytes at an offset from the address point of the virtual table of the subobject at off"""
        r = [(t, off)]
        if t in self.gmod and not self.gmod[t][1]:
            m, _ = self.gmod[t]
            ty, init, c = m.global_init(t)
            if init and init[0] == "agg":
                e = init[2][2:]
                if len(e) == 1:
                    r += self.subobjects(e[0][1][1], off, rd)
                elif len(e) > 1:
                    for i in range(2, len(e), 2):
                        fl = e[i + 1][1][1]
                        if fl >= 1 << 63:
                            fl -= 1 << 64
                        if fl & 1:
                            if rd is None:
                                raise Unsupported("virtual base class")
                            d = rd(off, fl >> 8)
                        else:
                            d = fl >> 8
                        r += self.subobjects(e[i][1][1], off + d, rd)
        return r

    # ------------------------------------------------------------ main loop
    def run_entry(self, fname, prep=None):
        f = self.funcs[fname].parse()
        st = State()
        if prep:
            prep(st)
        fr = Frame(f)
        fr.tok = st.tok
        st.frames.append(fr)
        self.explore([st], None)

    def explore(self, work, lctx):
        """run all states to completion (or to the boundary of lctx)"""
        while work:
            st = work.pop()
            self.paths += 1
            if self.paths > self.o["max_paths"] * 50:
                raise Unsupported("too many paths")
            try:
                new = self.run_path(st, lctx)
                if new:
                    work.extend(new)
            except Dead:
                continue

    def run_path(self, st, lctx):
        """execute until fork/termination; returns list of successor states (or None)"""
        disp = self.DISP
        while True:
            if st.status is not None:
                self.finish(st, lctx)
                return None
            # boundary
            if lctx is not None:
                d = lctx.depth
                if len(st.frames) <= d:
                    lctx.exits.append(st)
                    return None
                if len(st.frames) == d + 1 and st.frames[d].ip == 0:
                    b = st.frames[d].blk
                    if b == lctx.header:
                        if not st.kv.pop("lstart", 0):
                            lctx.backs.append(st)
                            return None
                        st.kv.pop("hdr", None)
                    elif b not in lctx.body:
                        lctx.exits.append(st)
                        return None
            if st.kv.get("hdr"):
                r = self.at_header(st, lctx)
                if r is not None:
                    return r
            fr = st.top()
            blk = fr.fn.blocks[fr.blk]
            ins = blk.ins[fr.ip]
            self.steps += 1
            if not self.steps & 0x3FF:
                if time.time() - self.t0 > self.o["wall"]:
                    raise Unsupported("wall time exceeded")
            try:
                r = disp[ins.op](self, st, fr, ins)
            except ForkReq as fq:
                return fq.states
            except Throw as t:
                st.exc = (t.ptr, t.tinfo)
                if not self.land(st, ins, t.ptr, t.tinfo):
                    self.unwind(st, t.ptr, t.tinfo)
                r = None
            if r is not None:
                return r

    def finish(self, st, lctx):
        if lctx is not None:
            lctx.exits.append(st)
            return
        if st.status == "throw":
            tn = st.exc[1] if st.exc else "?"
            st.frames = []
            self.oblige(st, 0, "no-uncaught-exception", "ub")
        elif st.status == "done":
            self.done_paths = getattr(self, "done_paths", 0) + 1

    # ---- instruction handlers
    def i_alloca(self, st, fr, ins):
        m = fr.fn.mod
        n = m.size(ins.a)
        if ins.b:
            c = self.val(st, fr, ins.b[0], ins.b[1])
            if not con(c):
                raise Unsupported("symbolic alloca")
            n *= c
        oid = st.new_obj(Obj("cells", n, ins.res))
        fr.env[ins.res] = Ptr(oid)
        fr.ip += 1

    def i_load(self, st, fr, ins):
        p = self.val(st, fr, PTR, ins.b)
        m = fr.fn.mod
        ty = ins.a
        if ty.k in ("named", "struct", "arr"):
            v = self.load_agg(st, m, ty, p)
        else:
            v = self.load(st, p, m.size(ty), ty)
            v = self.coerce(st, v, ty)
        fr = st.top()
        fr.env[ins.res] = v
        fr.ip += 1

    def coerce(self, st, v, ty):
        k = ty.k
        if k == "ptr":
            if isinstance(v, int):
                return Ptr(0, sgn(v, 64))
            if isinstance(v, PInt):
                return v.p
        elif k == "i":
            if isinstance(v, Ptr):
                if v.obj == 0 and v.idx is None:
                    return v.off & mask(ty.a)
                return PInt(v)
            if ty.a == 1 and not isinstance(v, (z3.BoolRef, Undef)):
                return trunc(v, 8, 1)
            if ty.a == 8 and isinstance(v, z3.BoolRef):
                return zext(v, 1, 8)
            if ty.a < 8 and con(v):
                return v & mask(ty.a)
            if isinstance(v, FP):
                return fresh("fpbits", ty.a)
        elif k in FLOATS:
            if isinstance(v, int):
                import struct

                if k == "double":
                    return FP(struct.unpack("<d", v.to_bytes(8, "little"))[0])
                return FP(None)
            if isinstance(v, z3.BitVecRef):
                return FP(None)
        return v

    def load_agg(self, st, m, ty, p):
        rt = m.resolve(ty) if ty.k == "named" else ty
        if rt.k == "struct":
            r = []
            for i, f in enumerate(rt.a):
                fo, _ = m.field_off(rt, i)
                r.append(self.load_agg(st, m, f, Ptr(p.obj, p.off + fo, p.idx, p.sc)))
            return Agg(r)
        if rt.k == "arr":
            es = m.size(rt.b)
            return Agg([self.load_agg(st, m, rt.b, Ptr(p.obj, p.off + i * es, p.idx, p.sc)) for i in range(rt.a)])
        return self.coerce(st, self.load(st, p, m.size(rt), rt), rt)

    def store_agg(self, st, m, ty, v, p):
        rt = m.resolve(ty) if ty.k == "named" else ty
        if rt.k == "struct":
            for i, f in enumerate(rt.a):
                fo, _ = m.field_off(rt, i)
                self.store_agg(st, m, f, v.f[i] if isinstance(v, Agg) else UNDEF, Ptr(p.obj, p.off + fo, p.idx, p.sc))
            return
        if rt.k == "arr":
            es = m.size(rt.b)
            for i in range(rt.a):
                self.store_agg(st, m, rt.b, v.f[i] if isinstance(v, Agg) else UNDEF, Ptr(p.obj, p.off + i * es, p.idx, p.sc))
            return
        self.store_scalar(st, m, rt, v, p)

    def store_scalar(self, st, m, ty, v, p):
        if ty.k == "i":
            if ty.a == 1 and not con(v) and not isinstance(v, Undef):
                v = zext(v, 1, 8)
            if isinstance(v, PInt):
                v = v.p
        self.store(st, p, m.size(ty), v)

    def i_store(self, st, fr, ins):
        ty = ins.a
        v = self.val(st, fr, ty, ins.b)
        p = self.val(st, fr, PTR, ins.c)
        m = fr.fn.mod
        if ty.k in ("named", "struct", "arr"):
            self.store_agg(st, m, ty, v, p)
        else:
            self.store_scalar(st, m, ty, v, p)
        st.top().ip += 1

    def i_gep(self, st, fr, ins):
        m = fr.fn.mod
        base = self.val(st, fr, PTR, ins.b)
        idx = [(t, self.val(st, fr, t, x)) for t, x in ins.c]
        fr.env[ins.res] = self.do_gep(st, m, ins.a, base, idx)
        fr.ip += 1

    def i_bin(self, st, fr, ins):
        ty = ins.b
        a = self.val(st, fr, ty, ins.c)
        b = self.val(st, fr, ty, ins.d)
        r = self.do_bin(st, ins.a, ty, a, b, ins.e)
        fr = st.top()
        fr.env[ins.res] = r
        fr.ip += 1

    def i_icmp(self, st, fr, ins):
        a = self.val(st, fr, ins.b, ins.c)
        b = self.val(st, fr, ins.b, ins.d)
        r = self.do_icmp(st, ins.a, ins.b, a, b)
        fr.env[ins.res] = simp(r)
        fr.ip += 1

    def i_fcmp(self, st, fr, ins):
        a = self.val(st, fr, ins.b, ins.c)
        b = self.val(st, fr, ins.b, ins.d)
        if isinstance(a, FP) and isinstance(b, FP) and a.v is not None and b.v is not None:
            x, y = a.v, b.v
            r = int({"oeq": x == y, "une": x != y, "olt": x < y, "ole": x <= y, "ogt": x > y, "oge": x >= y}[ins.a])
        else:
            r = fresh("fcmp", 1)
            st.approx = True
        fr.env[ins.res] = r
        fr.ip += 1

    def i_fneg(self, st, fr, ins):
        a = self.val(st, fr, ins.a, ins.b)
        fr.env[ins.res] = FP(-a.v if isinstance(a, FP) and a.v is not None else None)
        fr.ip += 1

    def i_cast(self, st, fr, ins):
        x = self.val(st, fr, ins.b, ins.c)
        fr.env[ins.res] = self.do_cast(st, fr.fn.mod, ins.a, ins.b, x, ins.d)
        fr.ip += 1

    def i_select(self, st, fr, ins):
        c = self.ival(st, fr, IR.I1, ins.a)
        a = self.val(st, fr, ins.b, ins.c)
        b = self.val(st, fr, ins.b, ins.d)
        if not con(c):
            c = simp(c)
        if con(c):
            fr.env[ins.res] = a if c else b
            fr.ip += 1
            return
        if ins.b.k == "i" and not isinstance(a, (PInt, Undef)) and not isinstance(b, (PInt, Undef)):
            fr.env[ins.res] = ite(c, a, b, ins.b.a)
            fr.ip += 1
            return
        out = []
        for cc, v in ((c, a), (Not(c), b)):
            if self.feasible(st, cc):
                s = st.fork()
                self.assume(s, cc)
                f = s.top()
                f.env[ins.res] = v
                f.ip += 1
                out.append(s)
        return out

    def i_br(self, st, fr, ins):
        if ins.a is None:
            self.goto(st, fr, ins.b)
            return
        c = self.ival(st, fr, IR.I1, ins.a)
        if not con(c):
            c = simp(c)
        if con(c):
            self.note_exit(st, fr, ins, True)
            self.goto(st, fr, ins.b if c else ins.c)
            return
        return self.branch(st, fr, ins, [(c, ins.b), (Not(c), ins.c)])

    def note_exit(self, st, fr, ins, concrete):
        if not self.loopstack:
            return
        l = self.loopstack[-1]
        if len(st.frames) == l.depth + 1 and fr.blk in l.body:
            out = any(t not in l.body for t in (ins.b, ins.c))
            # the first test of an iteration decides whether the loop is governed by symbolic data
            if "fx" not in st.kv and (out or (fr.blk == l.header and any(self.only_exit(fr.fn, t, l) for t in (ins.b, ins.c)))):
                st.kv["fx"] = 1
                if concrete:
                    l.fx_con = True
                else:
                    l.fx_sym = True
            if out:
                if concrete:
                    l.con_exit = True
                else:
                    l.sym_exit = True

    @staticmethod
    def only_exit(fn, t, l):
        """block t of the loop only joins the parts of the loop condition and leaves"""
        b = fn.blocks.get(t)
        return b is not None and len(b.ins) == 1 and b.ins[0].op == "br" and b.ins[0].a is not None and any(x not in l.body for x in (b.ins[0].b, b.ins[0].c))

    def branch(self, st, fr, ins, alts):
        ok = []
        for c, t in alts:
            if self.feasible(st, c):
                ok.append((c, t))
        if ins.op == "br":
            self.note_exit(st, fr, ins, False)
        if not ok:
            raise Dead()
        if len(ok) == 1:
            # implied by pc; keep pc small but record for later solver help
            self.assume(st, ok[0][0])
            self.goto(st, fr, ok[0][1])
            return None
        if self.o["bounded"]:
            for h, body in fr.fn.loops.items():
                if fr.blk in body:
                    self.mark_sym(st, h)
        if ins.op == "br" and self.o.get("merge", True):
            r = self.try_merge(st, fr, ok)
            if r is not None:
                return r[0]
            fr = st.top()
        out = []
        for k, (c, t) in enumerate(ok):
            s = st.fork() if k < len(ok) - 1 else st
            self.assume(s, c)
            self.goto(s, s.top(), t)
            out.append(s)
        return out

    SIMPLE = ("load", "store", "gep", "bin", "icmp", "cast", "select")

    def simple_block(self, fn, b):
        key = (fn.name, b)
        r = self.simplecache.get(key)
        if r is None:
            blk = fn.blocks[b]
            r = not blk.phis and b not in fn.loops and blk.ins[-1].op == "br" and len(blk.ins) <= 24
            if r:
                for i in blk.ins[:-1]:
                    if i.op in self.SIMPLE:
                        continue
                    if i.op == "call" and i.b[0] == "glob":
                        nm = self.aliases.get(i.b[1], i.b[1])
                        if nm in PURE_C:
                            continue
                        if self.find_model(nm) is None:
                            g = self.getf(self.fkey(fn.mod, nm))
                            if g is not None and self.mergeable(g):
                                continue
                        d = self.dn.get(nm, nm)
                        if PURE_M.search(d):
                            continue
                    r = False
                    break
            self.simplecache[key] = r
        return r

    def run_block(self, st, c, b):
        """execute the straight-line block b under the extra condition c -> state positioned at its branch, or None"""
        s = st.fork()
        self.assume(s, c)
        fr = s.top()
        prev = fr.blk
        fr.prev = prev
        fr.blk = b
        fr.ip = 0
        blk = fr.fn.blocks[b]
        n = len(blk.ins) - 1
        d = len(s.frames)
        np = len(s.nondets), len(s.univ)
        try:
            while True:
                fr = s.top()
                if len(s.frames) != d:
                    # inside a branch-free pure callee
                    i = fr.fn.blocks[fr.blk].ins[fr.ip]
                else:
                    if fr.ip >= n:
                        break
                    i = blk.ins[fr.ip]
                self.steps += 1
                if self.DISP[i.op](self, s, fr, i) is not None:
                    return None
                if s.kv.get("hdr"):
                    return None
        except (ForkReq, Throw, Unsupported, Dead):
            return None
        if (len(s.nondets), len(s.univ)) != np:
            return None
        return s

    def mergeable_val(self, x, y):
        for v in (x, y):
            if not (con(v) or isinstance(v, (z3.BitVecRef, z3.BoolRef))):
                return False
        return True

    def merge_mem(self, st, s, c, other=None):
        """st := memory of s where c holds, of other (default st) elsewhere; False when not mergeable"""
        base = other if other is not None else st
        upd = []
        for oid, o in base.mem.items():
            b = s.mem.get(oid)
            if b is o:
                continue
            if b is None or b.kind != o.kind:
                return False
            if o.kind != "cells":
                if o.kind == "arr" and o.arr is b.arr and o.n is b.n:
                    continue
                return False
            for off in set(o.cells) | set(b.cells):
                x = o.cells.get(off)
                y = b.cells.get(off)
                if x is y:
                    continue
                if x is None or y is None or x[0] != y[0]:
                    if y is not None and x is None and not any(k < off + y[0] and off < k + z[0] for k, z in o.cells.items()):
                        # uninitialised on the other path
                        if isinstance(y[1], Undef):
                            continue
                    return False
                u, v = y[1], x[1]
                if u is v or (con(u) and con(v) and u == v):
                    continue
                if isinstance(u, Ptr) and isinstance(v, Ptr) and u.same(v):
                    continue
                if isinstance(u, (StrVal, VecVal)) and type(u) is type(v) and u.buf == v.buf:
                    continue
                if not self.mergeable_val(u, v):
                    return False
                w = x[0] * 8
                for t in (u, v):
                    if isinstance(t, z3.BoolRef):
                        return False
                upd.append((oid, off, x[0], ite(c, u, v, w)))
        for oid, b in s.mem.items():
            if oid not in base.mem and b.kind not in ("cells", "func"):
                if b.kind == "arr" and s.globs is not None:
                    continue
        for oid, off, sz, v in upd:
            st.wobj(oid).cells[off] = (sz, v)
        return True

    def carry(self, st, s, n0, c):
        """facts and read indices collected by s under c"""
        ex = s.pc[n0 + 1 :]
        if ex:
            st.pc.append(z3.Implies(B(c), And(*ex) if len(ex) > 1 else ex[0]))
        have = {i.get_id() for i in st.idx if not con(i)}
        for i in s.idx[len(st.idx) :]:
            if not con(i) and i.get_id() not in have:
                have.add(i.get_id())
                st.idx.append(i)
        st.approx = st.approx or s.approx

    def try_merge(self, st, fr, ok):
        fn = fr.fn
        body = None
        l = self.loopstack[-1] if self.loopstack else None
        (c1, T), (c2, F) = ok
        if T == F:
            return None
        d = len(st.frames) - 1
        at = l is not None and l.depth == d

        def inb(b):
            return not at or b in l.body

        n0 = len(st.pc)
        if at and not inb(fr.blk):
            return None
        # full diamond
        st_, sf_ = self.simple_block(fn, T), self.simple_block(fn, F)
        if st_ and sf_ and inb(T) and inb(F):
            bt, bf = fn.blocks[T].ins[-1], fn.blocks[F].ins[-1]
            if bt.a is None and bf.a is None and bt.b == bf.b and bt.b not in fn.loops:
                x = self.run_block(st, c1, T)
                y = self.run_block(st, c2, F) if x is not None else None
                if x is not None and y is not None and x.mem.keys() == y.mem.keys() == st.mem.keys():
                    J = bt.b
                    ph = []
                    good = True
                    for p in fn.blocks[J].phis:
                        u = self.val(x, x.top(), p.a, p.b[T])
                        v = self.val(y, y.top(), p.a, p.b[F])
                        if u is v or (isinstance(u, Ptr) and isinstance(v, Ptr) and u.same(v)):
                            ph.append((p.res, u))
                        elif self.mergeable_val(u, v) and p.a.k == "i":
                            ph.append((p.res, ite(c1, u, v, p.a.a)))
                        else:
                            good = False
                    if good and self.merge_mem(st, x, c1, y):
                        # cells equal in x and y but different from st
                        for oid, o in y.mem.items():
                            if st.mem[oid] is not o and o.kind == "cells":
                                w = st.wobj(oid)
                                for off, cv in o.cells.items():
                                    xv = x.mem[oid].cells.get(off)
                                    if xv is not None and (xv is cv or (xv[0] == cv[0] and (xv[1] is cv[1] or (con(xv[1]) and con(cv[1]) and xv[1] == cv[1]) or (isinstance(xv[1], Ptr) and isinstance(cv[1], Ptr) and xv[1].same(cv[1]))))):
                                        w.cells[off] = cv
                        self.carry(st, x, n0, c1)
                        self.carry(st, y, n0, c2)
                        f2 = st.top()
                        for r, v in ph:
                            f2.env[r] = v
                        f2.prev = T
                        f2.blk = J
                        f2.ip = 0
                        st.kv.pop("hdr", None)
                        return (None,)
        for (X, cx), (Y, cy) in (((T, c1), (F, c2)), ((F, c2), (T, c1))):
            if not self.simple_block(fn, X) or not inb(X):
                continue
            br = fn.blocks[X].ins[-1]
            tg = [br.b] if br.a is None else [br.b, br.c]
            if Y not in tg or Y in fn.loops or (br.a is not None and br.b == br.c):
                continue
            x = self.run_block(st, cx, X)
            if x is None:
                continue
            if x.mem.keys() != st.mem.keys():
                # new globals may have been materialised: they are immutable constants
                if set(x.mem) - set(st.mem) and any(x.mem[o].kind == "cells" and not self.is_global(x, o) for o in set(x.mem) - set(st.mem)):
                    continue
            if br.a is None:
                dcond = None
            else:
                dcond = self.ival(x, x.top(), IR.I1, br.a)
                if not con(dcond):
                    dcond = simp(dcond)
                if br.b == Y:
                    Z, tz = br.c, Not(dcond)
                else:
                    Z, tz = br.b, dcond
            ph = []
            good = True
            for p in fn.blocks[Y].phis:
                u = self.val(x, x.top(), p.a, p.b[X])
                v = self.val(st, st.top(), p.a, p.b[fr.blk])
                if u is v or (isinstance(u, Ptr) and isinstance(v, Ptr) and u.same(v)):
                    ph.append((p.res, u))
                elif self.mergeable_val(u, v) and p.a.k == "i":
                    ph.append((p.res, ite(cx, u, v, p.a.a)))
                else:
                    good = False
            if not good:
                continue
            zs = None
            if dcond is not None:
                zs = x.fork()
            ys = st.fork()
            if not self.merge_mem(ys, x, cx, st):
                continue
            self.carry(ys, x, n0, cx)
            for o in x.mem:
                if o not in ys.mem:
                    ys.mem[o] = x.mem[o]
            ys.globs = dict(x.globs)
            out = []
            f2 = ys.top()
            f2.prev = X
            for r, v in ph:
                f2.env[r] = v
            f2.blk = Y
            f2.ip = 0
            ys.kv.pop("hdr", None)
            if dcond is None:
                return ([ys],)
            if at and (not inb(Z) or not inb(Y)):
                l.sym_exit = True
            yc = Not(And(cx, tz))
            if self.feasible(ys, yc):
                self.assume(ys, yc)
                out.append(ys)
            if self.feasible(zs, tz):
                self.assume(zs, tz)
                self.goto(zs, zs.top(), Z)
                out.append(zs)
            if not out:
                raise Dead()
            return (out,)
        return None

    def is_global(self, s, o):
        return any(isinstance(p, Ptr) and p.obj == o or p == o for p in s.globs.values())

    def i_switch(self, st, fr, ins):
        v = self.ival(st, fr, ins.a, ins.b)
        w = ins.a.a
        if not con(v):
            v = simp(v)
        if con(v):
            for cv, t in ins.d:
                if cv == v:
                    self.goto(st, fr, t)
                    return
            self.goto(st, fr, ins.c)
            return
        alts = {}
        for cv, t in ins.d:
            alts.setdefault(t, []).append(eq(v, cv, w))
        al = [(Or(*cs), t) for t, cs in alts.items()]
        al.append((And(*[Not(eq(v, cv, w)) for cv, t in ins.d]), ins.c))
        return self.branch(st, fr, ins, al)

    def i_ret(self, st, fr, ins):
        if ins.a is None:
            self.do_ret(st, None)
        else:
            self.do_ret(st, self.val(st, fr, ins.a, ins.b))

    def i_unreachable(self, st, fr, ins):
        self.oblige(st, 0, "unreachable-not-reached", "ub")
        raise Dead()

    def i_call(self, st, fr, ins):
        cal = ins.b
        args = []
        for ty, v, at in ins.c:
            if ty.k == "metadata":
                args.append((ty, UNDEF, None))
            else:
                args.append((ty, self.val(st, fr, ty, v), at))
        if cal[0] == "glob":
            name = cal[1]
        else:
            p = self.val(st, fr, PTR, cal)
            if not isinstance(p, Ptr):
                raise Unsupported("call through non-pointer")
            if p.obj == 0:
                self.oblige(st, 0, "no-null-call", "ub")
                raise Dead()
            o = st.mem.get(p.obj)
            if o is None or o.kind != "func":
                raise Unsupported("call through data pointer")
            name = o.name
        self.call(st, fr, ins, name, args, ins.a)

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.a, ins.b)
        for i in ins.c:
            v = v.f[i] if isinstance(v, Agg) else UNDEF
        fr.env[ins.res] = v
        fr.ip += 1

    def i_insertvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.a, ins.b)
        e = self.val(st, fr, ins.c, ins.d)
        if isinstance(v, Undef):
            v = self.undefval(fr.fn.mod, ins.a)

        def rec(v, idx):
            if not idx:
                return e
            f = list(v.f)
            f[idx[0]] = rec(f[idx[0]], idx[1:])
            return Agg(f)

        fr.env[ins.res] = rec(v, ins.e)
        fr.ip += 1

    def i_landingpad(self, st, fr, ins):
        fr.env[ins.res] = fr.env["__lp"]
        fr.ip += 1

    def i_resume(self, st, fr, ins):
        v = self.val(st, fr, None, ins.a)
        ptr, tinfo = st.exc
        self.unwind(st, ptr, tinfo)

    def i_atomicrmw(self, st, fr, ins):
        p = self.val(st, fr, PTR, ins.c)
        v = self.val(st, fr, ins.b, ins.d)
        sz = fr.fn.mod.size(ins.b)
        old = self.load(st, p, sz)
        w = sz * 8
        if isinstance(old, Undef):
            raise Unsupported("atomicrmw undef")
        new = {"add": lambda: add(old, v, w), "sub": lambda: sub(old, v, w), "xchg": lambda: v}.get(ins.a)
        if new is None:
            raise Unsupported("atomicrmw " + ins.a)
        self.store(st, p, sz, new())
        fr = st.top()
        fr.env[ins.res] = old
        fr.ip += 1

    def i_unsup(self, st, fr, ins):
        raise Unsupported("instruction " + str(ins.a)[:100])

    DISP = {
        "alloca": i_alloca, "load": i_load, "store": i_store, "gep": i_gep, "bin": i_bin, "icmp": i_icmp,
        "fcmp": i_fcmp, "fneg": i_fneg, "cast": i_cast, "select": i_select, "br": i_br, "switch": i_switch,
        "ret": i_ret, "unreachable": i_unreachable, "call": i_call, "invoke": i_call,
        "extractvalue": i_extractvalue, "insertvalue": i_insertvalue, "landingpad": i_landingpad,
        "resume": i_resume, "atomicrmw": i_atomicrmw, "unsup": i_unsup, "asm": i_unsup, "cmpxchg": i_unsup,
    }

    # ------------------------------------------------------------ loops
    def at_header(self, st, lctx):
        """called when control is at a loop header; returns None to continue or list of states"""
        st.kv.pop("hdr", None)
        fr = st.top()
        h = fr.blk
        body = fr.fn.loops[h]
        entering = fr.prev not in body
        if entering:
            fr.loopmode.pop(h, None)
            fr.loopcnt[h] = 0
        n = fr.loopcnt[h] = fr.loopcnt.get(h, 0) + 1
        mode = fr.loopmode.get(h)
        if mode is None:
            if self.o["bounded"]:
                mode = "unroll"
            else:
                mode = self.probe(st, fr, h, body)
            fr = st.top()
            fr.loopmode[h] = mode
        if mode == "cut":
            import couple

            return couple.cut_loop(self, st, h, body)
        lim = self.o["bounded"] or self.o["unroll"]
        if self.o["bounded"]:
            # bounded mode: drop paths beyond the bound when the loop is symbolic
            if n > max(self.o["unroll"], 70000) or (n > lim + 1 and st.kv.get(("sym", len(st.frames), h))):
                self.cutoff = getattr(self, "cutoff", 0) + 1
                raise Dead()
        elif n > max(lim, 70000):
            raise Unsupported("loop not bounded by code: " + self.short(fr.fn.name))
        elif n > lim and n % 64 == 0:
            # long loop: is it symbolic?
            pass
        return None

    def mark_sym(self, st, h):
        st.kv[("sym", len(st.frames), h)] = 1

    def probe(self, st, fr, h, body):
        if self.o.get("force_unroll") and self.models.rx(self.o["force_unroll"], self.dn.get(fr.fn.name, fr.fn.name)):
            return "unroll"
        d = len(st.frames) - 1
        l = LoopCtx(d, h, body)
        s = st.fork()
        s.kv["lstart"] = 1
        s.kv.pop("fx", None)
        self.dry += 1
        self.loopstack.append(l)
        save = self.buf
        try:
            self.explore([s], l)
        except Unsupported:
            pass
        finally:
            self.loopstack.pop()
            self.dry -= 1
            self.buf = save
        if l.sym_exit and (not l.con_exit or (l.fx_sym and not l.fx_con)):
            return "unroll" if self.short_loop(st, d, h, body) else "cut"
        return "unroll"

    def short_loop(self, st, d, h, body):
        """does the path condition bound the loop by a few iterations? (dry run)"""
        cur = [st.fork()]
        t0 = time.time()
        for _ in range(self.o.get("shortloop", 5)):
            nxt = []
            for s in cur:
                l = LoopCtx(d, h, body)
                s.kv["lstart"] = 1
                s.kv.pop("hdr", None)
                self.dry += 1
                self.loopstack.append(l)
                save = self.buf
                try:
                    self.explore([s], l)
                except Unsupported:
                    return False
                finally:
                    self.loopstack.pop()
                    self.dry -= 1
                    self.buf = save
                for b in l.backs:
                    if self.feasible(b):
                        nxt.append(b)
                if len(nxt) > 12 or time.time() - t0 > 8:
                    return False
            if not nxt:
                return True
            cur = nxt
        return False


_NL = {z3.Z3_OP_BSDIV, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUREM, z3.Z3_OP_BSMOD,
       z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSMOD_I}


def abstract_nonlinear(fs):
    found = {}
    seen = set()
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            k = t.decl().kind()
            if k in _NL and not isinstance(t.arg(1), z3.BitVecNumRef):
                found[i] = t
                continue
            if k == z3.Z3_OP_BMUL and t.num_args() == 2 and not isinstance(t.arg(0), z3.BitVecNumRef) and not isinstance(t.arg(1), z3.BitVecNumRef):
                found[i] = t
                continue
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            return None
    if not found:
        return None
    sub_ = [(t, z3.BitVec(f"nl!{i}", t.size())) for i, t in found.items()]
    return [z3.substitute(f, *sub_) for f in fs]


PURE_C = {"isalnum", "isalpha", "isdigit", "isxdigit", "isupper", "islower", "isspace", "isprint", "toupper", "tolower", "ispunct", "isblank"}


PURE_M = re.compile(r"basic_string<char[^()]*>::(size|length|empty|operator\[\]|c_str|data|begin|end|cbegin|cend|front|back)\(|basic_string_view<char[^()]*>::(size|length|empty|operator\[\]|data|begin|end|front|back)\(")


class _P:
    pass


PUSHED = _P()


def re_internal(h):
    return h.startswith("define internal") or h.startswith("define private")


def _off_(t):
    if z3.is_app_of(t, z3.Z3_OP_BADD) and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if isinstance(b, z3.BitVecNumRef):
            return a, b.as_long()
        if isinstance(a, z3.BitVecNumRef):
            return b, a.as_long()
    return t, 0
