"""Trusted models of the C++ runtime and of the parts of libstdc++ whose state has symbolic size
(std::string, std::vector<scalar>), plus the vp_* contract primitives. Everything else of libstdc++ is
executed from its own IR."""
import re
import z3
from ir import Unsupported, Ty, I32, I64, PTR, FLOATS
from terms import *
from engine import *
import engine as E

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
SV = "std::basic_string_view<char, std::char_traits<char>>"
NPOS = mask(64)
INTS = {
    "unsigned long": 8, "long": 8, "unsigned int": 4, "int": 4, "unsigned short": 2, "short": 2,
    "unsigned char": 1, "signed char": 1, "char": 1, "unsigned long long": 8, "long long": 8,
}
MAXLEN = 1 << 40


def normalize(d):
    d = d.replace("[abi:cxx11]", "")
    d = d.replace(STR, "string").replace(SV, "sv")
    d = d.replace("string::value_type", "char").replace("string::size_type", "unsigned long")
    return d


def split_args(s):
    out = []
    depth = 0
    cur = ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            depth += 1
        elif c in ">)]}":
            if not (c == ">" and i and s[i - 1] == "-"):
                depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def match_paren(d):
    """position of the '(' of the parameter list (last top-level paren group)"""
    end = d.rfind(")")
    if end < 0:
        return None
    depth = 0
    for i in range(end, -1, -1):
        if d[i] == ")":
            depth += 1
        elif d[i] == "(":
            depth -= 1
            if depth == 0:
                return i, end
    return None


class Src:
    """a source character range"""

    __slots__ = ("arr", "n")

    def __init__(self, arr, n):
        self.arr = arr
        self.n = n


class Models:
    def __init__(self, eng):
        self.e = eng
        self.assumptions = set()
        self.extra = []  # (regex, fn) registered by properties
        self.simple = {}
        for k in dir(self):
            if k.startswith("c_"):
                self.simple[k[2:]] = getattr(self, k)
        for n in ("vp_nondet", "vp_assume", "vp_assert_", "vp_make_string", "vp_make_string_of", "vp_make_vec", "vp_cover_", "vp_ghost_", "vp_unrolling", "vp_range_", "vp_symbolic", "vp_note", "vp_concrete_len", "vp_uf2"):
            self.simple[n] = getattr(self, n)

    def note_assumption(self, s):
        self.assumptions.add(s)

    def rx(self, pats, s):
        return any(re.search(p, s) for p in pats)

    def lookup(self, name, d):
        for rx, fn in self.extra:
            if rx.search(d):
                return fn
        if name in self.simple:
            return self.simple[name]
        if name.startswith("llvm."):
            return self.llvm(name)
        if not name.startswith("_Z"):
            return None
        m = re.match(r"_ZSt10from_charsI([ahstijlmxyc])E", name)
        if m:
            t = m.group(1)
            w = {"a": 8, "h": 8, "c": 8, "s": 16, "t": 16, "i": 32, "j": 32}.get(t, 64)
            return lambda st, name, args, rty, ins: self.c_from_chars(st, args, w, t in "asilxc")
        m = re.match(r"_ZNKSt6bitsetILm(\d+)EE9to_stringIcSt11char_traitsIcESaIcEEE", name)
        if m:
            n = int(m.group(1))
            return lambda st, name, args, rty, ins: self.c_bitset_str(st, args, n)
        d = normalize(d)
        m = self.string_model(d)
        if m is None:
            m = self.vec_model(d)
        if m is None:
            m = self.misc_model(name, d)
        return m

    # ------------------------------------------------------------ helpers
    def strobj(self, st, p):
        """array object of the std::string at p"""
        o = self.e.bounds(st, p, 32, "string")
        if p.idx is not None:
            raise Unsupported("string at symbolic address")
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[1], StrVal):
            if c is not None and isinstance(c[1], Undef) or c is None:
                raise Unsupported("use of unconstructed string object in " + str(o.name))
            raise Unsupported("string object overlaid")
        return c[1].buf, st.mem[c[1].buf]

    def mkstr(self, st, p, n, arr):
        o = self.e.bounds(st, p, 32, "string")
        if o.kind != "cells" or p.idx is not None:
            raise Unsupported("string constructed in array storage")
        if con(o.size if o.size is not None else "x") and (p.off < 0 or p.off + 32 > o.size):
            raise Unsupported("string outside object")
        buf = st.new_arr(1, n, arr, "str", nul=True)
        o = st.wobj(p.obj)
        for co, c in self.e._overlap(o, p.off, 32):
            del o.cells[co]
        o.cells[p.off] = (32, StrVal(buf))
        return buf

    def setstr(self, st, p, n, arr):
        """assign to existing string"""
        b, o = self.strobj(st, p)
        o = st.wobj(b)
        o.n = n
        o.arr = arr

    def raw_field(self, st, cv, lo, n):
        if isinstance(cv, StrVal):
            if lo == 0 and n == 8:
                return Ptr(cv.buf)
            if lo == 8 and n == 8:
                return st.mem[cv.buf].n
            return None
        if isinstance(cv, VecVal):
            if n == 8 and lo == 0:
                return Ptr(cv.buf)
            if n == 8 and lo == 8:
                return self.e.ptradd(Ptr(cv.buf), st.mem[cv.buf].n, cv.es)
        return None

    def mem_src(self, st, p, n, es=1):
        """contents of n elements at p"""
        if con(n) and n == 0:
            return Src(arr_list([], es), 0)
        o = self.e.bounds(st, p, 1, "read")
        if o.kind == "arr":
            i = self.e.elem_index(p, o.es)
            if i is None or o.es != es:
                raise Unsupported("range over foreign array")
            self.e.oblige(st, And(ule(i, o.n, 64), ule(n, sub(o.n, i, 64), 64)), "no-out-of-bounds-access", "ub")
            return Src(arr_shift(o.arr, i), n)
        if o.kind == "cells" and p.idx is None:
            if con(n):
                if n > 1 << 20:
                    raise Unsupported("large range")
                return Src(arr_list([self._int(self.e.cload(st, o, p.off + k * es, es), es) for k in range(n)], es), n)
            avail = (o.size - p.off) // es
            self.e.oblige(st, ule(n, avail, 64), "no-out-of-bounds-access", "ub")
            return Src(arr_list([self._int(self.e.cload(st, o, p.off + k * es, es), es) for k in range(avail)], es), n)
        raise Unsupported("range source")

    def _int(self, v, es):
        if isinstance(v, Undef):
            return fresh("undef", es * 8)
        return v

    def cstrlen(self, st, p):
        o = self.e.bounds(st, p, 1, "strlen")
        if o.kind == "cells" and p.idx is None:
            k = p.off
            while True:
                v = self.e.cload(st, o, k, 1)
                if not con(v):
                    raise Unsupported("strlen of symbolic data")
                if v == 0:
                    return k - p.off
                k += 1
        if o.kind == "arr" and con(o.n):
            i = self.e.elem_index(p, 1)
            if con(i):
                k = i
                while k < o.n:
                    v = o.arr.get(k)
                    v = simp(v) if not con(v) else v
                    if not con(v):
                        raise Unsupported("strlen of symbolic data")
                    if v == 0:
                        break
                    k += 1
                return k - i
        raise Unsupported("strlen of symbolic string")

    def parse_src(self, st, types, vals):
        """consume parameter types describing a character source -> (Src, nparams, nargs)"""
        t = types[0]
        if t in ("string const&", "string&&", "string&"):
            b, o = self.strobj(st, vals[0])
            if len(types) >= 3 and types[1] == "unsigned long" and types[2] == "unsigned long":
                return self.sub_src(st, Src(o.arr, o.n), vals[1], vals[2]), 3, 3
            if len(types) >= 2 and types[1] == "unsigned long" and len(types) in (2,):
                return self.sub_src(st, Src(o.arr, o.n), vals[1], NPOS), 2, 2
            return Src(o.arr, o.n), 1, 1
        if t == "char const*":
            if len(types) >= 2 and types[1] == "unsigned long":
                return self.mem_src(st, vals[0], vals[1]), 2, 2
            if len(types) >= 2 and types[1] == "char const*":
                n = self.e.ptrdiff(st, vals[1], vals[0])
                return self.mem_src(st, vals[0], n), 2, 2
            return self.mem_src(st, vals[0], self.cstrlen(st, vals[0])), 1, 1
        if t == "char":
            v = vals[0]
            return Src(arr_list([v], 1), 1), 1, 1
        if t == "unsigned long" and len(types) >= 2 and types[1] == "char":
            v = vals[1]
            return Src(Arr(lambda i: v), vals[0]), 2, 2
        if t == "sv":
            return self.mem_src(st, vals[1], vals[0]), 1, 2
        if t in ("sv const&",):
            n = self.e.load(st, vals[0], 8)
            p = self.e.load(st, Ptr(vals[0].obj, vals[0].off + 8, vals[0].idx, vals[0].sc), 8)
            s = self.mem_src(st, p, n)
            if len(types) >= 3 and types[1] == "unsigned long" and types[2] == "unsigned long":
                return self.sub_src(st, s, vals[1], vals[2]), 3, 3
            return s, 1, 1
        if t == "std::initializer_list<char>":
            return self.mem_src(st, vals[0], vals[1]), 1, 2
        if t.startswith("__gnu_cxx::__normal_iterator<char") or t == "char*":
            n = self.e.ptrdiff(st, vals[1], vals[0])
            self.e.oblige(st, sle(0, n, 64), "no-inverted-range", "ub")
            return self.mem_src(st, vals[0], n), 2, 2
        m = re.match(r"__gnu_cxx::__normal_iterator<(unsigned char|signed char)", t)
        if m:
            n = self.e.ptrdiff(st, vals[1], vals[0])
            return self.mem_src(st, vals[0], n), 2, 2
        if t.startswith("std::reverse_iterator<__gnu_cxx::__normal_iterator<char"):
            # passed by pointer to {base iterator}
            a = self.e.load(st, vals[0], 8)
            b = self.e.load(st, vals[1], 8)
            n = self.e.ptrdiff(st, a, b)
            s = self.mem_src(st, b, n)
            return Src(Arr(lambda i: s.arr.get(sub(sub(n, 1, 64), i, 64))), n), 2, 2
        raise Unsupported("string source " + t)

    def sub_src(self, st, s, pos, cnt):
        """substr semantics: throws out_of_range when pos > size"""
        if not con(pos):
            st.idx.append(pos)
        c = ule(pos, s.n, 64)
        self.throw_if(st, Not(c), "_ZTISt12out_of_range")
        rest = sub(s.n, pos, 64)
        if con(cnt) and cnt == NPOS:
            n = rest
        else:
            n = ite(simp(ult(cnt, rest, 64)), cnt, rest, 64)
            if not con(n):
                n = simp(n)
        return Src(arr_shift(s.arr, pos), n)

    def throw_if(self, st, c, tinfo):
        """fork: when c holds throw std exception"""
        if not con(c):
            c = simp(c)
        if con(c):
            if c:
                self.throw_std(st, tinfo)
            return
        key = ("thr", c.get_id())
        if key in st.pins:
            return
        f1 = self.e.feasible(st, c)
        f0 = self.e.feasible(st, Not(c))
        if not f1:
            return
        if not f0:
            self.throw_std(st, tinfo)
        a = st.fork()
        self.e.assume(a, Not(c))
        a.pins[key] = 0
        b = st
        self.e.assume(b, c)
        raise ForkReq([a, b])

    def throw_std(self, st, tinfo):
        oid = st.new_obj(Obj("opaque", 64, tinfo))
        raise Throw(Ptr(oid), tinfo)

    def fork_bool(self, st, c, tag=None):
        """decide a boolean by forking; returns python bool in the current state"""
        if not con(c):
            c = simp(c)
        if con(c):
            return bool(c)
        key = ("fb", c.get_id())
        if key in st.pins:
            return bool(st.pins[key][0])
        f1 = self.e.feasible(st, c)
        f0 = self.e.feasible(st, Not(c))
        if f1 and not f0:
            return True
        if f0 and not f1:
            return False
        a = st.fork()
        self.e.assume(a, c)
        a.pins[key] = (1, c)
        b = st
        self.e.assume(b, Not(c))
        b.pins[key] = (0, c)
        raise ForkReq([a, b])

    # ---------------- comparison of character ranges
    def first_diff(self, st, a, b, w=8):
        """-> (d, m): d = length of the common prefix, m = min length"""
        m = ite(simp(ult(a.n, b.n, 64)), a.n, b.n, 64)
        if not con(m):
            m = simp(m)
        key = None
        d = fresh("diff", 64)
        st.pc.append(B(ule(d, m, 64)))
        c = Implies(ult(d, m, 64), Not(eq(a.arr.get(d), b.arr.get(d), w)))
        if not (con(c) and c):
            st.pc.append(B(c))
        st.univ.append((0, d, lambda j: eq(a.arr.get(j), b.arr.get(j), w)))
        st.idx.append(d)
        return d, m

    def src_eq(self, st, a, b, w=8):
        if con(a.n) and con(b.n) and a.n != b.n:
            return 0
        k = a.n if con(a.n) else (b.n if con(b.n) else None)
        if k is not None and k <= 300:
            return And(eq(a.n, b.n, 64), *[eq(a.arr.get(i), b.arr.get(i), w) for i in range(k)])
        if a.arr is b.arr:
            return eq(a.n, b.n, 64)
        d, m = self.first_diff(st, a, b, w)
        return And(eq(a.n, b.n, 64), eq(d, a.n, 64))

    def src_cmp(self, st, a, b):
        """three way comparison, 32-bit"""
        if con(a.n) and con(b.n) and max(a.n, b.n) <= 64:
            r = sub(a.n, b.n, 32)
            for i in range(min(a.n, b.n) - 1, -1, -1):
                x, y = a.arr.get(i), b.arr.get(i)
                r = ite(eq(x, y, 8), r, ite(ult(x, y, 8), mask(32), 1, 32), 32)
            return r
        d, m = self.first_diff(st, a, b)
        x, y = a.arr.get(d), b.arr.get(d)
        ln = ite(simp(ult(a.n, b.n, 64)), mask(32), ite(simp(eq(a.n, b.n, 64)), 0, 1, 32), 32)
        # magnitude is unspecified; only the sign is modelled as -1/0/1
        self.note_assumption("std::string::compare / memcmp modelled by sign only (-1,0,1)")
        return ite(simp(ult(d, m, 64)), ite(ult(x, y, 8), mask(32), 1, 32), ln, 32)

    # ------------------------------------------------------------ std::string
    def string_model(self, d):
        mp = match_paren(d)
        if mp is None:
            return None
        head = d[: mp[0]]
        types = split_args(d[mp[0] + 1 : mp[1]])
        m = re.match(r"^(?:[^()]*? )?string::(~?[A-Za-z_0-9]+|operator[^\w ]+|operator sv|operator\[\])(<.*>)?$", head)
        if m:
            meth = m.group(1)
            if m.group(2) and meth.startswith("operator") and meth not in ("operator=", "operator+="):
                pass
            fn = getattr(self, "s_" + STRM.get(meth, meth), None)
            if fn is None:
                if meth.startswith("_M_") or meth.startswith("_S_"):
                    return None

                def bad(st, name, args, rty, ins):
                    raise Unsupported("std::string::" + meth + "(" + ", ".join(types) + ")")

                return bad
            return lambda st, name, args, rty, ins: fn(st, types, [a[1] for a in args], rty)
        m = re.match(r"^(?:[^()]*? )?(?:std::)?operator(==|!=|<|>|<=|>=|\+)<char, std::char_traits<char>(, std::allocator<char>)?>$", head)
        if m and types and any(t.startswith("string") or t.startswith("sv") or "type_identity" in t or "__type_identity" in t for t in types):
            op = m.group(1)
            types = ["sv" if ("type_identity" in t) else t for t in types]
            if op == "+":
                return lambda st, name, args, rty, ins: self.s_plus(st, types, [a[1] for a in args])
            return lambda st, name, args, rty, ins: self.s_cmpop(st, op, types, [a[1] for a in args])
        m = re.match(r"^(?:[^()]*? )?sv::(compare|find|rfind|find_first_of|find_first_not_of|find_last_of|find_last_not_of|starts_with|ends_with|substr|copy)$", head)
        if m:
            fn = getattr(self, "v_" + m.group(1), None)
            if fn:
                return lambda st, name, args, rty, ins: fn(st, types, [a[1] for a in args], rty)
        if head == "std::__cxx11::to_string":
            sg = types[0] in ("int", "long", "long long")
            w = 32 if types[0] in ("int", "unsigned int") else 64
            return lambda st, name, args, rty, ins: self.s_to_string(st, args[0][1], args[1][1], w, sg)
        return None

    def s_plus(self, st, types, vals):
        dst = vals[0]
        vals = vals[1:]
        a, np, na = self.parse_src(st, types[:1], vals)
        b, _, _ = self.parse_src(st, types[np:], vals[na:])
        n = add(a.n, b.n, 64)
        self.mkstr(st, dst, n, arr_concat(a.arr, a.n, b.arr, 8))

    def s_cmpop(self, st, op, types, vals):
        a, np, na = self.parse_src(st, types[:1], vals)
        b, _, _ = self.parse_src(st, types[np:], vals[na:])
        if op == "==":
            return self.src_eq(st, a, b)
        if op == "!=":
            return Not(self.src_eq(st, a, b))
        c = self.src_cmp(st, a, b)
        return {"<": slt(c, 0, 32), ">": slt(0, c, 32), "<=": sle(c, 0, 32), ">=": sle(0, c, 32)}[op]

    def strip_alloc(self, types, vals):
        if types and types[-1].startswith("std::allocator<char>"):
            return types[:-1], vals[:-1]
        return types, vals

    def s_basic_string(self, st, types, vals, rty):
        this, vals = vals[0], vals[1:]
        types, vals = self.strip_alloc(types, vals)
        if not types:
            self.mkstr(st, this, 0, arr_list([], 1))
            return
        if types[0] == "string&&":
            b, o = self.strobj(st, vals[0])
            self.mkstr(st, this, o.n, o.arr)
            # transfer buffer identity: keep pointers into the moved buffer valid
            src = st.wobj(vals[0].obj)
            dst = st.wobj(this.obj)
            nb = dst.cells[this.off][1].buf
            dst.cells[this.off] = (32, StrVal(b))
            src = st.wobj(vals[0].obj)
            src.cells[vals[0].off] = (32, StrVal(nb))
            e = st.wobj(nb)
            e.n = 0
            e.arr = arr_list([], 1)
            return
        s, _, _ = self.parse_src(st, types, vals)
        self.len_ok(st, s.n)
        self.mkstr(st, this, s.n, s.arr)

    def len_ok(self, st, n):
        if not con(n):
            self.throw_if(st, z3.UGT(n, BV(1 << 62, 64)), "_ZTISt12length_error")
        elif n > 1 << 62:
            self.throw_std(st, "_ZTISt12length_error")

    def s_dtor(self, st, types, vals, rty):
        p = vals[0]
        o = st.wobj(p.obj)
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[1], StrVal):
            raise Unsupported("destroying unconstructed string")
        del o.cells[p.off]
        st.mem.pop(c[1].buf, None)

    def s_assign(self, st, types, vals, rty):
        this, vals = vals[0], vals[1:]
        if types[0] == "string&&":
            if not this.same(vals[0]):
                b, o = self.strobj(st, vals[0])
                n, arr = o.n, o.arr
                tb, to = self.strobj(st, this)
                d = st.wobj(this.obj)
                d.cells[this.off] = (32, StrVal(b))
                s = st.wobj(vals[0].obj)
                s.cells[vals[0].off] = (32, StrVal(tb))
                e = st.wobj(tb)
                e.n = 0
                e.arr = arr_list([], 1)
            return this
        s, _, _ = self.parse_src(st, types, vals)
        self.len_ok(st, s.n)
        self.setstr(st, this, s.n, s.arr)
        return this

    def s_size(self, st, types, vals, rty):
        return self.strobj(st, vals[0])[1].n

    def s_empty(self, st, types, vals, rty):
        return eq(self.strobj(st, vals[0])[1].n, 0, 64)

    def s_clear(self, st, types, vals, rty):
        self.setstr(st, vals[0], 0, arr_list([], 1))

    def s_data(self, st, types, vals, rty):
        return Ptr(self.strobj(st, vals[0])[0])

    def s_end(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        return self.e.ptradd(Ptr(b), o.n, 1)

    def s_index(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        c = ule(vals[1], o.n, 64)
        if not (con(c) and c):
            self.e.oblige(st, c, "no-out-of-bounds-access", "ub")
        return self.e.ptradd(Ptr(b), vals[1], 1)

    def s_at(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        self.throw_if(st, Not(ult(vals[1], o.n, 64)), "_ZTISt12out_of_range")
        return self.e.ptradd(Ptr(b), vals[1], 1)

    def s_front(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        self.e.oblige(st, Not(eq(o.n, 0, 64)), "no-access-to-empty-container", "ub")
        return Ptr(b)

    def s_back(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        self.e.oblige(st, Not(eq(o.n, 0, 64)), "no-access-to-empty-container", "ub")
        return self.e.ptradd(Ptr(b), sub(o.n, 1, 64), 1)

    def s_push_back(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        o = st.wobj(b)
        v = vals[1]
        if isinstance(v, Undef):
            v = fresh("undef", 8)
        o.arr = arr_concat(o.arr, o.n, arr_list([v], 1), 8)
        o.n = add(o.n, 1, 64)

    def s_pop_back(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        self.e.oblige(st, Not(eq(o.n, 0, 64)), "no-access-to-empty-container", "ub")
        o = st.wobj(b)
        o.n = sub(o.n, 1, 64)

    def s_append(self, st, types, vals, rty):
        this, vals = vals[0], vals[1:]
        s, _, _ = self.parse_src(st, types, vals)
        b, o = self.strobj(st, this)
        n = add(o.n, s.n, 64)
        self.len_ok(st, s.n)
        o = st.wobj(b)
        o.arr = arr_concat(o.arr, o.n, s.arr, 8)
        o.n = n
        return this

    def splice(self, st, this, pos, cnt, s):
        """replace [pos,pos+cnt) by s; cnt clipped already"""
        b, o = self.strobj(st, this)
        o = st.wobj(b)
        old, n = o.arr, o.n
        tailpos = add(pos, cnt, 64)
        tail = arr_shift(old, tailpos)
        o.arr = arr_concat(old, pos, arr_concat(s.arr, s.n, tail, 8), 8)
        o.n = add(sub(n, cnt, 64), s.n, 64)

    def _pos_of(self, st, this, it):
        b, o = self.strobj(st, this)
        if it.obj != b:
            raise Unsupported("iterator of another string")
        i = self.e.elem_index(it, 1)
        self.e.oblige(st, ule(i, o.n, 64), "valid-iterator", "ub")
        return i

    def _clip(self, st, this, pos, cnt):
        b, o = self.strobj(st, this)
        self.throw_if(st, Not(ule(pos, o.n, 64)), "_ZTISt12out_of_range")
        rest = sub(o.n, pos, 64)
        if con(cnt) and cnt == NPOS:
            return rest
        r = ite(simp(ult(cnt, rest, 64)), cnt, rest, 64)
        return r if con(r) else simp(r)

    def s_insert(self, st, types, vals, rty):
        this = vals[0]
        if types[0] == "unsigned long":
            s, _, _ = self.parse_src(st, types[1:], vals[2:])
            self._clip(st, this, vals[1], 0)
            self.splice(st, this, vals[1], 0, s)
            return this
        pos = self._pos_of(st, this, vals[1])
        s, _, _ = self.parse_src(st, types[1:], vals[2:])
        self.splice(st, this, pos, 0, s)
        return vals[1]

    def s_erase(self, st, types, vals, rty):
        this = vals[0]
        if types and types[0] == "unsigned long":
            c = self._clip(st, this, vals[1], vals[2])
            self.splice(st, this, vals[1], c, Src(arr_list([], 1), 0))
            return this
        pos = self._pos_of(st, this, vals[1])
        b, o = self.strobj(st, this)
        if len(vals) == 2:
            self.e.oblige(st, ult(pos, o.n, 64), "valid-iterator", "ub")
            cnt = 1
        else:
            e = self._pos_of(st, this, vals[2])
            self.e.oblige(st, ule(pos, e, 64), "valid-iterator", "ub")
            cnt = sub(e, pos, 64)
        self.splice(st, this, pos, cnt, Src(arr_list([], 1), 0))
        return vals[1]

    def s_replace(self, st, types, vals, rty):
        this = vals[0]
        if types[0] == "unsigned long":
            s, _, _ = self.parse_src(st, types[2:], vals[3:])
            c = self._clip(st, this, vals[1], vals[2])
            self.splice(st, this, vals[1], c, s)
            return this
        pos = self._pos_of(st, this, vals[1])
        e = self._pos_of(st, this, vals[2])
        self.e.oblige(st, ule(pos, e, 64), "valid-iterator", "ub")
        s, _, _ = self.parse_src(st, types[2:], vals[3:])
        self.splice(st, this, pos, sub(e, pos, 64), s)
        return this

    def s_substr(self, st, types, vals, rty):
        dst, this = vals[0], vals[1]
        b, o = self.strobj(st, this)
        s = self.sub_src(st, Src(o.arr, o.n), vals[2], vals[3])
        self.mkstr(st, dst, s.n, s.arr)

    def s_resize(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        ch = vals[2] if len(vals) > 2 else 0
        n = vals[1]
        self.len_ok(st, n)
        o = st.wobj(b)
        o.arr = arr_concat(o.arr, o.n, Arr(lambda i: ch), 8)
        o.n = n

    def s_reserve(self, st, types, vals, rty):
        if len(vals) > 1:
            self.len_ok(st, vals[1])
        return None

    def s_shrink_to_fit(self, st, types, vals, rty):
        return None

    def s_capacity(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        c = fresh("capacity", 64)
        st.pc.append(B(ule(o.n, c, 64)))
        return c

    def s_swap(self, st, types, vals, rty):
        a, b = vals[0], vals[1]
        x, y = self.strobj(st, a)[0], self.strobj(st, b)[0]
        st.wobj(a.obj).cells[a.off] = (32, StrVal(y))
        st.wobj(b.obj).cells[b.off] = (32, StrVal(x))

    def s_compare(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        s = Src(o.arr, o.n)
        vals = vals[1:]
        if types[0] == "unsigned long":
            s = self.sub_src(st, s, vals[0], vals[1])
            vals = vals[2:]
            types = types[2:]
        t, _, _ = self.parse_src(st, types, vals)
        return self.src_cmp(st, s, t)

    def s_to_sv(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        return Agg([o.n, Ptr(b)])

    def s_copy(self, st, types, vals, rty):
        b, o = self.strobj(st, vals[0])
        s = self.sub_src(st, Src(o.arr, o.n), vals[3], vals[2])
        if not con(s.n):
            raise Unsupported("string copy")
        for i in range(s.n):
            self.e.store(st, Ptr(vals[1].obj, vals[1].off + i, vals[1].idx, vals[1].sc), 1, s.arr.get(i))
        return s.n

    # searching
    def _find_src(self, st, types, vals):
        """(needle, pos) ; vals excludes this"""
        if types[0] == "char":
            return Src(arr_list([vals[0]], 1), 1), vals[1]
        if types[0] == "char const*" and len(types) == 3:
            return self.mem_src(st, vals[0], vals[2]), vals[1]
        if types[0] == "sv":
            return self.mem_src(st, vals[1], vals[0]), vals[2]
        if types[0] == "sv const&":
            s, _, na = self.parse_src(st, types[:1], vals)
            return s, vals[1]
        s, _, na = self.parse_src(st, types[:1], vals)
        return s, vals[na]

    def this_src(self, st, vals):
        b, o = self.strobj(st, vals[0])
        return Src(o.arr, o.n), vals[1:]

    def sv_this(self, st, vals):
        p = vals[0]
        n = self.e.load(st, p, 8)
        d = self.e.load(st, Ptr(p.obj, p.off + 8, p.idx, p.sc), 8)
        if isinstance(n, Undef) or isinstance(d, Undef):
            raise Unsupported("uninitialised string_view")
        return self.mem_src(st, self.e.coerce(st, d, PTR), n), vals[1:]

    def inset(self, needle, ch):
        if not con(needle.n):
            raise Unsupported("find_*_of with symbolic set")
        return Or(*[eq(needle.arr.get(k), ch, 8) for k in range(needle.n)])

    def scan_fwd(self, st, a, pos, pred):
        """smallest d >= pos with pred(d), or npos"""
        if con(a.n) and con(pos) and a.n <= 64:
            hits = []
            for i in range(pos, a.n):
                p = pred(i)
                if not con(p):
                    p = simp(p)
                if not con(p):
                    if self.e.quick_valid(st, Not(p)):
                        continue
                    if self.e.quick_valid(st, p):
                        p = 1
                if con(p):
                    if p:
                        hits.append((i, 1))
                        break
                    continue
                hits.append((i, p))
            r = NPOS
            for i, p in reversed(hits):
                r = ite(p, i, r, 64)
            return r
        d = fresh("found", 64)
        inr = ult(d, a.n, 64)
        # d in [pos, n) with pred(d), everything before fails; or d == npos and everything fails
        lo = pos
        st.pc.append(B(Or(And(ule(lo, d, 64), inr, pred(d)), eq(d, NPOS, 64))))
        hi = z3.If(B(eq(d, NPOS, 64)), BV(a.n, 64), BV(d, 64))
        st.univ.append((lo, hi, lambda j: Not(pred(j))))
        st.idx.append(d)
        return d

    def scan_bwd(self, st, a, pos, pred):
        """largest d <= pos (and < n) with pred(d), or npos"""
        last = ite(simp(ult(pos, a.n, 64)), pos, sub(a.n, 1, 64), 64)
        if con(a.n) and a.n == 0:
            return NPOS
        if con(a.n) and con(pos) and a.n <= 64:
            r = NPOS
            for i in range(0, min(a.n - 1, pos) + 1):
                r = ite(simp(pred(i)) if not con(pred(i)) else pred(i), i, r, 64)
            return r
        d = fresh("rfound", 64)
        st.pc.append(B(Or(And(Not(eq(a.n, 0, 64)), ule(d, last, 64), pred(d)), eq(d, NPOS, 64))))
        lo = z3.If(B(eq(d, NPOS, 64)), BV(0, 64), BV(d, 64) + 1)
        hi = z3.If(B(eq(a.n, 0, 64)), BV(0, 64), BV(last, 64) + 1)
        st.univ.append((lo, hi, lambda j: Not(pred(j))))
        st.idx.append(d)
        return d

    def do_find(self, st, a, needle, pos):
        if con(needle.n) and needle.n == 1:
            c = needle.arr.get(0)
            return self.scan_fwd(st, a, pos, lambda j: eq(a.arr.get(j), c, 8))
        if con(needle.n) and 0 < needle.n <= 16:
            m = needle.n

            def pred(j):
                return And(ule(m, a.n, 64), ule(j, sub(a.n, m, 64), 64), *[eq(a.arr.get(add(j, k, 64)), needle.arr.get(k), 8) for k in range(m)])

            return self.scan_fwd(st, a, pos, pred)
        if con(needle.n) and needle.n == 0:
            return ite(simp(ule(pos, a.n, 64)), pos, NPOS, 64)
        # symbolic needle
        m = needle.n
        d = fresh("found", 64)
        sk = z3.Function(f"sk!{next(E._cnt)}", z3.BitVecSort(64), z3.BitVecSort(64))
        fits = lambda j: And(ule(m, a.n, 64), ule(j, sub(a.n, m, 64), 64))
        st.pc.append(B(Or(And(ule(pos, d, 64), fits(d)), eq(d, NPOS, 64))))
        found = Not(eq(d, NPOS, 64))

        def nomatch(j):
            k = sk(BV(j, 64))
            return Or(Not(fits(j)), And(ult(k, m, 64), Not(eq(a.arr.get(add(j, k, 64)), needle.arr.get(k), 8))))

        nomatch.sk = lambda j: [sk(BV(j, 64))]
        hi = z3.If(B(eq(d, NPOS, 64)), BV(a.n, 64) + 1, BV(d, 64))
        st.univ.append((pos, hi, nomatch))
        hi2 = z3.If(B(found), BV(m, 64), BV(0, 64))
        st.univ.append((0, hi2, lambda k: eq(a.arr.get(add(d, k, 64)), needle.arr.get(k), 8)))
        st.idx.append(d)
        return d

    def s_find(self, st, types, vals, rty):
        a, v = self.this_src(st, vals)
        nd, pos = self._find_src(st, types, v)
        return self.do_find(st, a, nd, pos)

    def v_find(self, st, types, vals, rty):
        a, v = self.sv_this(st, vals)
        nd, pos = self._find_src(st, types, v)
        return self.do_find(st, a, nd, pos)

    def _fo(self, st, a, types, v, fwd, neg):
        nd, pos = self._find_src(st, types, v)
        if not con(nd.n) and fwd and not neg:
            return self.find_any(st, a, nd, pos)
        pred = (lambda j: Not(self.inset(nd, a.arr.get(j)))) if neg else (lambda j: self.inset(nd, a.arr.get(j)))
        return self.scan_fwd(st, a, pos, pred) if fwd else self.scan_bwd(st, a, pos, pred)

    def find_any(self, st, a, nd, pos):
        """find_first_of with a set of symbolic size: w is the matching element of the set"""
        d, w = fresh("found", 64), fresh("which", 64)
        st.pc.append(B(Or(And(ule(pos, d, 64), ult(d, a.n, 64), ult(w, nd.n, 64), eq(a.arr.get(d), nd.arr.get(w), 8)), eq(d, NPOS, 64))))
        hi = z3.If(B(eq(d, NPOS, 64)), BV(a.n, 64), BV(d, 64))

        # for all j in range, for all k < |set|; k is instantiated at the indices known at the time of the query
        st.univ.append((pos, hi, lambda j: And(*[Or(Not(ult(k, nd.n, 64)), Not(eq(a.arr.get(j), nd.arr.get(k), 8))) for k in self.recent_idx()])))
        st.idx.append(d)
        st.idx.append(w)
        return d

    def recent_idx(self):
        return self.cur_idx[-14:]

    def s_find_first_of(self, st, t, v, r):
        a, v = self.this_src(st, v)
        return self._fo(st, a, t, v, True, False)

    def s_find_first_not_of(self, st, t, v, r):
        a, v = self.this_src(st, v)
        return self._fo(st, a, t, v, True, True)

    def s_find_last_of(self, st, t, v, r):
        a, v = self.this_src(st, v)
        return self._fo(st, a, t, v, False, False)

    def s_find_last_not_of(self, st, t, v, r):
        a, v = self.this_src(st, v)
        return self._fo(st, a, t, v, False, True)

    def v_find_first_of(self, st, t, v, r):
        a, v = self.sv_this(st, v)
        return self._fo(st, a, t, v, True, False)

    def v_find_first_not_of(self, st, t, v, r):
        a, v = self.sv_this(st, v)
        return self._fo(st, a, t, v, True, True)

    def v_find_last_of(self, st, t, v, r):
        a, v = self.sv_this(st, v)
        return self._fo(st, a, t, v, False, False)

    def v_find_last_not_of(self, st, t, v, r):
        a, v = self.sv_this(st, v)
        return self._fo(st, a, t, v, False, True)

    def s_rfind(self, st, types, vals, rty):
        a, v = self.this_src(st, vals)
        nd, pos = self._find_src(st, types, v)
        return self._rfind(st, a, nd, pos)

    def v_rfind(self, st, types, vals, rty):
        a, v = self.sv_this(st, vals)
        nd, pos = self._find_src(st, types, v)
        return self._rfind(st, a, nd, pos)

    def _rfind(self, st, a, nd, pos):
        if con(nd.n) and nd.n == 1:
            c = nd.arr.get(0)
            return self.scan_bwd(st, a, pos, lambda j: eq(a.arr.get(j), c, 8))
        raise Unsupported("rfind")

    def v_compare(self, st, types, vals, rty):
        a, v = self.sv_this(st, vals)
        if types[0] == "unsigned long":
            a = self.sub_src(st, a, v[0], v[1])
            v = v[2:]
            types = types[2:]
        b, _, _ = self.parse_src(st, types, v)
        return self.src_cmp(st, a, b)

    def s_to_string(self, st, dst, v, w, signed):
        neg = slt(v, 0, w) if signed else 0
        isneg = self.fork_bool(st, neg)
        mag = sub(0, v, w) if isneg else v
        digs = []
        nd = 1
        maxd = 10 if w == 32 else 20
        while nd < maxd and not self.fork_bool(st, ult(mag, 10**nd, w)):
            nd += 1
        out = [45] if isneg else []
        if con(mag):
            out += [(mag // 10**k) % 10 + 48 for k in range(nd - 1, -1, -1)]
        else:
            # the decimal digits are the unique characters c_k in '0'..'9' with mag = sum (c_k-'0') 10^k
            W = 64 if w == 32 else 72
            key = (mag.get_id(), nd)
            cache = self.__dict__.setdefault("digcache", {})
            if key in cache:
                ds = cache[key][1]
            else:
                ds = [fresh("dg", 8) for _ in range(nd)]
                cache[key] = (mag, ds)
            if ("dig", key) not in st.pins:
                st.pins[("dig", key)] = 1
                tot = z3.ZeroExt(W - 8, ds[0]) - 48
                for d in ds[1:]:
                    tot = tot * 10 + z3.ZeroExt(W - 8, d) - 48
                self.e.assume(st, z3.ZeroExt(W - w, mag) == tot)
                for d in ds:
                    st.pc.append(z3.And(z3.ULE(48, d), z3.ULE(d, 57)))
                if nd > 1:
                    st.pc.append(ds[0] != 48)  # mag >= 10^(nd-1)
            out += ds
        self.mkstr(st, dst, len(out), arr_list(out, 1))

    # ------------------------------------------------------------ std::vector<scalar>
    def vec_model(self, d):
        m = re.match(r"^bool std::operator(==|!=)<([a-z ]+), std::allocator<\2>>\(", d)
        if m and m.group(2) in INTS:
            return lambda st, name, args, rty, ins: self.w_eqop(st, m.group(1), args[0][1], args[1][1], INTS[m.group(2)])
        m = re.match(r"^(?:[^()]*? )?std::vector<([a-z ]+), std::allocator<\1>>::(~?[A-Za-z_0-9]+|operator=|operator\[\])(<.*?>)?\((.*)\)( const)?$", d)
        if not m or m.group(1) not in INTS:
            return None
        es = INTS[m.group(1)]
        meth = m.group(2)
        types = split_args(m.group(4))
        fn = getattr(self, "w_" + VECM.get(meth, meth), None)
        if fn is None:
            if meth.startswith("_M_") or meth.startswith("_S_") or meth.startswith("_Temp"):
                return None

            def bad(st, name, args, rty, ins):
                raise Unsupported("std::vector::" + meth)

            return bad
        return lambda st, name, args, rty, ins: fn(st, types, [a[1] for a in args], es)

    def vecobj(self, st, p):
        o = self.e.bounds(st, p, 24, "vector")
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[1], VecVal):
            raise Unsupported("use of unconstructed vector object")
        return c[1].buf, st.mem[c[1].buf]

    def w_eqop(self, st, op, p, q, es):
        _, a = self.vecobj(st, p)
        _, b = self.vecobj(st, q)
        r = self.src_eq(st, Src(a.arr, a.n), Src(b.arr, b.n), es * 8)
        return r if op == "==" else Not(r)

    def mkvec(self, st, p, es, n, arr):
        buf = st.new_arr(es, n, arr, "vec")
        o = self.e.bounds(st, p, 24, "vector")
        if o.kind != "cells" or p.idx is not None:
            raise Unsupported("vector constructed in array storage")
        o = st.wobj(p.obj)
        for co, c in self.e._overlap(o, p.off, 24):
            del o.cells[co]
        o.cells[p.off] = (24, VecVal(buf, es))
        return buf

    def w_vector(self, st, types, vals, es):
        this, vals = vals[0], vals[1:]
        if types and types[-1].startswith("std::allocator<"):
            types = types[:-1]
            vals = vals[:-1]
        if not types:
            self.mkvec(st, this, es, 0, arr_list([], es))
            return
        t = types[0]
        if t.startswith("std::vector<") and t.endswith("const&"):
            b, o = self.vecobj(st, vals[0])
            self.mkvec(st, this, es, o.n, o.arr)
            return
        if t.startswith("std::vector<") and t.endswith("&&"):
            b, o = self.vecobj(st, vals[0])
            nb = self.mkvec(st, this, es, 0, arr_list([], es))
            st.wobj(this.obj).cells[this.off] = (24, VecVal(b, es))
            st.wobj(vals[0].obj).cells[vals[0].off] = (24, VecVal(nb, es))
            return
        if t == "unsigned long":
            v = self.e.load(st, vals[1], es) if len(types) > 1 else 0
            self.mkvec(st, this, es, vals[0], Arr(lambda i: v))
            return
        if t.startswith("std::initializer_list"):
            s = self.mem_src(st, vals[0], vals[1], es)
            self.mkvec(st, this, es, s.n, s.arr)
            return
        if len(types) == 2 and (t.startswith("__gnu_cxx::__normal_iterator") or t.endswith("*")):
            n = self.e.ptrdiff(st, vals[1], vals[0])
            n = self.e.exact_div(n, es) if es > 1 else n
            if n is None:
                raise Unsupported("vector range")
            s = self.mem_src(st, vals[0], n, es)
            self.mkvec(st, this, es, s.n, s.arr)
            return
        raise Unsupported("vector ctor " + t)

    def w_dtor(self, st, types, vals, es):
        p = vals[0]
        o = st.wobj(p.obj)
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[1], VecVal):
            raise Unsupported("destroying unconstructed vector")
        del o.cells[p.off]
        st.mem.pop(c[1].buf, None)

    def w_assign(self, st, types, vals, es):
        this = vals[0]
        t = types[0]
        b, o = self.vecobj(st, this)
        if t.endswith("&&"):
            if not this.same(vals[1]):
                b2, o2 = self.vecobj(st, vals[1])
                st.wobj(this.obj).cells[this.off] = (24, VecVal(b2, es))
                st.wobj(vals[1].obj).cells[vals[1].off] = (24, VecVal(b, es))
                e = st.wobj(b)
                e.n = 0
                e.arr = arr_list([], es)
            return this
        if t.endswith("const&"):
            b2, o2 = self.vecobj(st, vals[1])
            n, arr = o2.n, o2.arr
            o = st.wobj(b)
            o.n, o.arr = n, arr
            return this
        if t.startswith("std::initializer_list"):
            s = self.mem_src(st, vals[1], vals[2], es)
            o = st.wobj(b)
            o.n, o.arr = s.n, s.arr
            return this
        raise Unsupported("vector assign " + t)

    def w_size(self, st, types, vals, es):
        return self.vecobj(st, vals[0])[1].n

    def w_empty(self, st, types, vals, es):
        return eq(self.vecobj(st, vals[0])[1].n, 0, 64)

    def w_clear(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        o = st.wobj(b)
        o.n = 0
        o.arr = arr_list([], es)

    def w_begin(self, st, types, vals, es):
        return Ptr(self.vecobj(st, vals[0])[0])

    def w_end(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        return self.e.ptradd(Ptr(b), o.n, es)

    def w_index(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        c = ult(vals[1], o.n, 64)
        if not (con(c) and c):
            self.e.oblige(st, c, "no-out-of-bounds-access", "ub")
        return self.e.ptradd(Ptr(b), vals[1], es)

    def w_at(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        self.throw_if(st, Not(ult(vals[1], o.n, 64)), "_ZTISt12out_of_range")
        return self.e.ptradd(Ptr(b), vals[1], es)

    def w_front(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        self.e.oblige(st, Not(eq(o.n, 0, 64)), "no-access-to-empty-container", "ub")
        return Ptr(b)

    def w_back(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        self.e.oblige(st, Not(eq(o.n, 0, 64)), "no-access-to-empty-container", "ub")
        return self.e.ptradd(Ptr(b), sub(o.n, 1, 64), es)

    def w_push_back(self, st, types, vals, es):
        v = self.e.load(st, vals[1], es) if len(vals) > 1 else 0
        if isinstance(v, Undef):
            v = fresh("undef", es * 8)
        b, o = self.vecobj(st, vals[0])
        o = st.wobj(b)
        n = o.n
        o.arr = arr_concat(o.arr, n, arr_list([v], es), es * 8)
        o.n = add(n, 1, 64)
        return self.e.ptradd(Ptr(b), n, es)

    def w_pop_back(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        self.e.oblige(st, Not(eq(o.n, 0, 64)), "no-access-to-empty-container", "ub")
        o = st.wobj(b)
        o.n = sub(o.n, 1, 64)

    def w_resize(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        v = self.e.load(st, vals[2], es) if len(vals) > 2 else 0
        o = st.wobj(b)
        o.arr = arr_concat(o.arr, o.n, Arr(lambda i: v), es * 8)
        o.n = vals[1]

    def w_reserve(self, st, types, vals, es):
        return None

    def w_swap(self, st, types, vals, es):
        a, b = vals[0], vals[1]
        x, y = self.vecobj(st, a)[0], self.vecobj(st, b)[0]
        st.wobj(a.obj).cells[a.off] = (24, VecVal(y, es))
        st.wobj(b.obj).cells[b.off] = (24, VecVal(x, es))

    def w_insert(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        it = vals[1]
        if it.obj != b:
            raise Unsupported("iterator of another vector")
        pos = self.e.elem_index(it, es)
        self.e.oblige(st, ule(pos, o.n, 64), "valid-iterator", "ub")
        if len(types) == 3 and types[1] == "unsigned long" and types[2].endswith("const&"):
            v = self.e.load(st, vals[3], es)
            s = Src(Arr(lambda i: v), vals[2])
        elif len(types) == 2:
            v = self.e.load(st, vals[2], es)
            s = Src(arr_list([v], es), 1)
        elif len(types) == 3:
            n = self.e.ptrdiff(st, vals[3], vals[2])
            n = self.e.exact_div(n, es) if es > 1 else n
            s = self.mem_src(st, vals[2], n, es)
        else:
            raise Unsupported("vector insert")
        o = st.wobj(b)
        old, n = o.arr, o.n
        o.arr = arr_concat(old, pos, arr_concat(s.arr, s.n, arr_shift(old, pos), es * 8), es * 8)
        o.n = add(n, s.n, 64)
        return it

    def w_erase(self, st, types, vals, es):
        b, o = self.vecobj(st, vals[0])
        it = vals[1]
        pos = self.e.elem_index(it, es)
        if len(vals) == 2:
            self.e.oblige(st, ult(pos, o.n, 64), "valid-iterator", "ub")
            cnt = 1
        else:
            e = self.e.elem_index(vals[2], es)
            self.e.oblige(st, And(ule(pos, e, 64), ule(e, o.n, 64)), "valid-iterator", "ub")
            cnt = sub(e, pos, 64)
        o = st.wobj(b)
        old, n = o.arr, o.n
        o.arr = arr_concat(old, pos, arr_shift(old, add(pos, cnt, 64)), es * 8)
        o.n = sub(n, cnt, 64)
        return it

    # ------------------------------------------------------------ misc C++ runtime
    def misc_model(self, name, d):
        if name in ("_Znwm", "_Znam"):
            return self.m_new
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"):
            return self.m_delete
        if name in ("_ZSt9terminatev",):
            return self.m_terminate
        if name == "_ZSt20__throw_length_errorPKc":
            return self.m_throw("_ZTISt12length_error")
        if name.startswith("_ZSt24__throw_out_of_range_fmt") or name.startswith("_ZSt20__throw_out_of_range"):
            return self.m_throw("_ZTISt12out_of_range")
        if name.startswith("_ZSt19__throw_logic_error"):
            return self.m_throw("_ZTISt11logic_error")
        if name.startswith("_ZSt24__throw_invalid_argument"):
            return self.m_throw("_ZTISt16invalid_argument")
        if "__throw_bad_variant_access" in name:
            return self.m_throw("_ZTISt18bad_variant_access")
        if "__throw_bad_optional_access" in name:
            return self.m_throw("_ZTISt19bad_optional_access")
        if "__throw_bad_function_call" in name:
            return self.m_throw("_ZTISt17bad_function_call")
        if "__throw_bad_cast" in name:
            return self.m_throw("_ZTISt8bad_cast")
        if "__throw_bad_alloc" in name or "__throw_bad_array_new_length" in name:
            return self.m_throw("_ZTISt9bad_alloc")
        if name.startswith("_ZNSt13runtime_errorC") or name.startswith("_ZNSt12out_of_rangeC") or name.startswith("_ZNSt11logic_errorC") or name.startswith("_ZNSt16invalid_argumentC"):
            return lambda st, name, args, rty, ins: None
        if re.match(r"^_ZNSt(13runtime_error|12out_of_range|11logic_error|16invalid_argument|9exception)D[012]Ev$", name):
            return lambda st, name, args, rty, ins: None
        if name == "_ZNSt8ios_base4InitC1Ev":
            return lambda st, name, args, rty, ins: None
        # char_traits primitives on symbolic data
        m = re.match(r"^std::char_traits<char>::(compare|length|find|copy|move|assign|eq|lt)\((.*)\)$", d)
        if m:
            k = m.group(1)
            if k == "length":
                return lambda st, name, args, rty, ins: self.cstrlen(st, args[0][1])
            if k == "compare":
                return lambda st, name, args, rty, ins: self.src_cmp(st, self.mem_src(st, args[0][1], args[2][1]), self.mem_src(st, args[1][1], args[2][1]))
        if name == "_ZSt11_Hash_bytesPKvmm":
            return self.m_hash
        if name == "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm":
            return self.m_next_bkt
        if name == "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm":
            return self.m_need_rehash
        if d in ("std::__is_constant_evaluated()", "std::is_constant_evaluated()"):
            return lambda st, name, args, rty, ins: 0
        return None

    def m_hash(self, st, name, args, rty, ins):
        s = self.mem_src(st, args[0][1], args[1][1])
        if con(s.n):
            v = [s.arr.get(i) for i in range(s.n)]
            if all(con(x) for x in v):
                h = 0xCBF29CE484222325
                for x in v:
                    h = ((h ^ x) * 0x100000001B3) & mask(64)
                return h
        raise Unsupported("hash of symbolic data")

    def m_next_bkt(self, st, name, args, rty, ins):
        n = args[1][1]
        if not con(n):
            raise Unsupported("symbolic bucket count")
        p = max(n, 2)
        while any(p % k == 0 for k in range(2, int(p**0.5) + 1)):
            p += 1
        self.e.store(st, Ptr(args[0][1].obj, args[0][1].off + 8), 8, p)
        return p

    def m_need_rehash(self, st, name, args, rty, ins):
        nb, ne, ni = args[1][1], args[2][1], args[3][1]
        if not (con(nb) and con(ne) and con(ni)):
            raise Unsupported("symbolic rehash")
        if ne + ni > nb:
            p = max(2 * nb, ne + ni, 11)
            while any(p % k == 0 for k in range(2, int(p**0.5) + 1)):
                p += 1
            return Agg([1, p])
        return Agg([0, 0])

    def m_throw(self, t):
        def f(st, name, args, rty, ins):
            self.throw_std(st, t)

        return f

    def m_terminate(self, st, name, args, rty, ins):
        self.e.oblige(st, 0, "no-terminate", "ub")
        raise Dead()

    def m_new(self, st, name, args, rty, ins):
        n = args[0][1]
        if not con(n):
            n = simp(n)
            if not con(n):
                raise Unsupported("allocation of symbolic size")
        if n > 1 << 32:
            self.throw_std(st, "_ZTISt9bad_alloc")
        return Ptr(st.new_obj(Obj("cells", n, "heap")))

    def m_delete(self, st, name, args, rty, ins):
        p = args[0][1]
        if isinstance(p, Ptr) and p.obj != 0:
            if p.obj not in st.mem:
                self.e.oblige(st, 0, "no-double-free", "ub")
                raise Dead()
            st.mem.pop(p.obj, None)
        return None

    def c___clang_call_terminate(self, st, name, args, rty, ins):
        return self.m_terminate(st, name, args, rty, ins)

    def c___cxa_allocate_exception(self, st, name, args, rty, ins):
        return Ptr(st.new_obj(Obj("cells", args[0][1], "exc")))

    def c___cxa_free_exception(self, st, name, args, rty, ins):
        return None

    def c___cxa_throw(self, st, name, args, rty, ins):
        ti = st.mem[args[1][1].obj].name
        raise Throw(args[0][1], ti)

    def c___dynamic_cast(self, st, name, args, rty, ins):
        p = args[0][1]
        vt = self.e.load(st, p, 8)
        if not isinstance(vt, Ptr) or vt.idx is not None:
            raise Unsupported("dynamic_cast of an object without known type")
        top = self.e.load(st, Ptr(vt.obj, vt.off - 16), 8)
        if isinstance(top, Ptr):
            top = top.off if top.obj == 0 else None
        if not isinstance(top, int):
            raise Unsupported("dynamic_cast: offset to top")
        if top >= 1 << 63:
            top -= 1 << 64
        dyn = st.mem[self.e.load(st, Ptr(vt.obj, vt.off - 8), 8).obj].name
        dst = st.mem[args[2][1].obj].name


        def rd(off, voff):
            v = self.e.load(st, Ptr(p.obj, p.off + top + off, p.idx, p.sc), 8)
            if not isinstance(v, Ptr) or v.idx is not None:
                raise Unsupported("dynamic_cast of an object without known type")
            r = self.e.load(st, Ptr(v.obj, v.off + voff), 8)
            if isinstance(r, Ptr):
                r = r.off if r.obj == 0 else None
            if not isinstance(r, int):
                raise Unsupported("dynamic_cast: virtual base offset")
            return r - (1 << 64) if r >= 1 << 63 else r

        hits = {o for t, o in self.e.subobjects(dyn, 0, rd) if t == dst}
        if not hits:
            return NULL
        if len(hits) > 1:
            raise Unsupported("dynamic_cast to an ambiguous base")
        return Ptr(p.obj, p.off + top + hits.pop(), p.idx, p.sc)

    def c___cxa_begin_catch(self, st, name, args, rty, ins):
        st.caught.append(st.exc)
        return args[0][1]

    def c___cxa_end_catch(self, st, name, args, rty, ins):
        if st.caught:
            st.caught.pop()
        return None

    def c___cxa_rethrow(self, st, name, args, rty, ins):
        ex = st.caught[-1]
        raise Throw(ex[0], ex[1])

    def c___cxa_guard_acquire(self, st, name, args, rty, ins):
        return 1

    def c___cxa_guard_release(self, st, name, args, rty, ins):
        self.e.store(st, args[0][1], 1, 1)
        return None

    def c___cxa_guard_abort(self, st, name, args, rty, ins):
        return None

    def c___cxa_atexit(self, st, name, args, rty, ins):
        return 0

    def c___cxa_pure_virtual(self, st, name, args, rty, ins):
        self.e.oblige(st, 0, "no-pure-virtual-call", "ub")
        raise Dead()

    def c___gthread_active_p(self, st, name, args, rty, ins):
        return 0

    def c_pthread_mutex_lock(self, st, name, args, rty, ins):
        return 0

    def c_pthread_mutex_unlock(self, st, name, args, rty, ins):
        return 0

    def c_strlen(self, st, name, args, rty, ins):
        return self.cstrlen(st, args[0][1])

    def c_memcmp(self, st, name, args, rty, ins):
        n = args[2][1]
        return self.src_cmp(st, self.mem_src(st, args[0][1], n), self.mem_src(st, args[1][1], n))

    def c_bcmp(self, st, name, args, rty, ins):
        return self.c_memcmp(st, name, args, rty, ins)

    def c_memchr(self, st, name, args, rty, ins):
        n = args[2][1]
        s = self.mem_src(st, args[0][1], n)
        c = trunc(args[1][1], 32, 8)
        if con(n) and n <= 64:
            for i in range(n):
                if self.fork_bool(st, eq(s.arr.get(i), c, 8)):
                    return self.e.ptradd(args[0][1], i, 1)
            return NULL
        raise Unsupported("memchr")

    def c_memcpy(self, st, name, args, rty, ins):
        self.e.memcpy(st, args[0][1], args[1][1], args[2][1])
        return args[0][1]

    def c_memmove(self, st, name, args, rty, ins):
        return self.c_memcpy(st, name, args, rty, ins)

    def c_memset(self, st, name, args, rty, ins):
        self.do_memset(st, args[0][1], args[1][1], args[2][1])
        return args[0][1]

    def c_malloc(self, st, name, args, rty, ins):
        return self.m_new(st, name, args, rty, ins)

    def c_free(self, st, name, args, rty, ins):
        return self.m_delete(st, name, args, rty, ins)

    def do_memset(self, st, p, v, n):
        if not con(n):
            n = simp(n)
        if not con(n):
            raise Unsupported("memset symbolic size")
        if n == 0:
            return
        o = self.e.bounds(st, p, n, "memset")
        if isinstance(v, Undef):
            raise Unsupported("memset undef")
        v8 = v if con(v) else v
        if con(v8):
            v8 &= 255
        if o.kind == "cells" and p.idx is None:
            if con(o.size) and (p.off < 0 or p.off + n > o.size):
                self.e.oblige(st, 0, "no-out-of-bounds-access", "ub")
                raise Dead()
            o = st.wobj(p.obj)
            for co, (cs, cv) in self.e._overlap_all(o, p.off, n):
                if co >= p.off and co + cs <= p.off + n:
                    if isinstance(cv, (StrVal, VecVal)):
                        raise Unsupported("memset over library object")
                    del o.cells[co]
                else:
                    self.e.cstore(st, o, max(co, p.off), min(co + cs, p.off + n) - max(co, p.off), UNDEF)
            if con(v8) and v8 == 0:
                if o.dflt != "zero":
                    if p.off == 0 and n == o.size:
                        o.dflt = "zero"
                    else:
                        self.e.zero_fill(o, p.off, n)
            else:
                for i in range(n):
                    o.cells[p.off + i] = (1, v8)
            return
        for i in range(n):
            self.e.store(st, Ptr(p.obj, p.off + i, p.idx, p.sc), 1, v8)

    # ctype (C locale)
    def _rng(self, c, lo, hi):
        return And(sle(lo, c, 32), sle(c, hi, 32))

    def _b2i(self, b):
        return zext(b, 1, 32) if not con(b) else b

    def c_isdigit(self, st, name, args, rty, ins):
        return self._b2i(self._rng(args[0][1], 48, 57))

    def c_isupper(self, st, name, args, rty, ins):
        return self._b2i(self._rng(args[0][1], 65, 90))

    def c_islower(self, st, name, args, rty, ins):
        return self._b2i(self._rng(args[0][1], 97, 122))

    def c_isalpha(self, st, name, args, rty, ins):
        c = args[0][1]
        return self._b2i(Or(self._rng(c, 65, 90), self._rng(c, 97, 122)))

    def c_isalnum(self, st, name, args, rty, ins):
        c = args[0][1]
        return self._b2i(Or(self._rng(c, 65, 90), self._rng(c, 97, 122), self._rng(c, 48, 57)))

    def c_isxdigit(self, st, name, args, rty, ins):
        c = args[0][1]
        return self._b2i(Or(self._rng(c, 65, 70), self._rng(c, 97, 102), self._rng(c, 48, 57)))

    def c_isspace(self, st, name, args, rty, ins):
        c = args[0][1]
        return self._b2i(Or(eq(c, 32, 32), self._rng(c, 9, 13)))

    def c_isblank(self, st, name, args, rty, ins):
        c = args[0][1]
        return self._b2i(Or(eq(c, 32, 32), eq(c, 9, 32)))

    def c_toupper(self, st, name, args, rty, ins):
        c = args[0][1]
        self.note_assumption("toupper/tolower/is* follow glibc in the C locale (negative chars map to themselves modulo 256)")
        neg = And(sle(mask(32) - 127, c, 32), slt(c, mask(32), 32))
        return ite(self._rng(c, 97, 122), sub(c, 32, 32), ite(neg, add(c, 256, 32), c, 32), 32)

    def c_tolower(self, st, name, args, rty, ins):
        c = args[0][1]
        self.note_assumption("toupper/tolower/is* follow glibc in the C locale (negative chars map to themselves modulo 256)")
        neg = And(sle(mask(32) - 127, c, 32), slt(c, mask(32), 32))
        return ite(self._rng(c, 65, 90), add(c, 32, 32), ite(neg, add(c, 256, 32), c, 32), 32)

    def c_abs(self, st, name, args, rty, ins):
        c = args[0][1]
        self.e.oblige(st, Not(eq(c, 1 << 31, 32)), "no-signed-overflow", "ub")
        return ite(slt(c, 0, 32), sub(0, c, 32), c, 32)

    # ------------------------------------------------------------ LLVM intrinsics
    def llvm(self, name):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.stackrestore", "llvm.assume")):
            return lambda st, n, a, r, i: None
        if name.startswith("llvm.stacksave"):
            return lambda st, n, a, r, i: NULL
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            return lambda st, n, a, r, i: self.e.memcpy(st, a[0][1], a[1][1], a[2][1])
        if name.startswith("llvm.memset"):
            return lambda st, n, a, r, i: self.do_memset(st, a[0][1], a[1][1], a[2][1])
        if name.startswith("llvm.expect"):
            return lambda st, n, a, r, i: a[0][1]
        if name.startswith("llvm.eh.typeid.for"):
            return lambda st, n, a, r, i: self.e.tid(st.mem[a[0][1].obj].name)
        if name.startswith("llvm.trap") or name.startswith("llvm.ubsantrap"):

            def trap(st, n, a, r, i):
                self.e.oblige(st, 0, "no-trap", "ub")
                raise Dead()

            return trap
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            w = int(m.group(3))

            def wo(st, n, a, r, i):
                x, y = a[0][1], a[1][1]
                sg = m.group(1) == "s"
                if con(x) and con(y):
                    X, Y = (sgn(x, w), sgn(y, w)) if sg else (x, y)
                    z = {"add": X + Y, "sub": X - Y, "mul": X * Y}[m.group(2)]
                    ok = (-(1 << (w - 1)) <= z < (1 << (w - 1))) if sg else (0 <= z <= mask(w))
                    return Agg([z & mask(w), int(not ok)])
                ext = sext if sg else zext
                W = 2 * w
                X, Y = BV(ext(x, w, W), W), BV(ext(y, w, W), W)
                z = {"add": X + Y, "sub": X - Y, "mul": X * Y}[m.group(2)]
                lo = z3.Extract(w - 1, 0, z)
                return Agg([norm(z3.simplify(lo)), simp(Not(eq(ext(lo, w, W), z, W)))])

            return wo
        m = re.match(r"llvm\.(smax|smin|umax|umin)\.i(\d+)", name)
        if m:
            w = int(m.group(2))
            k = m.group(1)

            def mm(st, n, a, r, i):
                x, y = a[0][1], a[1][1]
                lt = slt(x, y, w) if k[0] == "s" else ult(x, y, w)
                return ite(lt, y, x, w) if k.endswith("max") else ite(lt, x, y, w)

            return mm
        m = re.match(r"llvm\.(cttz|ctlz|ctpop)\.i(\d+)", name)
        if m:
            w = int(m.group(2))
            k = m.group(1)

            def cz(st, n, a, r, i):
                x = a[0][1]
                if con(x):
                    if k == "ctpop":
                        return bin(x).count("1")
                    if x == 0:
                        return w
                    return (x & -x).bit_length() - 1 if k == "cttz" else w - x.bit_length()
                if k == "ctpop":
                    v = BV(0, w)
                    for b in range(w):
                        v = v + z3.ZeroExt(w - 1, z3.Extract(b, b, x))
                    return v
                v = BV(w, w)
                for b in (range(w - 1, -1, -1) if k == "cttz" else range(w)):
                    v = z3.If(z3.Extract(b, b, x) == 1, BV(b if k == "cttz" else w - 1 - b, w), v)
                return v

            return cz
        m = re.match(r"llvm\.abs\.i(\d+)", name)
        if m:
            w = int(m.group(1))

            def ab(st, n, a, r, i):
                x = a[0][1]
                if con(a[1][1]) and a[1][1]:
                    self.e.oblige(st, Not(eq(x, 1 << (w - 1), w)), "no-signed-overflow", "ub")
                return ite(slt(x, 0, w), sub(0, x, w), x, w)

            return ab
        if name.startswith("llvm.objectsize"):
            return lambda st, n, a, r, i: mask(64)
        if name.startswith("llvm.is.constant"):
            return lambda st, n, a, r, i: 0
        return None

    def c_bitset_str(self, st, args, n):
        if n > 64:
            raise Unsupported("bitset")
        v = self.e.load(st, args[1][1], 8)
        if isinstance(v, Undef):
            raise Unsupported("uninitialised bitset")
        out = []
        for k in range(n - 1, -1, -1):
            out.append(48 + ((v >> k) & 1) if con(v) else simp(z3.ZeroExt(7, z3.Extract(k, k, v)) + 48))
        self.mkstr(st, args[0][1], n, arr_list(out, 1))

    def c_from_chars(self, st, args, w, signed):
        """std::from_chars for integers: longest digit prefix (optional '-' for signed types), ERANGE on overflow"""
        e = self.e
        first, last, vp, base = (a[1] for a in args[:4])
        if not con(base):
            raise Unsupported("from_chars base")
        n = e.ptrdiff(st, last, first)
        neg = False
        pos = 0
        if signed and self.fork_bool(st, slt(0, n, 64)):
            c = e.load(st, first, 1)
            if self.fork_bool(st, eq(c, 45, 8)):
                neg = True
                pos = 1
        W = 2 * w + 8 if w > 8 else 48
        lim = 1
        maxd = 0
        while lim <= 2**w and maxd < 40:
            lim *= base
            maxd += 1
        W = max(64, (base ** (maxd + 1)).bit_length() + 1)
        val = BV(0, W)
        k = 0
        while True:
            if not self.fork_bool(st, slt(pos + k, n, 64)):
                break
            c = e.load(st, e.ptradd(first, pos + k, 1), 1)
            if con(c):
                ch = chr(c).lower()
                d = int(ch, 36) if ch.isascii() and ch.isalnum() else 99
                if d >= base:
                    break
                dv = BV(d, W)
            else:
                isd = And(ule(48, c, 8), ule(c, 47 + min(base, 10), 8))
                cond = isd
                dv = z3.ZeroExt(W - 8, c) - 48
                if base > 10:
                    up = And(ule(65, c, 8), ule(c, 64 + base - 10, 8))
                    lo = And(ule(97, c, 8), ule(c, 96 + base - 10, 8))
                    cond = Or(isd, up, lo)
                    dv = z3.If(B(isd), dv, z3.If(B(up), z3.ZeroExt(W - 8, c) - 55, z3.ZeroExt(W - 8, c) - 87))
                if not self.fork_bool(st, cond):
                    break
            k += 1
            if k > maxd + 1:
                raise Unsupported("from_chars: more digits than the type holds")
            val = val * base + dv
        if k == 0:
            return Agg([first, 22])
        end = e.ptradd(first, pos + k, 1)
        val = z3.simplify(val)
        mx = (2 ** (w - 1) if neg else 2 ** (w - 1) - 1) if signed else 2**w - 1
        if base**k - 1 > mx and self.fork_bool(st, z3.UGT(val, BV(mx, W))):
            return Agg([end, 34])
        r = z3.Extract(w - 1, 0, val)
        if neg:
            r = -r
        e.store(st, vp, w // 8, norm(z3.simplify(r)))
        return Agg([end, 0])

    # ------------------------------------------------------------ contract primitives
    def name_of(self, st, p):
        n = self.cstrlen(st, p)
        o = st.mem[p.obj]
        return bytes(self.e.cload(st, o, p.off + i, 1) for i in range(n)).decode()

    def vp_nondet(self, st, name, args, rty, ins):
        """uint64_t vp_nondet(const char* name, unsigned bits)"""
        nm = self.name_of(st, args[0][1])
        w = args[1][1]
        v = fresh("in_" + nm, w)
        st.nondets.append((nm, "int", None, v))
        return zext(v, w, 64)

    def vp_uf2(self, st, name, args, rty, ins):
        """uint64_t vp_uf2(const char* name, uint64_t a, uint64_t b): an arbitrary but fixed function"""
        nm = self.name_of(st, args[0][1])
        f = z3.Function("uf_" + nm, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        return f(BV(args[1][1], 64), BV(args[2][1], 64))

    def vp_symbolic(self, st, name, args, rty, ins):
        return 1

    def vp_note(self, st, name, args, rty, ins):
        # an index at which facts about all elements are to be instantiated
        if not con(args[0][1]):
            st.idx.append(args[0][1])
        return None

    def vp_assume(self, st, name, args, rty, ins):
        c = args[0][1]
        if isinstance(c, (int,)):
            if not c:
                raise Dead()
            return None
        self.e.assume(st, c)
        return None

    def vp_assert_(self, st, name, args, rty, ins):
        c = args[0][1]
        self.e.oblige(st, c, self.name_of(st, args[1][1]), "assert")
        return None

    def vp_cover_(self, st, name, args, rty, ins):
        nm = self.name_of(st, args[0][1])
        if not self.e.dry and not self.e.covers.get(nm):
            self.e.covers[nm] = self.e.feasible(st)
        return None

    def vp_make_string_of(self, st, name, args, rty, ins):
        """every character is drawn from the given alphabet: s[i] = alphabet[raw(i)]"""
        self.vp_make_string(st, name, args, rty, ins)
        al = self.lit_of(st, args[2][1])
        nm, k, n, a = st.nondets.pop()

        def get(i):
            r = a.get(i)
            v = BV(al[0], 8)
            for j in range(1, len(al)):
                v = z3.If(r == j, BV(al[j], 8), v)
            return v

        a2 = Arr(get, "of")
        self.setstr(st, args[0][1], n, a2)
        st.nondets.append((nm, k, n, a2))
        return None

    def lit_of(self, st, p):
        out = []
        while True:
            c = self.e.load(st, Ptr(p.obj, p.off + len(out)), 1)
            if not con(c):
                raise Unsupported("alphabet not literal")
            if c == 0:
                return out
            out.append(c)

    def vp_make_string(self, st, name, args, rty, ins):
        """void vp_make_string(std::string* s, const char* name, const char* alphabet)"""
        nm = self.name_of(st, args[1][1])
        if self.e.o["bounded"]:
            n = self.bounded_len(st)
            a = arr_list([fresh(f"str_{nm}_{i}", 8) for i in range(n)], 1)
            self.setstr(st, args[0][1], n, a)
            st.nondets.append((nm, "str", n, a))
            return None
        n = fresh("len_" + nm, 64)
        a = arr_fresh("str_" + nm, 1)
        cap = self.e.o.get("strcap") or MAXLEN
        st.pc.append(z3.ULE(n, BV(cap, 64)))
        self.setstr(st, args[0][1], n, a)
        st.nondets.append((nm, "str", n, a))
        return None

    def bounded_len(self, st):
        key = ("slen", len(st.nondets))
        if key not in st.pins:
            out = []
            for k in range((self.e.o.get("strcap") or 4), -1, -1):
                s = st.fork()
                s.pins[key] = k
                out.append(s)
            raise ForkReq(out)
        return st.pins[key]

    def vp_make_vec(self, st, name, args, rty, ins):
        """void vp_make_vec(vector<uint64_t>* s, const char* name)"""
        nm = self.name_of(st, args[1][1])
        b, o = self.vecobj(st, args[0][1])
        if self.e.o["bounded"]:
            n = self.bounded_len(st)
            o = st.wobj(b)
            o.n = n
            o.arr = arr_list([fresh(f"vec_{nm}_{i}", 8 * o.es) for i in range(n)], o.es)
            st.nondets.append((nm, "vec", n, o.arr))
            return None
        n = fresh("len_" + nm, 64)
        a = arr_fresh("vec_" + nm, o.es)
        cap = self.e.o.get("strcap") or MAXLEN
        st.pc.append(z3.ULE(n, BV(cap, 64)))
        o = st.wobj(b)
        o.n = n
        o.arr = a
        st.nondets.append((nm, "vec", n, a))
        return None

    def vp_concrete_len(self, st, name, args, rty, ins):
        return None

    def vp_ghost_(self, st, name, args, rty, ins):
        """void vp_ghost_(void* g, size_t size, void(*step)(void*), bool(*done)(void*), const char* name)"""
        g = {
            "p": args[0][1], "size": args[1][1],
            "step": st.mem[args[2][1].obj].name, "done": st.mem[args[3][1].obj].name,
            "name": self.name_of(st, args[4][1]),
        }
        st.ghosts = list(st.ghosts) + [g]
        return None

    def vp_unrolling(self, st, name, args, rty, ins):
        return 1 if self.e.o["bounded"] else 0

    def vp_range_(self, st, name, args, rty, ins):
        nm = self.name_of(st, args[0][1])
        lo, hi = args[1][1], args[2][1]
        v = fresh("in_" + nm, 64)
        self.e.assume(st, And(sle(lo, v, 64), sle(v, hi, 64)))
        st.nondets.append((nm, "int", None, v))
        return v


STRM = {
    "~basic_string": "dtor", "operator=": "assign", "assign": "assign", "length": "size", "c_str": "data",
    "begin": "data", "cbegin": "data", "cend": "end", "operator[]": "index", "operator+=": "append",
    "operator sv": "to_sv", "~": "dtor",
}
VECM = {
    "~vector": "dtor", "operator=": "assign", "assign": "assign_", "operator[]": "index", "cbegin": "begin",
    "data": "begin", "cend": "end", "emplace_back": "push_back",
}
