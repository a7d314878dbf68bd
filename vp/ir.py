"""Textual LLVM IR (clang 18, -O0, opaque pointers) reader.

Only what clang emits at -O0 is accepted; anything else raises Unsupported.
Functions are split out eagerly (cheap) and parsed lazily (on first execution).
"""
import re
import subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __repr__(self):
        if self.k == "i":
            return f"i{self.a}"
        if self.k == "named":
            return "%" + self.a
        if self.k == "arr":
            return f"[{self.a} x {self.b}]"
        if self.k == "struct":
            return "{" + ",".join(map(repr, self.a)) + "}"
        return self.k


I1 = Ty("i", 1)
I8 = Ty("i", 8)
I32 = Ty("i", 32)
I64 = Ty("i", 64)
PTR = Ty("ptr")
VOID = Ty("void")
FLOATS = {"half": 2, "float": 4, "double": 8, "x86_fp80": 16, "fp128": 16}

_tok = re.compile(
    r'\s*(?:(?P<name>[%@$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|(?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")'
    r'|(?P<hex>0x[KLMH]?[0-9A-Fa-f]+)|(?P<float>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?)|(?P<int>-?[0-9]+)'
    r'|(?P<id>[a-zA-Z_][a-zA-Z_0-9.$]*)|(?P<meta>![a-zA-Z0-9_.]*)|(?P<attr>\#[0-9]+)|(?P<dots>\.\.\.)|(?P<p>[()\[\]{}<>,=*:|]))'
)


class Toks:
    __slots__ = ("t", "i", "s")

    def __init__(self, s):
        self.s = s
        self.t = []
        self.i = 0
        pos = 0
        n = len(s)
        ap = self.t.append
        m = _tok.match
        while pos < n:
            r = m(s, pos)
            if not r:
                if s[pos:].strip() == "":
                    break
                if s[pos:].lstrip().startswith(";"):
                    break
                raise Unsupported("lex: " + s[pos : pos + 60])
            ap((r.lastgroup, r.group(r.lastgroup)))
            pos = r.end()

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def peekk(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r[1]

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i][1] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported(f"expected {x} at {self.t[self.i:self.i+5]} in {self.s[:200]}")


def unq(n):
    """strip sigil and quotes"""
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


PARAM_ATTRS = {
    "noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "readnone", "writeonly",
    "returned", "inreg", "nest", "immarg", "nofree", "noinline", "swiftself", "allocptr", "allocalign",
    "dead_on_unwind", "writable", "nocallback",
}
PAREN_ATTRS = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "byref", "preallocated", "inalloca", "memory", "allocsize", "nofpclass", "range"}


class Module:
    def __init__(self, text, tag):
        self.tag = tag
        self.types = {}
        self.globals = {}  # name -> dict(raw=..., const=bool, ext=bool)
        self.funcs = {}  # name -> Function (lazy)
        self.decls = set()
        self.aliases = {}
        self.ctors = []
        self._sz = {}
        self._local = {}
        self._read(text)

    def _read(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == "%":
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            elif c == "@":
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                name = unq(m.group(1))
                rest = m.group(2)
                if re.search(r"\balias\b", rest.split("@")[0]):
                    mm = re.search(r'ptr (@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\s*$', rest)
                    if mm:
                        self.aliases[name] = unq(mm.group(1))
                else:
                    self.globals[name] = rest
            elif l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', l)
                name = unq(m.group(1))
                self.funcs[name] = Function(self, name, l, lines[i + 1 : j])
                i = j
            elif l.startswith("declare "):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', l)
                if m:
                    self.decls.add(unq(m.group(1)))
            i += 1

    # ---- types
    def ptype(self, t):
        k, v = t.t[t.i]
        t.i += 1
        if k == "id":
            if v == "ptr":
                r = PTR
                if t.peek() == "addrspace":
                    raise Unsupported("addrspace")
            elif v[0] == "i" and v[1:].isdigit():
                r = Ty("i", int(v[1:]))
            elif v == "void":
                r = VOID
            elif v in FLOATS:
                r = Ty(v)
            elif v in ("label", "metadata", "token", "opaque"):
                r = Ty(v)
            else:
                raise Unsupported("type " + v)
        elif k == "name":
            r = Ty("named", unq(v))
        elif v == "[":
            n = int(t.next())
            t.expect("x")
            e = self.ptype(t)
            t.expect("]")
            r = Ty("arr", n, e)
        elif v == "{":
            r = Ty("struct", self._fields(t, "}"), False)
        elif v == "<":
            if t.eat("{"):
                f = self._fields(t, "}")
                t.expect(">")
                r = Ty("struct", f, True)
            else:
                n = int(t.next())
                t.expect("x")
                e = self.ptype(t)
                t.expect(">")
                r = Ty("vec", n, e)
        else:
            raise Unsupported("type tok " + v)
        # function type
        if t.peek() == "(" and r.k in ("void", "i", "ptr", "named", "struct", "float", "double"):
            # lookahead: function type only used in varargs call
            return r
        return r

    def _fields(self, t, close):
        f = []
        if t.eat(close):
            return f
        while True:
            f.append(self.ptype(t))
            if t.eat(close):
                return f
            t.expect(",")

    def resolve(self, ty):
        while ty.k == "named":
            d = self.types.get(ty.a)
            if d is None:
                raise Unsupported("unknown type " + ty.a)
            if isinstance(d, str):
                if d == "opaque":
                    raise Unsupported("opaque type " + ty.a)
                d = self.ptype(Toks(d))
                self.types[ty.a] = d
            ty = d
        return ty

    def size_align(self, ty):
        k = ty.k
        if k == "i":
            n = ty.a
            if n <= 8:
                return 1, 1
            if n <= 16:
                return 2, 2
            if n <= 32:
                return 4, 4
            if n <= 64:
                return 8, 8
            s = (n + 127) // 128 * 16
            return s, 16
        if k == "ptr":
            return 8, 8
        if k in FLOATS:
            return FLOATS[k], FLOATS[k]
        key = id(ty)
        if key in self._sz:
            return self._sz[key][0]
        if k == "named":
            r = self.size_align(self.resolve(ty))
        elif k == "arr":
            s, a = self.size_align(ty.b)
            r = (s * ty.a, a)
        elif k == "vec":
            s, a = self.size_align(ty.b)
            r = (s * ty.a, s * ty.a)
        elif k == "struct":
            off, al = 0, 1
            for f in ty.a:
                s, a = self.size_align(f)
                if ty.b:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            raise Unsupported("sizeof " + k)
        self._sz[key] = (r, ty)
        return r

    def size(self, ty):
        return self.size_align(ty)[0]

    def field_off(self, st, idx):
        off = 0
        for n, f in enumerate(st.a):
            s, a = self.size_align(f)
            if st.b:
                a = 1
            off = (off + a - 1) // a * a
            if n == idx:
                return off, f
            off += s
        raise Unsupported("field index")

    # ---- constants / operands
    # operand forms: ('ssa',name) ('int',v) ('glob',name) ('null',) ('undef',) ('zero',ty) ('agg',ty,[ops])
    # ('str',bytes) ('gep',srcty,base,[idx ops],) ('cast',op,from_ty,opnd,to_ty) ('bin',...)
    def pval(self, t, ty):
        k, v = t.t[t.i]
        t.i += 1
        if k == "name":
            if v[0] == "%":
                return ("ssa", unq(v))
            return ("glob", unq(v))
        if k == "int":
            if ty.k in FLOATS:
                return ("fp", float(v))
            w = ty.a if ty.k == "i" else 64
            return ("int", int(v) & ((1 << w) - 1))
        if k == "hex":
            if ty.k in ("double", "float"):
                import struct

                return ("fp", struct.unpack(">d", bytes.fromhex(v[2:].zfill(16)))[0])
            return ("fpraw", v)
        if k == "float":
            return ("fp", float(v))
        if k == "id":
            if v == "true":
                return ("int", 1)
            if v == "false":
                return ("int", 0)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef", ty)
            if v == "zeroinitializer":
                return ("zero", ty)
            if v == "getelementptr":
                t.eat("inbounds")
                t.expect("(")
                sty = self.ptype(t)
                t.expect(",")
                bty = self.ptype(t)
                base = self.pval(t, bty)
                idx = []
                while t.eat(","):
                    t.eat("inrange")
                    ity = self.ptype(t)
                    idx.append((ity, self.pval(t, ity)))
                t.expect(")")
                return ("gep", sty, base, idx)
            if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
                t.expect("(")
                fty = self.ptype(t)
                o = self.pval(t, fty)
                t.expect("to")
                tty = self.ptype(t)
                t.expect(")")
                return ("cast", v, fty, o, tty)
            if v in ("sub", "add", "mul", "and", "or", "xor", "shl"):
                while t.peek() in ("nsw", "nuw"):
                    t.next()
                t.expect("(")
                fty = self.ptype(t)
                o = self.pval(t, fty)
                t.expect(",")
                self.ptype(t)
                o2 = self.pval(t, fty)
                t.expect(")")
                return ("bin", v, fty, o, o2)
            raise Unsupported("const " + v)
        if k == "str":
            return ("str", _cstr(v))
        if v == "[" or v == "{":
            close = "]" if v == "[" else "}"
            ops = []
            if not t.eat(close):
                while True:
                    ety = self.ptype(t)
                    ops.append((ety, self.pval(t, ety)))
                    if t.eat(close):
                        break
                    t.expect(",")
            return ("agg", ty, ops)
        if v == "<":
            if t.eat("{"):
                t.i -= 1
                r = self.pval(t, ty)
                t.expect(">")
                return r
            ops = []
            while True:
                ety = self.ptype(t)
                ops.append((ety, self.pval(t, ety)))
                if t.eat(">"):
                    break
                t.expect(",")
            return ("agg", ty, ops)
        raise Unsupported("value tok " + v)

    def skip_attrs(self, t):
        """skip parameter/return attributes; return dict of interesting ones"""
        r = None
        while True:
            p = t.peek()
            if p in PARAM_ATTRS:
                t.next()
                if p == "nonnull" or p == "noundef":
                    pass
            elif p == "align":
                t.next()
                if t.eat("("):
                    t.next()
                    t.expect(")")
                else:
                    t.next()
            elif p in PAREN_ATTRS:
                t.next()
                if t.peek() == "(":
                    t.next()
                    if p in ("byval", "sret"):
                        ty = self.ptype(t)
                        if r is None:
                            r = {}
                        r[p] = ty
                        t.expect(")")
                    else:
                        d = 1
                        while d:
                            x = t.next()
                            if x == "(":
                                d += 1
                            elif x == ")":
                                d -= 1
            else:
                return r

    def is_local(self, name):
        r = self._local.get(name)
        if r is None:
            g = self.globals[name]
            r = self._local[name] = isinstance(g, str) and (g.startswith("private") or g.startswith("internal"))
        return r

    def global_init(self, name):
        """-> (type, initializer or None, is_const)"""
        self.is_local(name)
        rest = self.globals[name]
        if isinstance(rest, tuple):
            return rest
        t = Toks(rest)
        ext = False
        const = False
        while True:
            p = t.next()
            if p == "external" or p == "extern_weak":
                ext = True
            if p == "thread_local":
                if t.eat("("):
                    while t.next() != ")":
                        pass
            if p == "global":
                break
            if p == "constant":
                const = True
                break
        ty = self.ptype(t)
        init = None
        if not ext:
            init = self.pval(t, ty)
        r = (ty, init, const)
        self.globals[name] = r
        return r


def _cstr(v):
    s = v[2:-1] if v[0] == "c" else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5C)
                i += 2
            else:
                out.append(int(s[i + 1 : i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ("op", "res", "a", "b", "c", "d", "e")

    def __init__(self, op, res=None, a=None, b=None, c=None, d=None, e=None):
        self.op = op
        self.res = res
        self.a = a
        self.b = b
        self.c = c
        self.d = d
        self.e = e


class Block:
    __slots__ = ("name", "ins", "phis", "succ")

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []
        self.succ = []


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast"}


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self.parsed = False
        self.dname = None

    def parse(self):
        if self.parsed:
            return self
        m = self.mod
        h = self.header
        p = h.index("@")
        # return type: parse tokens before name for sret irrelevant
        t = Toks(h[7:])
        while True:
            v = t.peek()
            if v in ("dso_local", "internal", "linkonce_odr", "weak_odr", "private", "hidden", "available_externally", "linkonce", "weak", "protected", "fastcc", "ccc", "unnamed_addr", "local_unnamed_addr"):
                t.next()
            else:
                r = m.skip_attrs(t)
                break
        self.rty = m.ptype(t)
        t.next()
        t.expect("(")
        self.params = []  # (name, ty, attrs)
        self.vararg = False
        n = 0
        if not t.eat(")"):
            while True:
                if t.eat("..."):
                    self.vararg = True
                else:
                    ty = m.ptype(t)
                    at = m.skip_attrs(t)
                    if t.peekk() == "name":
                        nm = unq(t.next())
                    else:
                        nm = str(n)
                    n += 1
                    self.params.append((nm, ty, at))
                if t.eat(")"):
                    break
                t.expect(",")
        # blocks
        self.blocks = {}
        cur = None
        body = self.body
        i = 0
        nb = len(body)
        order = []
        first = True
        while i < nb:
            l = body[i]
            i += 1
            if not l:
                continue
            if l[0] != " ":
                mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
                if not mm:
                    if l.startswith(";"):
                        continue
                    raise Unsupported("block label " + l)
                bn = mm.group(1)
                if bn.startswith('"'):
                    bn = bn[1:-1]
                cur = Block(bn)
                self.blocks[bn] = cur
                order.append(bn)
                continue
            if cur is None:
                # unnamed entry block
                bn = str(n)
                cur = Block(bn)
                self.blocks[bn] = cur
                order.append(bn)
            s = l.strip()
            if s.startswith(";"):
                continue
            # multi-line instructions: switch [...], invoke, landingpad
            if s.startswith("switch "):
                while not s.endswith("]"):
                    s += " " + body[i].strip()
                    i += 1
            elif " invoke " in s or s.startswith("invoke "):
                if i < nb and body[i].strip().startswith("to label"):
                    s += " " + body[i].strip()
                    i += 1
            elif " landingpad " in s:
                while i < nb and re.match(r"\s+(cleanup|catch |filter )", body[i]):
                    s += " " + body[i].strip()
                    i += 1
            ins = self._pins(s)
            if ins is None:
                continue
            if ins.op == "phi":
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        self.order = order
        self.entry = order[0]
        for b in self.blocks.values():
            last = b.ins[-1]
            if last.op == "br":
                b.succ = [last.b] if last.a is None else [last.b, last.c]
            elif last.op == "switch":
                b.succ = [last.c] + [x[1] for x in last.d]
            elif last.op == "invoke":
                b.succ = [last.d[0], last.d[1]]
            else:
                b.succ = []
        self.parsed = True
        self._loops()
        self.body = None
        return self

    def _loops(self):
        """natural loops: self.loops: header -> set(blocks)"""
        preds = {b: [] for b in self.blocks}
        for b, bl in self.blocks.items():
            for s in bl.succ:
                preds[s].append(b)
        # reachable order (reverse postorder)
        seen = set()
        post = []
        stack = [(self.entry, iter(self.blocks[self.entry].succ))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    adv = True
                    break
            if not adv:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for y in ps[1:]:
                    a, c = x, y
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]

        loops = {}
        for b in rpo:
            for s in self.blocks[b].succ:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in preds[x] if p in seen)
        self.loops = loops

    def _opnd(self, t):
        ty = self.mod.ptype(t)
        return ty, self.mod.pval(t, ty)

    def _pins(self, s):
        m = self.mod
        t = Toks(_strip_meta(s))
        res = None
        if t.peekk() == "name" and t.t[t.i + 1][1] == "=":
            res = unq(t.next())
            t.next()
        op = t.next()
        if op in ("tail", "musttail", "notail"):
            op = t.next()
        if op == "alloca":
            t.eat("inalloca")
            ty = m.ptype(t)
            cnt = None
            if t.eat(","):
                if t.peek() != "align":
                    cty = m.ptype(t)
                    cnt = (cty, m.pval(t, cty))
            return Ins("alloca", res, ty, cnt)
        if op == "load":
            t.eat("atomic")
            t.eat("volatile")
            ty = m.ptype(t)
            t.expect(",")
            _, p = self._opnd(t)
            return Ins("load", res, ty, p)
        if op == "store":
            t.eat("atomic")
            t.eat("volatile")
            ty, v = self._opnd(t)
            t.expect(",")
            _, p = self._opnd(t)
            return Ins("store", None, ty, v, p)
        if op == "getelementptr":
            t.eat("inbounds")
            sty = m.ptype(t)
            t.expect(",")
            _, base = self._opnd(t)
            idx = []
            while t.eat(","):
                idx.append(self._opnd(t))
            return Ins("gep", res, sty, base, idx)
        if op in BINOPS:
            fl = set()
            while t.peek() in ("nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint"):
                fl.add(t.next())
            ty, x = self._opnd(t)
            t.expect(",")
            y = m.pval(t, ty)
            return Ins("bin", res, op, ty, x, y, fl)
        if op in ("icmp", "fcmp"):
            pred = t.next()
            ty, x = self._opnd(t)
            t.expect(",")
            y = m.pval(t, ty)
            return Ins(op, res, pred, ty, x, y)
        if op in CASTS:
            while t.peek() in ("nneg", "nuw", "nsw"):
                t.next()
            ty, x = self._opnd(t)
            t.expect("to")
            tty = m.ptype(t)
            return Ins("cast", res, op, ty, x, tty)
        if op == "select":
            cty, c = self._opnd(t)
            t.expect(",")
            ty, x = self._opnd(t)
            t.expect(",")
            _, y = self._opnd(t)
            return Ins("select", res, c, ty, x, y)
        if op == "phi":
            ty = m.ptype(t)
            inc = {}
            while True:
                t.expect("[")
                v = m.pval(t, ty)
                t.expect(",")
                b = unq(t.next())
                t.expect("]")
                inc[b] = v
                if not t.eat(","):
                    break
            return Ins("phi", res, ty, inc)
        if op == "br":
            if t.eat("label"):
                return Ins("br", None, None, unq(t.next()))
            ty, c = self._opnd(t)
            t.expect(",")
            t.expect("label")
            a = unq(t.next())
            t.expect(",")
            t.expect("label")
            b = unq(t.next())
            return Ins("br", None, c, a, b)
        if op == "switch":
            ty, v = self._opnd(t)
            t.expect(",")
            t.expect("label")
            d = unq(t.next())
            t.expect("[")
            cases = []
            while not t.eat("]"):
                cty, cv = self._opnd(t)
                t.expect(",")
                t.expect("label")
                cases.append((cv[1], unq(t.next())))
            return Ins("switch", None, ty, v, d, cases)
        if op == "ret":
            ty = m.ptype(t)
            if ty.k == "void":
                return Ins("ret", None, None)
            return Ins("ret", None, ty, m.pval(t, ty))
        if op == "unreachable":
            return Ins("unreachable")
        if op in ("call", "invoke"):
            while t.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc"):
                t.next()
            m.skip_attrs(t)
            rty = m.ptype(t)
            if t.peek() == "(":
                d = 0
                while True:
                    x = t.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break
            if t.peek() == "asm":
                return Ins("asm", res, s)
            callee = m.pval(t, PTR)
            t.expect("(")
            args = []
            if not t.eat(")"):
                while True:
                    aty = m.ptype(t)
                    at = m.skip_attrs(t)
                    if aty.k == "metadata":
                        t.next()
                        args.append((aty, ("undef", aty), None))
                    else:
                        args.append((aty, m.pval(t, aty), at))
                    if t.eat(")"):
                        break
                    t.expect(",")
            d = None
            if op == "invoke":
                while t.peek() != "to":
                    t.next()
                t.expect("to")
                t.expect("label")
                a = unq(t.next())
                t.expect("unwind")
                t.expect("label")
                d = (a, unq(t.next()))
            return Ins(op, res, rty, callee, args, d)
        if op == "extractvalue":
            ty, v = self._opnd(t)
            idx = []
            while t.eat(","):
                idx.append(int(t.next()))
            return Ins("extractvalue", res, ty, v, idx)
        if op == "insertvalue":
            ty, v = self._opnd(t)
            t.expect(",")
            ety, e = self._opnd(t)
            idx = []
            while t.eat(","):
                idx.append(int(t.next()))
            return Ins("insertvalue", res, ty, v, ety, e, idx)
        if op == "landingpad":
            ty = m.ptype(t)
            clauses = []
            while t.i < len(t.t):
                x = t.next()
                if x == "cleanup":
                    clauses.append(("cleanup",))
                elif x == "catch":
                    cty = m.ptype(t)
                    clauses.append(("catch", m.pval(t, cty)))
                elif x == "filter":
                    cty = m.ptype(t)
                    clauses.append(("filter", m.pval(t, cty)))
                else:
                    break
            return Ins("landingpad", res, clauses)
        if op == "resume":
            ty, v = self._opnd(t)
            return Ins("resume", None, v)
        if op == "freeze":
            ty, v = self._opnd(t)
            return Ins("cast", res, "bitcast", ty, v, ty)
        if op == "fneg":
            ty, v = self._opnd(t)
            return Ins("fneg", res, ty, v)
        if op == "atomicrmw":
            t.eat("volatile")
            o = t.next()
            _, p = self._opnd(t)
            t.expect(",")
            ty, v = self._opnd(t)
            return Ins("atomicrmw", res, o, ty, p, v)
        if op == "cmpxchg":
            t.eat("weak")
            t.eat("volatile")
            _, p = self._opnd(t)
            t.expect(",")
            ty, e = self._opnd(t)
            t.expect(",")
            _, v = self._opnd(t)
            return Ins("cmpxchg", res, ty, p, e, v)
        if op == "fence":
            return None
        return Ins("unsup", res, s)


def _strip_meta(s):
    # drop trailing ", !xxx !n" and " #n"
    i = s.find(", !")
    if i >= 0 and '"' not in s[i:]:
        s = s[:i]
    return s


def demangle_all(names):
    names = list(names)
    out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names) + "\n", capture_output=True, text=True)
    if out.returncode != 0:
        raise RuntimeError("llvm-cxxfilt failed")
    return dict(zip(names, out.stdout.split("\n")))
