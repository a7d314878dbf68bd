"""Machine integers as python ints when concrete, z3 bit-vectors otherwise.
i1 values are python 0/1 or z3 Bool."""
import z3

_bvcache = {}


def BV(v, w):
    if isinstance(v, int):
        k = (v, w)
        r = _bvcache.get(k)
        if r is None:
            r = _bvcache[k] = z3.BitVecVal(v, w)
        return r
    return v


def con(v):
    return isinstance(v, int)


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def B(c):
    """python bool/int/BoolRef -> BoolRef"""
    if isinstance(c, z3.BoolRef):
        return c
    return z3.BoolVal(bool(c))


def norm(t):
    """fold a z3 term to a python int if it is a literal"""
    if isinstance(t, int):
        return t
    if isinstance(t, z3.BitVecNumRef):
        return t.as_long()
    if isinstance(t, z3.BoolRef):
        if z3.is_true(t):
            return 1
        if z3.is_false(t):
            return 0
    return t


def simp(t):
    if isinstance(t, int):
        return t
    return norm(z3.simplify(t))


def And(*a):
    r = []
    for x in a:
        if isinstance(x, (int, bool)):
            if not x:
                return 0
        elif z3.is_false(x):
            return 0
        elif not z3.is_true(x):
            r.append(x)
    if not r:
        return 1
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if isinstance(x, (int, bool)):
            if x:
                return 1
        elif z3.is_true(x):
            return 1
        elif not z3.is_false(x):
            r.append(x)
    if not r:
        return 0
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    if isinstance(x, (int, bool)):
        return int(not x)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def eq(a, b, w):
    if con(a) and con(b):
        return int(a == b)
    if w == 1:
        if con(a):
            a, b = b, a
        if con(b):
            return a if b else Not(a)
        return a == b
    if a is b or (not con(a) and not con(b) and a.eq(b)):
        return 1
    return BV(a, w) == BV(b, w)


def ult(a, b, w):
    if con(a) and con(b):
        return int(a < b)
    if con(b) and b == 0:
        return 0
    return z3.ULT(BV(a, w), BV(b, w))


def ule(a, b, w):
    if con(a) and con(b):
        return int(a <= b)
    if con(a) and a == 0:
        return 1
    if not con(a) and not con(b) and a.eq(b):
        return 1
    return z3.ULE(BV(a, w), BV(b, w))


def slt(a, b, w):
    if con(a) and con(b):
        return int(sgn(a, w) < sgn(b, w))
    return BV(a, w) < BV(b, w)


def sle(a, b, w):
    if con(a) and con(b):
        return int(sgn(a, w) <= sgn(b, w))
    return BV(a, w) <= BV(b, w)


def _off(t):
    """t as (base, const) when t = base + const"""
    if z3.is_app_of(t, z3.Z3_OP_BADD) and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if isinstance(b, z3.BitVecNumRef):
            return a, b.as_long()
        if isinstance(a, z3.BitVecNumRef):
            return b, a.as_long()
    return t, 0


def add(a, b, w):
    if con(a) and con(b):
        return (a + b) & mask(w)
    if con(a):
        a, b = b, a
    if con(b):
        if b == 0:
            return a
        base, c = _off(a)
        c = (c + b) & mask(w)
        return base if c == 0 else base + BV(c, w)
    return a + b


def sub(a, b, w):
    if con(a) and con(b):
        return (a - b) & mask(w)
    if con(b):
        return add(a, (-b) & mask(w), w)
    if not con(a):
        if a.eq(b):
            return 0
        ba, ca = _off(a)
        bb, cb = _off(b)
        if ba.eq(bb):
            return (ca - cb) & mask(w)
        # (x + y) - x
        if z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2:
            if a.arg(0).eq(b):
                return norm(a.arg(1))
            if a.arg(1).eq(b):
                return norm(a.arg(0))
    return BV(a, w) - BV(b, w)


def mul(a, b, w):
    if con(a) and con(b):
        return (a * b) & mask(w)
    if con(a):
        a, b = b, a
    if con(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return BV(a, w) * BV(b, w)


def ite(c, a, b, w):
    if con(c):
        return a if c else b
    if con(a) and con(b) and a == b:
        return a
    if w == 1:
        if con(a) and con(b):
            return c if a else Not(c)
        return z3.If(c, B(a), B(b))
    if not con(a) and not con(b) and a.eq(b):
        return a
    return z3.If(c, BV(a, w), BV(b, w))


def zext(a, fw, tw):
    if con(a):
        return a
    if fw == 1:
        return z3.If(a, BV(1, tw), BV(0, tw))
    return z3.ZeroExt(tw - fw, a)


def sext(a, fw, tw):
    if con(a):
        return sgn(a, fw) & mask(tw)
    if fw == 1:
        return z3.If(a, BV(mask(tw), tw), BV(0, tw))
    return z3.SignExt(tw - fw, a)


def _is01(a):
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = a.arg(1), a.arg(2)
        if isinstance(x, z3.BitVecNumRef) and isinstance(y, z3.BitVecNumRef):
            return x.as_long() & 1, y.as_long() & 1
    return None


def trunc(a, fw, tw):
    if con(a):
        return a & mask(tw)
    if tw == 1:
        p = _is01(a)
        if p:
            if p == (1, 0):
                return a.arg(0)
            if p == (0, 1):
                return Not(a.arg(0))
            return p[0]
        return z3.Extract(0, 0, a) == BV(1, 1)
    if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(a, z3.Z3_OP_SIGN_EXT):
        x = a.arg(0)
        if x.size() == tw:
            return x
        if x.size() < tw:
            return z3.ZeroExt(tw - x.size(), x) if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT) else z3.SignExt(tw - x.size(), x)
    return z3.Extract(tw - 1, 0, a)


def extract_bytes(v, w, lo, n):
    """bytes [lo, lo+n) (little endian) of w-bit v -> n*8 bits"""
    if con(v):
        return (v >> (8 * lo)) & mask(8 * n)
    if lo == 0 and n * 8 == w:
        return v
    return norm(z3.simplify(z3.Extract(8 * (lo + n) - 1, 8 * lo, v)))


def concat_bytes(parts):
    """parts: [(v, nbytes)] little endian order"""
    if all(con(v) for v, _ in parts):
        r, s = 0, 0
        for v, n in parts:
            r |= v << s
            s += 8 * n
        return r
    if len(parts) == 1:
        return parts[0][0]
    return norm(z3.simplify(z3.Concat(*[BV(v, 8 * n) for v, n in reversed(parts)])))
