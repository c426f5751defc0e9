"""Values of the symbolic executor: Python ints (concrete, masked), Lin (64-bit linear forms over z3 terms),
z3 bit-vectors (other widths / non-linear terms) and z3 Bools (symbolic i1)."""
import z3

M64 = (1 << 64) - 1
REG = {}            # ast id -> z3 64-bit term (kept alive)
ctx = z3.main_ctx()

class Lin:
    __slots__ = ("c", "t", "_z")
    def __init__(self, c, t):
        self.c = c; self.t = t; self._z = None
    def z(self):
        if self._z is None:
            e = None
            for i, k in self.t:
                a = REG[i]
                if k == 1:
                    x = a
                else:
                    x = a * z3.BitVecVal(k, 64)
                e = x if e is None else e + x
            if self.c:
                e = e + z3.BitVecVal(self.c, 64)
            self._z = e
        return self._z
    def __repr__(self):
        return "Lin(%s)" % self.z()

def atom(e):
    i = e.get_id()
    if i not in REG:
        REG[i] = e
    return Lin(0, ((i, 1),))

def mk(c, d):
    t = tuple(sorted((i, k) for i, k in d.items() if k))
    if not t:
        return c & M64
    return Lin(c & M64, t)

def lin(v):
    """any 64-bit value -> int or Lin"""
    if isinstance(v, (int, Lin)):
        return v
    if z3.is_bv_value(v):
        return v.as_long()
    return norm(v)

def norm(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = 0
        for a in e.children():
            r = ladd(r, lin(a))
        return r
    if k == z3.Z3_OP_BSUB and e.num_args() == 2:
        return lsub(lin(e.arg(0)), lin(e.arg(1)))
    if k == z3.Z3_OP_BMUL and e.num_args() == 2:
        a, b = e.children()
        if z3.is_bv_value(a):
            a, b = b, a
        if z3.is_bv_value(b):
            return lmul(lin(a), b.as_long())
    return atom(e)

def ladd(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a + b) & M64
        return Lin((a + b.c) & M64, b.t)
    if isinstance(b, int):
        return Lin((a.c + b) & M64, a.t)
    d = dict(a.t)
    for i, k in b.t:
        d[i] = (d.get(i, 0) + k) & M64
    return mk(a.c + b.c, d)

def lmul(a, k):
    if isinstance(a, int):
        return a * k & M64
    if k == 1:
        return a
    return mk(a.c * k, {i: c * k & M64 for i, c in a.t})

def lsub(a, b):
    if isinstance(b, int):
        if isinstance(a, int):
            return (a - b) & M64
        return Lin((a.c - b) & M64, a.t)
    return ladd(a, lmul(b, M64))

def z(v, w):
    """to a z3 bit-vector of width w"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, Lin):
        return v.z()
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v

def fromz(e, w):
    """z3 expr -> value of width w"""
    if w == 64 and isinstance(e, z3.BitVecRef):
        if z3.is_bv_value(e):
            return e.as_long()
        return norm(e)
    if isinstance(e, z3.BoolRef):
        if z3.is_true(e): return 1
        if z3.is_false(e): return 0
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e

def tobool(v):
    if isinstance(v, int):
        return bool(v & 1)
    if isinstance(v, z3.BoolRef):
        return v
    return v == z3.BitVecVal(1, v.size())

def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v

LOW = {}            # atom id -> (form, mask): the atom is form & mask, a low mask
SHR = {}            # atom id -> (form, k): the atom is form >> k

def only(v):
    """the atom id of a form that is a single atom"""
    return v.t[0][0] if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 else None

def peep(op, a, b):
    """x - (x & low), x - x % 2^k, (x >> k) << k, x / 2^k * 2^k are all x & ~low: one form for them"""
    if op == 10 and isinstance(a, Lin):
        r = LOW.get(only(b))
        if r and r[0].c == a.c and r[0].t == a.t:
            return binop(23, a, M64 ^ r[1], 64)
    if op in (12, 20):
        if op == 12 and isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            r = SHR.get(only(a))
            if r and (b == r[1] if op == 20 else b == 1 << r[1]):
                return binop(23, r[0], M64 ^ ((1 << r[1]) - 1), 64)
    if isinstance(b, int) and isinstance(a, Lin):
        if op in (14, 17) and b and b & (b - 1) == 0:
            if op == 17: return binop(23, a, b - 1, 64)
            return binop(21, a, b.bit_length() - 1, 64) if b > 1 else a
        if op == 23 and b and b & (b + 1) == 0 and b != M64 or op == 21 and 0 < b < 64:
            r = fromz(a.z() & z3.BitVecVal(b, 64) if op == 23 else z3.LShR(a.z(), z3.BitVecVal(b, 64)), 64)
            i = only(r)
            if i is not None: (LOW if op == 23 else SHR)[i] = (a, b)
            return r
    return None

def binop(op, a, b, w):
    ta = type(a) is int; tb = type(b) is int
    m = (1 << w) - 1
    if ta and tb:
        if op == 8: return (a + b) & m
        if op == 10: return (a - b) & m
        if op == 23: return a & b
        if op == 24: return a | b
        if op == 25: return a ^ b
        if op == 12: return a * b & m
        if op == 20: return (a << b) & m if b < w else 0
        if op == 21: return a >> b if b < w else 0
        if op == 22: return (sx(a, w) >> min(b, w - 1)) & m
        if op == 14: return a // b
        if op == 17: return a % b
        if op in (15, 18):
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 15 else x - q * y) & m
        raise Exception("binop %d" % op)
    if w == 64:
        a = lin(a); b = lin(b)
        if op == 23 and isinstance(a, int): a, b = b, a
        if op == 8: return ladd(a, b)
        q = peep(op, a, b)
        if q is not None: return q
        if op == 10: return lsub(a, b)
        if op == 12 and (isinstance(a, int) or isinstance(b, int)):
            return lmul(b, a) if isinstance(a, int) else lmul(a, b)
        if op == 20 and isinstance(b, int):
            return lmul(a, (1 << b) & M64) if b < 64 else 0
        if op == 23 and (a == 0 or b == 0):
            return 0
        if op in (24, 25) and isinstance(b, int) and b == 0: return a
        if op == 23 and isinstance(b, int) and b == M64: return a
    if w == 1:
        x = tobool(a); y = tobool(b)
        if op == 23: r = z3.And(x, y)
        elif op == 24: r = z3.Or(x, y)
        elif op in (25, 8, 10): r = z3.Xor(x if not isinstance(x, bool) else z3.BoolVal(x), y if not isinstance(y, bool) else z3.BoolVal(y))
        else: raise Exception("i1 op")
        return fromz(z3.simplify(r), 1)
    x = z(a, w); y = z(b, w)
    if op == 8: r = x + y
    elif op == 10: r = x - y
    elif op == 12: r = x * y
    elif op == 23: r = x & y
    elif op == 24: r = x | y
    elif op == 25: r = x ^ y
    elif op == 20: r = x << y
    elif op == 21: r = z3.LShR(x, y)
    elif op == 22: r = x >> y
    elif op == 14: r = z3.UDiv(x, y)
    elif op == 17: r = z3.URem(x, y)
    elif op == 15: r = x / y
    elif op == 18: r = z3.SRem(x, y)
    else: raise Exception("binop %d" % op)
    if w != 64:
        r = z3.simplify(r)
    return fromz(r, w)

def icmp(p, a, b, w):
    if type(a) is int and type(b) is int:
        if p == 32: return int(a == b)
        if p == 33: return int(a != b)
        if p == 34: return int(a > b)
        if p == 35: return int(a >= b)
        if p == 36: return int(a < b)
        if p == 37: return int(a <= b)
        a = sx(a, w); b = sx(b, w)
        if p == 38: return int(a > b)
        if p == 39: return int(a >= b)
        if p == 40: return int(a < b)
        return int(a <= b)
    if w == 64 and p in (32, 33):
        d = lsub(lin(a), lin(b))
        if isinstance(d, int):
            return int((d == 0) == (p == 32))
    if w == 1:
        x = tobool(a); y = tobool(b)
        x = z3.BoolVal(x) if isinstance(x, bool) else x
        y = z3.BoolVal(y) if isinstance(y, bool) else y
        if p == 32: return fromz(z3.simplify(x == y), 1)
        if p == 33: return fromz(z3.simplify(z3.Xor(x, y)), 1)
        raise Exception("icmp i1")
    x = z(a, w); y = z(b, w)
    if 34 <= p <= 37:
        q = udiv_cmp(p, x, y, w)
        if q is not None: return fromz(z3.simplify(q), 1)
    if p == 32: r = x == y
    elif p == 33: r = x != y
    elif p == 34: r = z3.UGT(x, y)
    elif p == 35: r = z3.UGE(x, y)
    elif p == 36: r = z3.ULT(x, y)
    elif p == 37: r = z3.ULE(x, y)
    elif p == 38: r = x > y
    elif p == 39: r = x >= y
    elif p == 40: r = x < y
    else: r = x <= y
    return fromz(z3.simplify(r), 1)

def udiv_cmp(p, x, y, w):
    """n/d compared with a constant, without the division: n/d < c  iff  n < c*d (d is known not to be 0)"""
    def isdiv(t): return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
    if isdiv(y) and z3.is_bv_value(x): p = {34: 36, 35: 37, 36: 34, 37: 35}[p]; x, y = y, x
    if not (isdiv(x) and z3.is_bv_value(y)): return None
    c = y.as_long(); n, d = x.children()
    E = lambda t: z3.ZeroExt(w, t)
    if p in (34, 37): c += 1              # q > c  iff  q >= c+1
    lt = z3.ULT(E(n), E(d) * z3.BitVecVal(c, 2 * w))
    return lt if p in (36, 37) else z3.Not(lt)

def trunc(v, fw, tw):
    if type(v) is int:
        return v & ((1 << tw) - 1)
    if tw == 1:
        return fromz(z3.simplify(z3.Extract(0, 0, z(v, fw)) == z3.BitVecVal(1, 1)), 1)
    return fromz(z3.simplify(z3.Extract(tw - 1, 0, z(v, fw))), tw)

def zext(v, fw, tw):
    if type(v) is int:
        return v
    if fw == 1:
        return fromz(z(v, tw), tw)
    return fromz(z3.simplify(z3.ZeroExt(tw - fw, z(v, fw))), tw)

def sext(v, fw, tw):
    if type(v) is int:
        return sx(v, fw) & ((1 << tw) - 1)
    if fw == 1:
        return fromz(z3.If(v, z3.BitVecVal((1 << tw) - 1, tw), z3.BitVecVal(0, tw)), tw)
    return fromz(z3.simplify(z3.SignExt(tw - fw, z(v, fw))), tw)
