"""IEEE single and double precision over bit patterns: concrete values with numpy, symbolic ones with z3's theory of floats."""
import z3, struct
from .val import z, fromz
from .load import Unsupported
SORT = {32: z3.Float32(), 64: z3.Float64()}

def _np(w):
    import numpy
    return (numpy.float32, numpy.uint32) if w == 32 else (numpy.float64, numpy.uint64)
def c2f(v, w):
    import numpy
    f, u = _np(w)
    return numpy.array([v], dtype=u).view(f)[0]
def f2c(x, w):
    import numpy
    f, u = _np(w)
    return int(numpy.array([x], dtype=f).view(u)[0])
def sort(w):
    if w not in SORT: raise Unsupported("%d bit floating point" % w)
    return SORT[w]
def F(v, w): return z3.fpBVToFP(z(v, w), sort(w))
def B(x, w): return fromz(z3.simplify(z3.fpToIEEEBV(x)), w)

def arith(op, a, b, w):
    s = sort(w)
    if type(a) is int and type(b) is int:
        import numpy
        x = c2f(a, w); y = c2f(b, w)
        with numpy.errstate(all="ignore"):
            r = x + y if op == 9 else x - y if op == 11 else x * y if op == 13 else numpy.divide(x, y) if op == 16 else numpy.fmod(x, y)
        return f2c(r, w)
    x = F(a, w); y = F(b, w); m = z3.RNE()
    if op == 19: raise Unsupported("symbolic fmod")
    return B(z3.fpAdd(m, x, y) if op == 9 else z3.fpSub(m, x, y) if op == 11 else z3.fpMul(m, x, y) if op == 13 else z3.fpDiv(m, x, y), w)

def convert(op, a, wf, wt):
    if op == 66:
        sort(wf)
        return a ^ (1 << (wf - 1)) if type(a) is int else fromz(z3.simplify(z(a, wf) ^ z3.BitVecVal(1 << (wf - 1), wf)), wf)
    if op in (33, 34):                       # to integer
        sort(wf)
        if type(a) is int:
            x = c2f(a, wf)
            if x != x or abs(x) >= 2.0 ** 80: return 0
            return int(x) & ((1 << wt) - 1)
        return fromz(z3.simplify((z3.fpToUBV if op == 33 else z3.fpToSBV)(z3.RTZ(), F(a, wf), z3.BitVecSort(wt))), wt)
    s = sort(wt)
    if op in (35, 36):                       # from integer
        if type(a) is int:
            import numpy
            if op == 36 and a >> (wf - 1): a -= 1 << wf
            if wt == 32:                     # straight from the integer: one rounding
                r = z3.simplify(z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), z3.BitVecVal(a, 129), s)))
                return r.as_long()
            return f2c(float(a), wt)
        return B((z3.fpUnsignedToFP if op == 35 else z3.fpSignedToFP)(z3.RNE(), z(a, wf), s), wt)
    sort(wf)
    if type(a) is int:
        import numpy
        with numpy.errstate(all="ignore"): return f2c(_np(wt)[0](c2f(a, wf)), wt)
    return B(z3.fpFPToFP(z3.RNE(), F(a, wf), s), wt)

def compare(p, a, b, w):
    # predicate bits: 1 equal, 2 greater, 4 less, 8 unordered
    if p == 0: return 0
    if p == 15: return 1
    if type(a) is int and type(b) is int:
        x = c2f(a, w); y = c2f(b, w)
        k = 8 if (x != x or y != y) else 1 if x == y else 2 if x > y else 4
        return int(bool(p & k))
    x = F(a, w); y = F(b, w)
    c = []
    if p & 1: c.append(z3.fpEQ(x, y))
    if p & 2: c.append(z3.fpGT(x, y))
    if p & 4: c.append(z3.fpLT(x, y))
    if p & 8: c.append(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)))
    return fromz(z3.simplify(z3.Or(*c)), 1)

def rounded(mode, a, w):
    """mode: ceil, floor, trunc, round (half away), rint (half to even)"""
    if type(a) is int:
        import numpy
        x = c2f(a, w)
        with numpy.errstate(all="ignore"):
            r = numpy.ceil(x) if mode == "ceil" else numpy.floor(x) if mode == "floor" else numpy.trunc(x) if mode == "trunc" else numpy.rint(x) if mode == "rint" else numpy.copysign(numpy.floor(abs(x) + type(x)(0.5)), x)
        return f2c(r, w)
    m = {"ceil": z3.RTP, "floor": z3.RTN, "trunc": z3.RTZ, "round": z3.RNA, "rint": z3.RNE}[mode]()
    return B(z3.fpRoundToIntegral(m, F(a, w)), w)
