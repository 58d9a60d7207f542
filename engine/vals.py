"""Values and term construction. Integers are Python ints when concrete, z3 bit-vectors
otherwise; i1 is Python bool or z3 Bool; pointers are Ptr(region, linear offset, family)."""
import z3

_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def reset_names():
    _ctr[0] = 0


def fresh(p, w):
    return z3.BitVec(fresh_name(p), w)


class Undecided(Exception):
    """the verifier cannot carry this construct: neither proof nor refutation"""


class Lin:
    """sum of coef*term + const over 64-bit integers"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c, self.t = c, t

    def add(self, o):
        d = {}
        for k, x in self.t + o.t:
            key = x.get_id()
            d[key] = (d[key][0] + k, x) if key in d else (k, x)
        return Lin(self.c + o.c, tuple(v for v in d.values() if v[0] % (1 << 64)))

    def scale(self, k):
        return Lin(self.c * k, tuple((a * k, x) for a, x in self.t)) if k else Lin()

    def addc(self, c):
        return Lin(self.c + c, self.t)

    def const(self):
        return not self.t

    def div(self, n):
        """exact division by a constant, or None"""
        if self.c % n or any(a % n for a, _ in self.t):
            return None
        return Lin(self.c // n, tuple((a // n, x) for a, x in self.t))

    def bv(self):
        if not self.t:
            return self.c & M64
        r = None
        for a, x in self.t:
            a &= M64
            if a == 1:
                y = x
            elif a & (a - 1) == 0:
                y = x << (a.bit_length() - 1)
            else:
                y = x * z3.BitVecVal(a, 64)
            if a == M64 and r is not None:
                r = r - x
                continue
            r = y if r is None else r + y
        c = self.c & M64
        if c:
            if c >> 63:
                r = r - z3.BitVecVal((1 << 64) - c, 64)
            else:
                r = r + z3.BitVecVal(c, 64)
        return r

    def __repr__(self):
        return 'Lin(%d%s)' % (self.c, ''.join(' + %d*%s' % (a, str(x)[:60]) for a, x in self.t))


M64 = (1 << 64) - 1


def lin_of(v, w=64):
    """linear form of a 64-bit value"""
    if isinstance(v, Lin):
        return v
    if isinstance(v, int):
        return Lin(sgn(v, 64))
    if z3.is_bv_value(v):
        return Lin(sgn(v.as_long(), 64))
    d = v.decl().kind()
    if d == z3.Z3_OP_BADD:
        r = Lin()
        for ch in v.children():
            r = r.add(lin_of(ch))
        return r
    if d == z3.Z3_OP_BSUB:
        ch = v.children()
        r = lin_of(ch[0])
        for x in ch[1:]:
            r = r.add(lin_of(x).scale(-1))
        return r
    return Lin(0, ((1, v),))


class Ptr:
    __slots__ = ('r', 'o', 'f')

    def __init__(self, r, o=None, f=()):
        self.r, self.o, self.f = r, o if o is not None else Lin(), f

    def add(self, lin):
        return Ptr(self.r, self.o.add(lin), self.f)

    def addc(self, c):
        return Ptr(self.r, self.o.addc(c), self.f)

    def __repr__(self):
        return 'Ptr(%s,%r%s)' % (self.r, self.o, ',%r' % (self.f,) if self.f else '')


NULL = Ptr(None)


class PInt:
    """ptrtoint result"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Opaque:
    """a value the verifier does not model (floating point, undefined)"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def B(v, w):
    """z3 bit-vector of width w"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, Lin):
        v = v.bv()
        return z3.BitVecVal(v, w) if isinstance(v, int) else v
    if isinstance(v, z3.BitVecRef):
        if v.size() != w:
            raise Undecided('width %d, expected %d' % (v.size(), w))
        return v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, Opaque):
        return fresh('opaque', w)
    if isinstance(v, PInt):
        raise Undecided('integer view of a pointer')
    raise Undecided('bv of %r' % (v,))


def norm(v):
    """constants become Python ints"""
    if isinstance(v, z3.BitVecRef) and z3.is_bv_value(v):
        return v.as_long()
    return v


def normb(v):
    if isinstance(v, bool):
        return v
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return v


def mask(w):
    return (1 << w) - 1


def is_conc(v):
    return isinstance(v, int)


def Bo(v):
    """z3 Bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, z3.BitVecRef) and v.size() == 1:
        return v == 1
    if isinstance(v, Opaque):
        return z3.Bool(fresh_name('opq'))
    raise Undecided('bool of %r' % (v,))


def bnot(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def maxbits(a):
    """number of low bits that can be non-zero"""
    w = a.size()
    if z3.is_bv_value(a):
        return a.as_long().bit_length()
    k = a.decl().kind()
    if k == z3.Z3_OP_BAND:
        return min(maxbits(c) for c in a.children())
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        return max(maxbits(c) for c in a.children())
    if k == z3.Z3_OP_ZERO_EXT:
        return maxbits(a.arg(0))
    if k == z3.Z3_OP_EXTRACT and a.params()[1] == 0:
        return min(w, maxbits(a.arg(0)))
    if k == z3.Z3_OP_CONCAT and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0 and a.num_args() == 2:
        return maxbits(a.arg(1))
    if k == z3.Z3_OP_BLSHR and z3.is_bv_value(a.arg(1)):
        return max(0, maxbits(a.arg(0)) - a.arg(1).as_long())
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(a.arg(1)) and a.arg(1).as_long():
        return maxbits(a.arg(0))
    return w


def narrow_div(op, w, a, c):
    """a op c for a constant c > 0 on as few bits as a needs"""
    n = max(maxbits(a), c.bit_length(), 1)
    if op in ('sdiv', 'srem') and n >= w:
        return None
    if n >= w:
        return None
    x, y = z3.Extract(n - 1, 0, a), z3.BitVecVal(c, n)
    return z3.ZeroExt(w - n, z3.UDiv(x, y) if op in ('udiv', 'sdiv') else z3.URem(x, y))


def binop(op, w, a, b):
    """a, b ints or z3; returns int or z3"""
    if w == 1:
        if isinstance(a, int) and not isinstance(a, bool):
            a = bool(a)
        if isinstance(b, int) and not isinstance(b, bool):
            b = bool(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b}[op]
        if op == 'and':
            if a is False or b is False:
                return False
            if a is True:
                return b
            if b is True:
                return a
            return z3.And(Bo(a), Bo(b))
        if op == 'or':
            if a is True or b is True:
                return True
            if a is False:
                return b
            if b is False:
                return a
            return z3.Or(Bo(a), Bo(b))
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, bool):
                return bnot(b) if a else b
            if isinstance(b, bool):
                return bnot(a) if b else a
            return z3.Xor(Bo(a), Bo(b))
        raise Undecided('i1 ' + op)
    m = (1 << w) - 1
    ca, cb = isinstance(a, int), isinstance(b, int)
    if ca and cb:
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w)) & m
        if op == 'udiv':
            return a // b if b else m
        if op == 'urem':
            return a % b if b else a
        sa, sb = sgn(a, w), sgn(b, w)
        if op == 'sdiv':
            if sb == 0:
                return m
            q = abs(sa) // abs(sb)
            return (q if (sa < 0) == (sb < 0) else -q) & m
        if op == 'srem':
            if sb == 0:
                return a
            r = abs(sa) % abs(sb)
            return (-r if sa < 0 else r) & m
        raise Undecided(op)
    # identities
    if op == 'add':
        if ca and a == 0:
            return b
        if cb and b == 0:
            return a
        if cb and z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
            return binop('add', w, a.arg(0), (a.arg(1).as_long() + b) & m)
        if ca:
            a, b, ca, cb = b, a, cb, ca
    elif op == 'sub':
        if cb:
            return binop('add', w, a, (-b) & m)
        if not ca and a.eq(b):
            return 0
    elif op == 'mul':
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb:
            if b == 0:
                return 0
            if b == 1:
                return a
            if b & (b - 1) == 0:
                return a << (b.bit_length() - 1)
    elif op in ('shl', 'lshr', 'ashr'):
        if cb and b == 0:
            return a
        if ca and a == 0:
            return 0
        if cb and b >= w and op != 'ashr':
            return 0
    elif op == 'and':
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb and b == 0:
            return 0
        if cb and b == m:
            return a
    elif op in ('or', 'xor'):
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb and b == 0:
            return a
        if cb and op == 'or' and b == m:
            return m
    elif op == 'udiv' and cb and b & (b - 1) == 0 and b:
        k = b.bit_length() - 1
        return z3.LShR(a, k) if k else a
    elif op == 'urem' and cb and b & (b - 1) == 0 and b:
        return binop('and', w, a, b - 1)
    if op in ('udiv', 'urem', 'sdiv', 'srem') and cb and not ca and 0 < b < 1 << (w - 1):
        r = narrow_div(op, w, a, b)
        if r is not None:
            return r
    A, Bb = B(a, w), B(b, w)
    if op == 'add':
        return A + Bb
    if op == 'sub':
        return A - Bb
    if op == 'mul':
        return A * Bb
    if op == 'and':
        return A & Bb
    if op == 'or':
        return A | Bb
    if op == 'xor':
        return A ^ Bb
    if op == 'shl':
        return A << Bb
    if op == 'lshr':
        return z3.LShR(A, Bb)
    if op == 'ashr':
        return A >> Bb
    if op == 'udiv':
        return z3.UDiv(A, Bb)
    if op == 'urem':
        return z3.URem(A, Bb)
    if op == 'sdiv':
        return A / Bb
    if op == 'srem':
        return z3.SRem(A, Bb)
    raise Undecided(op)


def cmpop(pred, w, a, b):
    if w == 1:
        A, Bb = Bo(a), Bo(b)
        if pred == 'eq':
            return normb(z3.simplify(A == Bb))
        if pred == 'ne':
            return normb(z3.simplify(A != Bb))
        a, b = B(A, 1), B(Bb, 1)
    if isinstance(a, int) and isinstance(b, int):
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]]
    A, Bb = B(a, w), B(b, w)
    if A.eq(Bb):
        return pred in ('eq', 'uge', 'ule', 'sge', 'sle')
    return {'eq': lambda: A == Bb, 'ne': lambda: A != Bb, 'ugt': lambda: z3.UGT(A, Bb), 'uge': lambda: z3.UGE(A, Bb),
            'ult': lambda: z3.ULT(A, Bb), 'ule': lambda: z3.ULE(A, Bb), 'sgt': lambda: A > Bb, 'sge': lambda: A >= Bb,
            'slt': lambda: A < Bb, 'sle': lambda: A <= Bb}[pred]()


def zext(v, w, W):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, W), z3.BitVecVal(0, W))
    if isinstance(v, Opaque):
        return v
    return z3.ZeroExt(W - w, B(v, w))


def trunc(v, w, W):
    """to W bits"""
    if isinstance(v, int) and not isinstance(v, bool):
        r = v & mask(W)
        return bool(r) if W == 1 else r
    if isinstance(v, Opaque):
        return v
    v = B(v, w)
    if v.decl().kind() == z3.Z3_OP_ZERO_EXT and v.arg(0).size() == W:
        return v.arg(0)
    if W == 1:
        # bool stored as i8: If(c,1,0)
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
            x, y = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
            if (x, y) == (1, 0):
                return v.arg(0)
            if (x, y) == (0, 1):
                return z3.Not(v.arg(0))
        return z3.Extract(0, 0, v) == 1
    return z3.Extract(W - 1, 0, v)
