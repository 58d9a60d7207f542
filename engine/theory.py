"""Specification functions and the lemmas about them.  Every lemma is proved (by z3, on each run
that uses it) from the definition of the function before its instances may be assumed."""
import z3

BV64 = z3.BitVecSort(64)
POP = z3.Function('POP', BV64, BV64)          # number of set bits


def b64(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


def bit(x, i):
    """bit i (term or int) of x as a 64-bit 0/1"""
    if isinstance(i, int):
        return z3.ZeroExt(63, z3.Extract(i, i, b64(x)))
    return z3.LShR(b64(x), b64(i)) & 1


def lo(i):
    """mask of the i lowest bits, 0 <= i <= 64"""
    if isinstance(i, int):
        return z3.BitVecVal((1 << i) - 1, 64)
    return (z3.BitVecVal(1, 64) << i) - 1     # i == 64: SMT shift gives 0, minus 1 = all ones


def pre(x, i):
    """set bits among the i lowest bits"""
    return POP(b64(x) & lo(i))


def popdef64(x):
    r = z3.BitVecVal(0, 64)
    for i in range(64):
        r = r + z3.ZeroExt(63, z3.Extract(i, i, x))
    return r


def popdef(x):
    """definition: sum over the bits, grouped by bytes"""
    r = z3.BitVecVal(0, 7)
    for k in range(8):
        c = z3.BitVecVal(0, 4)
        for i in range(8):
            c = c + z3.ZeroExt(3, z3.Extract(8 * k + i, 8 * k + i, x))
        r = r + z3.ZeroExt(3, c)
    return z3.ZeroExt(57, r)


# ------------------------------------------------------------------ lemmas
class Lemma:
    """forall args. body(args) where POP is the number of set bits"""
    def __init__(self, name, ar, body, proof=None):
        self.name, self.ar, self.body, self.proof = name, ar, body, proof


LEMMAS = {}
USED = set()


def lemma(name, ar, proof=None):
    def d(f):
        LEMMAS[name] = Lemma(name, ar, f, proof)

        def inst(*a):
            USED.add(name)
            return f(*[b64(x) for x in a])
        inst.lemma = name
        return inst
    return d


U = z3.ULE
L = z3.ULT


@lemma('pop_le_64', 1)
def pop_le_64(x):
    return U(POP(x), 64)


@lemma('pop_zero', 1)
def pop_zero(x):
    return (x == 0) == (POP(x) == 0)


@lemma('pre_le', 2, ('chain', lambda x, i: [x, x & lo(i)], lambda x, i: U(i, 64),
                     lambda j, p, xs: z3.And(U(p[0], j), U(p[1], p[0]), U(p[1], z3.If(U(j, xs[1]), b64(j), xs[1]))),
                     lambda x, i: z3.And(U(pre(x, i), i), U(pre(x, i), POP(x)))))
def pre_le(x, i):
    return z3.Implies(U(i, 64), z3.And(U(pre(x, i), i), U(pre(x, i), POP(x))))


@lemma('pre_step', 2, 'case_i')
def pre_step(x, i):
    return z3.Implies(L(i, 64), pre(x, i + 1) == pre(x, i) + bit(x, i))


@lemma('pop_split', 2, 'case_i')
def pop_split(x, i):
    """POP(x) = bits below i + bits from i on"""
    return z3.Implies(U(i, 64), POP(x) == pre(x, i) + POP(z3.LShR(x, i)))


@lemma('pop_not', 1, ('chain', lambda x: [x, ~x], lambda x: z3.BoolVal(True),
                      lambda j, p, xs: p[1] == j - p[0], lambda x: POP(~x) == 64 - POP(x)))
def pop_not(x):
    return POP(~x) == 64 - POP(x)


@lemma('pre_not', 2, ('chain', lambda x, i: [x & lo(i), ~x & lo(i)], lambda x, i: U(i, 64),
                      lambda j, p, xs: p[1] == z3.If(U(j, xs[1]), b64(j), xs[1]) - p[0],
                      lambda x, i: pre(~x, i) == i - pre(x, i)))
def pre_not(x, i):
    return z3.Implies(U(i, 64), pre(~x, i) == i - pre(x, i))


def chain(terms, guard, inv, concl):
    """proof by induction over the 64 bits: terms = POP arguments; inv(j, [partial counts]) holds at 0,
    is preserved by adding bit j of every argument, and at 64 gives the conclusion"""
    def run(xs):
        ts = terms(*xs)
        ps = [z3.BitVec('p%d' % k, 64) for k in range(len(ts))]
        g = guard(*xs)
        yield z3.Implies(g, inv(0, [z3.BitVecVal(0, 64)] * len(ts), xs))
        for j in range(64):
            yield z3.Implies(z3.And(g, inv(j, ps, xs)),
                             inv(j + 1, [p + z3.ZeroExt(63, z3.Extract(j, j, t)) for p, t in zip(ps, ts)], xs))
        f = z3.Implies(z3.And(g, inv(64, ps, xs)), concl(*xs))
        # name the counts
        yield z3.substitute_funs(f, (POP, z3.BitVec('unused', 64))) if False else abstract(f, ts, ps)
    return run


def abstract(f, ts, ps):
    return z3.substitute(f, *[(POP(t), p) for t, p in zip(ts, ps)])


@lemma('pop_disjoint', 2, ('chain', lambda x, y: [x, y, x | y], lambda x, y: x & y == 0,
                           lambda j, p, xs: p[2] == p[0] + p[1], lambda x, y: POP(x | y) == POP(x) + POP(y)))
def pop_disjoint(x, y):
    return z3.Implies(x & y == 0, POP(x | y) == POP(x) + POP(y))


# ------------------------------------------------------------------ nonlinear arithmetic over symbolic operands
# MUL / UDV / SDV / URM name the machine operations; lemmas are proved over the integers by z3 and transfer to
# 64-bit words because every product in them is guarded to stay below 2^64 (below 2^63 in absolute value for SDV).
MUL = z3.Function('MUL', BV64, BV64, BV64)
UDV = z3.Function('UDV', BV64, BV64, BV64)
URM = z3.Function('URM', BV64, BV64, BV64)
SDV = z3.Function('SDV', BV64, BV64, BV64)


def mul(a, b):
    return MUL(b64(a), b64(b))


def ilemma(name, ar, ints):
    """lemma about MUL/UDV: `ints` yields integer statements to prove"""
    return lemma(name, ar, ('int', ints))


NMAX = 1 << 52


def _mono():
    i, n, w = z3.Ints('i n w')
    yield z3.Implies(z3.And(0 <= i, i < n, n <= NMAX, 1 <= w, w <= 64), z3.And(i * w + w <= n * w, n * w < 2 ** 63, i * w < 2 ** 63))


@ilemma('mul_mono', 3, _mono)
def mul_mono(i, n, w):
    """i < n, w in 1..64: element i ends at or before n*w; products below 2^52*64"""
    return z3.Implies(z3.And(L(i, n), U(n, NMAX), U(b64(1), w), U(w, 64)),
                      z3.And(U(MUL(i, w) + w, MUL(n, w)), U(MUL(n, w), NMAX * 64), U(MUL(i, w), NMAX * 64)))


def _mbound():
    n, w = z3.Ints('n w')
    yield z3.Implies(z3.And(0 <= n, n <= NMAX, 1 <= w, w <= 64), z3.And(n * w <= NMAX * 64, n * w >= n))


@ilemma('mul_bound', 2, _mbound)
def mul_bound(n, w):
    return z3.Implies(z3.And(U(n, NMAX), U(b64(1), w), U(w, 64)), z3.And(U(MUL(n, w), NMAX * 64), U(n, MUL(n, w))))


def _step():
    i, w = z3.Ints('i w')
    yield (i + 1) * w == i * w + w


@ilemma('mul_step', 2, _step)
def mul_step(i, w):
    return MUL(i + 1, w) == MUL(i, w) + w       # exact modulo 2^64


def _neg():
    i, w = z3.Ints('i w')
    yield (-i) * w == -(i * w)


@ilemma('mul_neg', 2, _neg)
def mul_neg(i, w):
    return MUL(-i, w) == -MUL(i, w)             # exact modulo 2^64


def _dist():
    i, j, w = z3.Ints('i j w')
    yield (i + j) * w == i * w + j * w


@ilemma('mul_dist', 3, _dist)
def mul_dist(i, j, w):
    return MUL(i + j, w) == MUL(i, w) + MUL(j, w)       # exact modulo 2^64


def _divmul():
    n, w = z3.Ints('n w')
    yield z3.Implies(z3.And(0 <= n, w >= 1), (n * w) / w == n)


@ilemma('udiv_mul', 2, _divmul)
def udiv_mul(n, w):
    return z3.Implies(z3.And(U(n, NMAX), U(b64(1), w), U(w, 64)), UDV(MUL(n, w), w) == n)


def _sdivmul():
    # truncated division of an exact multiple
    n, w = z3.Ints('n w')
    yield z3.Implies(z3.And(n >= 0, w >= 1), (n * w) / w == n)
    yield z3.Implies(z3.And(n < 0, w >= 1), -((-(n * w)) / w) == n)


@ilemma('sdiv_mul', 2, _sdivmul)
def sdiv_mul(n, w):
    return z3.Implies(z3.And(n <= NMAX, n >= -NMAX, U(b64(1), w), U(w, 64)), SDV(MUL(n, w), w) == n)


def _udivb():
    s, w, q = z3.Ints('s w q')
    yield z3.Implies(z3.And(s >= 0, w >= 1, q == s / w), z3.And(q * w <= s, s < q * w + w, q <= s))


@ilemma('udiv_bounds', 2, _udivb)
def udiv_bounds(s, w):
    """q = s / w"""
    q = UDV(s, w)
    return z3.Implies(z3.And(U(s, 1 << 58), U(b64(1), w), U(w, 1 << 58)), z3.And(U(MUL(q, w), s), L(s, MUL(q, w) + w), U(q, s)))


@lemma('pos_inc', 2)
def pos_inc(d, t):
    """word d + t/64, offset t%64 denotes bit position 64*d + t"""
    return ((d + z3.LShR(t, 6)) << 6) + (t & 63) == (d << 6) + t


@lemma('pos_split', 2)
def pos_split(d, o):
    return z3.Implies(z3.And(L(d, 1 << 53), L(o, 64)), z3.And(z3.LShR((d << 6) + o, 6) == d, ((d << 6) + o) & 63 == o))


@lemma('div384', 1)
def div384(i):
    return z3.UDiv(i & 0x7ff, b64(384)) == z3.UDiv(z3.LShR(i, 6) & 31, b64(6))


@lemma('blk6', 1)
def blk6(w):
    d = z3.UDiv(w & 31, b64(6))
    k = (z3.LShR(w, 5) << 5) + 6 * d
    return z3.Implies(L(w, 1 << 54), z3.And(z3.LShR(k, 5) == z3.LShR(w, 5), k & 31 == 6 * d, z3.URem(k & 31, b64(6)) == 0, z3.UDiv(k & 31, b64(6)) == d,
                  k + z3.URem(w & 31, b64(6)) == w, U(d, 5)))


def inst_pop(f, d=None):
    """replace POP by its definition"""
    d = d or popdef
    cache = {}

    def go(e):
        k = e.get_id()
        if k in cache:
            return cache[k][1]
        if z3.is_app(e) and e.num_args():
            ch = [go(c) for c in e.children()]
            if e.decl().eq(POP):
                r = d(ch[0])
            else:
                r = e.decl()(*ch)
        else:
            r = e
        cache[k] = (e, r)
        return r
    return go(f)


def prove_lemma(name, timeout=60000):
    """returns (ok, number of queries, seconds)"""
    import time
    t0 = time.time()
    lm = LEMMAS[name]
    xs = [z3.BitVec('x%d' % i, 64) for i in range(lm.ar)]
    n = 0
    if isinstance(lm.proof, tuple) and lm.proof[0] == 'int':
        for f in lm.proof[1]():
            n += 1
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(z3.Not(f))
            if s.check() != z3.unsat:
                return False, n, time.time() - t0
        return True, n, time.time() - t0
    if lm.proof == 'case_i':
        cases = [xs[:-1] + [z3.BitVecVal(k, 64)] for k in range(66)] + [None]
    elif isinstance(lm.proof, tuple):
        cases = [('f', f) for f in chain(*lm.proof[1:])(xs)]
        # the conclusion is the body itself
        cases.append(('f', z3.Implies(z3.And(lm.proof[2](*xs), lm.proof[4](*xs)), lm.body(*xs))))
        cases.append(('f', z3.Implies(z3.Not(lm.proof[2](*xs)), lm.body(*xs))))
    else:
        cases = [xs]
    for c in cases:
        if c is None:
            # arguments beyond 65 do not satisfy the guard
            f = z3.Implies(z3.UGT(xs[-1], 65), lm.body(*xs))
        elif isinstance(c, tuple):
            f = c[1]
        else:
            f = lm.body(*c)
        g = f if c is None or isinstance(c, tuple) else z3.simplify(inst_pop(f, popdef64))
        n += 1
        if z3.is_true(g):
            continue
        if c is not None and not isinstance(c, tuple):
            g = inst_pop(f, popdef)
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', timeout)
        s.add(z3.Not(g))
        if s.check() != z3.unsat:
            return False, n, time.time() - t0
    return True, n, time.time() - t0
