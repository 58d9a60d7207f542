"""P12: Elias gamma, Elias delta, Fibonacci (bounded) and comma codes."""
from .common import *
from .p02 import moved
from .p06 import DRIVER_LIBS as DL, EXT
from engine import theory as th

TITLE = 'integer codes'
DRIVER_LIBS = DL + ['coder_elias_delta.cpp', 'coder_elias_gamma.cpp', 'coder_fibonacci.cpp']
DRIVER_FLAGS = ('-fno-sanitize=shift-exponent',)
CODES = {'g': 'elias_gamma', 'd': 'elias_delta', 'c2': 'comma<2>', 'c3': 'comma<3>', 'c8': 'comma<8>', 'c29': 'comma<29>', 'f': 'fibonacci'}
UNIT = '''
#include <sdsl/int_vector.hpp>
#include <sdsl/coder.hpp>
#include <sdsl/coder_comma.hpp>
using namespace sdsl;
extern "C" {
''' + ''.join('''
uint8_t len_%(k)s(uint64_t x){ return coder::%(c)s::encoding_length(x); }
void enc_%(k)s(uint64_t x, uint64_t*& z, uint8_t& o){ coder::%(c)s::encode(x,z,o); }
uint64_t sum_%(k)s(const uint64_t* d, uint64_t s, uint64_t n){ return coder::%(c)s::decode<true,false,int*>(d,s,n); }
uint64_t last_%(k)s(const uint64_t* d, uint64_t s, uint64_t n){ return coder::%(c)s::decode<false,false,int*>(d,s,n); }
uint64_t all_%(k)s(const uint64_t* d, uint64_t s, uint64_t n, uint64_t* o){ return coder::%(c)s::decode<false,true>(d,s,n,o); }
''' % dict(k=k, c=v) for k, v in CODES.items()) + '}\n'
LIBS = ['bits.cpp']
ASSUMPTIONS = ['decoding is proved for numbers 1..2^64-1; the code word of 2^64 (encoded from 0) only by the bounded driver']
TRUSTED = ['the contracts of read_unary_and_move and read_int_and_move used at calls are the ones proved by P02']
BOUNDED = 'Fibonacci code, table driven decode_prefix_sum and whole-vector encode/decode: native differential driver against reference codes'
Z = lambda x, w=64: z3.BitVecVal(x, w)
W = 192


def zx(x, w=W):
    return z3.ZeroExt(w - x.size(), x) if x.size() < w else x


def mask(L_, w=W):
    return (Z(1, w) << zx(L_, w)) - 1


def gamma(x, h):
    """code word (192 bits) and its length; h = hi(x), 64 for 0 (= 2^64)"""
    return (Z(1, W) << zx(h)) | (zx(x & lo(h)) << zx(h + h // 1 * 0 + 1 + h)) if False else \
           (Z(1, W) << zx(h)) | (zx(x & lo(h)) << zx(h + 1)), h + h + 1


def delta(x, h, hh):
    """h as above, hh = hi(h+1)"""
    l = h + 1
    return (Z(1, W) << zx(hh)) | (zx(l & lo(hh)) << zx(hh + 1)) | (zx(x & lo(h)) << zx(hh + hh + 1)), hh + hh + 1 + h


def hi_def(x, h):
    return z3.And(U(h, 64), z3.If(x == 0, h == 64, z3.And(L(h, 64), z3.LShR(x, h) == 1)))


def code(c, k, x, st=None):
    """ghosts for the lengths and the code word of x"""
    h = c.bv('h')
    if k == 'g':
        w, n = gamma(x, h)
        return w, n, [hi_def(x, h)], (h,)
    hh = c.bv('hh')
    w, n = delta(x, h, hh)
    return w, n, [hi_def(x, h), L(hh, 7), z3.LShR(h + 1, hh) == 1], (h, hh)


def V(A, k, n=3):
    return z3.Concat(*[A[k + j] for j in range(n - 1, -1, -1)])


def t_len(c, k):
    x = c.bv('x')
    w, n, fs, hs = code(c, k, x)
    c.assume(*fs)
    for st, r in c.call('len_' + k, [x]):
        c.reach(st, 'length')
        c.ensures(st, 'announced length', z64(r) == n)


def t_enc(c, k, case):
    x, o, i = c.bv('x'), c.bv('offset', 8), c.bv('k')
    w, n, fs, hs = code(c, k, x)
    c.assume(*fs)
    c.assume(L(o, 64), L(i, 1 << 40))
    if k == 'd':
        c.assume(hs[1] == case)
    else:
        c.assume(*(case(hs[0])))
    o64 = z64(o)
    words = z3.LShR(o64 + n + 63, 6)
    a = c.arr('word', i + words)
    A = c.A(c.st, a)
    p = a.add(Lin(0, ((8, i),)))
    wp, op = c.obj('wordptr', 8, {0: (8, p)}), c.obj('offset', 1, {0: (1, o)})
    for j in range(3):
        c.st.use('word', i + j)
    for st, r in c.call('enc_' + k, [x, wp, op]):
        c.reach(st, 'encode')
        A2 = c.A(st, a)
        m = mask(n) << zx(o64)
        want = (V(A, i) & ~m) | (w << zx(o64))
        c.ensures(st, 'encode writes the code word and keeps all other bits of its words', V(A2, i) == want)
        j = c.bv('j')
        c.ensures(st, 'encode touches no other word', z3.Implies(z3.Or(L(j, i), z3.ULT(i + 2, j)), A2[j] == A[j]))
        c.ensures(st, 'encode advances by the length of the code word', moved(c, st, wp, op, a, i, o, n))


# ---- read_unary_and_move for at most 64 zeros
def _rum(e, st, args):
    q = e.load_raw(st, args[0], 8)
    o = z64(B(e.load_raw(st, args[1], 1), 8))
    if not isinstance(q, Ptr) or q.r is None:
        return None
    r = e.region(st, q)
    d = q.o.div(8)
    if not isinstance(r, Arr) or r.es != 8 or d is None:
        return None
    k = B(d, 64)
    n = B(r.n, 64)
    st.use(r.name, k)
    st.use(r.name, k + 1)
    e.oblige(st, 'precondition of read_unary_and_move: offset below 64', 'precondition', L(o, 64))
    # the number of zeros and the bit position are named by the specification and proved here
    P, u, ls = getattr(e, 'unary_at', None) or ((k << 6) + o, fresh('unary', 64), [])
    v = z3.LShR(z3.Concat(r.a[z3.LShR(P, 6) + 1], r.a[z3.LShR(P, 6)]), zx(P & 63, 128))
    e.oblige(st, 'at the position of a code word', 'precondition', z3.And(k == z3.LShR(P, 6), o == P & 63))
    st.assume(z3.And(k == z3.LShR(P, 6), o == P & 63))
    e.oblige(st, 'unary code of at most 64 zeros', 'precondition', z3.And(U(u, 64), (v & mask(u + 1, 128)) == Z(1, 128) << zx(u, 128)))
    e.safety_check(st, 'read_unary: words in bounds', z3.And(L(k, n), L(z3.LShR(P + u, 6), n)))
    move(e, st, args, q.r, P + u + 1, ls)
    return [(st, u)]


def move(e, st, args, r, P, ls):
    k2, o2 = fresh('word', 64), fresh('off', 8)
    st.assume(z3.And(k2 == z3.LShR(P, 6), z64(o2) == P & 63, (k2 << 6) + z64(o2) == P))
    e.store_raw(st, args[0], 8, Ptr(r, Lin(0, ((8, k2),))))
    e.store_raw(st, args[1], 1, o2)
    e.posd = getattr(e, 'posd', {})
    e.posd[str(o2)] = (P, ls)


def _rim(e, st, args):
    """read_int_and_move at a position named by an earlier move"""
    q, o8 = e.load_raw(st, args[0], 8), e.load_raw(st, args[1], 1)
    P, ls = getattr(e, 'posd', {}).get(str(o8), (None, None))
    if P is None or not isinstance(q, Ptr) or q.r is None:
        return None
    r, d = e.region(st, q), q.o.div(8)
    if not isinstance(r, Arr) or r.es != 8 or d is None:
        return None
    l, k, n, o = z64(args[2]), B(d, 64), B(r.n, 64), P & 63
    e.oblige(st, 'precondition of read_int_and_move: position, length at most 64', 'precondition', z3.And(U(l, 64), k == z3.LShR(P, 6), z64(o8) == o))
    if ls:     # the length named by the specification
        e.oblige(st, 'length of the field', 'precondition', l == ls[0])
        st.assume(l == ls[0])
        l = ls[0]
    k = z3.LShR(P, 6)
    e.safety_check(st, 'read_int_and_move: words of the field in bounds', z3.And(L(k, n), z3.Implies(z3.UGT(o + l, 64), L(k + 1, n))))
    for j in (k, k + 1):
        st.use(r.name, j)
    move(e, st, args, q.r, P + l, ls[1:])
    return [(st, field(r.a, P, l))]


RIM = MemContract('bits::read_int_and_move', r'^sdsl::bits::read_int_and_move\(', _rim)
RUM = MemContract('bits::read_unary_and_move', r'^sdsl::bits::read_unary_and_move\(', _rum)
BV = z3.BitVecSort(64)
POS, X, H, HH, SUM = [z3.Function(n, BV, BV) for n in ('POS', 'X', 'LEN', 'LENLEN', 'SUM')]


def fields(A, k, x, h, hh, p):
    """the code word of x stands at bit position p: its unary part and its fields"""
    u = h if k == 'g' else hh
    v = z3.LShR(z3.Concat(A[z3.LShR(p, 6) + 1], A[z3.LShR(p, 6)]), zx(p & 63, 128))
    fs = [(v & mask(u + 1, 128)) == Z(1, 128) << zx(u, 128)]
    if k == 'g':
        return fs + [field(A, p + h + 1, h) == x & lo(h), (x & lo(h)) + (Z(1) << h) == x], h + h + 1
    return fs + [((h + 1) & lo(hh)) + (Z(1) << hh) == h + 1, (x & lo(h)) + (Z(1) << h) == x, field(A, p + hh + 1, hh) == (h + 1) & lo(hh), field(A, p + hh + hh + 1, h) == x & lo(h)], hh + hh + 1 + h


def t_link(c, k, case):
    """the code word written by encode is the code word described by its fields"""
    x, o, i = c.bv('x'), c.bv('offset'), c.bv('k')
    w, n, fs, hs = code(c, k, x)
    h = hs[0]
    c.assume(*fs)
    c.assume(L(o, 64), L(i, 1 << 40), x != 0, *case(h))
    A = z3.Array('words', z3.BitVecSort(64), z3.BitVecSort(64))
    c.assume((z3.LShR(V(A, i), zx(o)) & mask(n)) == w)
    p = (i << 6) + o
    for j, g in enumerate(fields(A, k, x, h, hs[-1], p)[0]):
        c.ensures(c.st, 'field %d of the code word' % j, g)
    c.reach(c.st, 'link')


def t_dec(c, k, f):
    """a sequence of n code words stands at bit position s; X(i) is the i-th encoded number"""
    n, s = c.bv('n'), c.bv('start')
    tot = c.bv('bits')
    c.assume(L(n, 1 << 48), L(tot, 1 << 50), POS(n) == tot, POS(Z(0)) == s, SUM(Z(0)) == 0, L(s, 1 << 50), U(s, tot))
    a = c.arr('data', z3.LShR(tot + 63, 6), ro=True)
    A = c.A(c.st, a)

    def fact(i):
        p = POS(i)
        fs, l = fields(A, k, X(i), H(i), HH(i), p)
        ok = [X(i) != 0, hi_def(X(i), H(i))] + fs + [POS(i + 1) == p + l, U(p + l, tot), L(p, tot),
              SUM(i + 1) == SUM(i) + X(i)]
        if k == 'd':
            ok += [L(HH(i), 7), z3.LShR(H(i) + 1, HH(i)) == 1]
        return z3.Implies(L(i, n), z3.And(*ok))
    c.st.facts.append(Quant('code', fact))
    args = [a, s, n]
    if f == 'all':
        out = c.arr('out', n)
        args.append(out)
    O = c.A(c.st, out) if f == 'all' else None

    def inv(Lc):
        i = Lc.v('i')
        d = B(Lc.raw('d').o.div(8), 64)
        o = Lc.v('offset')
        Lc.st.use('code', i)
        Lc.st.use('code', i - 1)
        if not z3.is_bv_value(z3.simplify(i)):
            Lc.eng.unary_at = (POS(i), H(i), [H(i)]) if k == 'g' else (POS(i), HH(i), [HH(i), H(i)])
        # the words before the last bit of the sequence
        r = [('at the next code word', z3.And(U(i, n), L(o, 64), d == z3.LShR(POS(i), 6), o == POS(i) & 63, U(POS(i), tot)))]
        if f == 'sum':
            r.append(('sum so far', Lc.v('value') == SUM(i)))
        elif f == 'last':
            r.append(('last value', z3.Implies(i != 0, Lc.v('value') == X(i - 1))))
            r.append(('nothing decoded', z3.Implies(i == 0, Lc.v('value') == 0)))
        else:
            r.append(('output position', B(Lc.raw('it').o.div(8), 64) == i))
            A2 = Lc.eng.arr_of(Lc.st, out)
            r.append(('values so far', Quant(('out', 'code'), lambda j: z3.Implies(L(j, i), A2[j] == X(j)))))
        return r
    c.e.loopspecs = [LoopSpec(r'coder::%s::decode<' % CODES[k], 0, inv, variant=lambda Lc: n - Lc.v('i'))]
    c.st.use('code', Z(0))
    for st, r in c.call('%s_%s' % (f, k), args):
        c.reach(st, 'decode')
        if f == 'sum':
            c.ensures(st, 'the sum of the encoded numbers', B(r, 64) == SUM(n))
        elif f == 'last':
            c.ensures(st, 'the last encoded number', z3.Implies(n != 0, B(r, 64) == X(n - 1)))
            c.ensures(st, '0 for an empty sequence', z3.Implies(n == 0, B(r, 64) == 0))
        else:
            A2 = c.A(st, out)
            c.ensures(st, 'all encoded numbers in order', Quant(('out', 'code'), lambda j: z3.Implies(L(j, n), A2[j] == X(j))))


def tasks(tier):
    r = [('encoding_length-' + k, t_len, (k,), '') for k in 'gd']
    r += [('encode-d-%d' % j, t_enc, ('d', j), '') for j in range(7)]
    for nm, lo_, hi_ in (('0', 0, 0), ('1-31', 1, 31), ('32-39', 32, 39), ('40-47', 40, 47), ('48-55', 48, 55), ('56-63', 56, 63), ('64', 64, 64)):
        r.append(('encode-g-' + nm, t_enc, ('g', lambda h, a=lo_, b=hi_: [U(a, h), U(h, b)]), ''))
    R = [(0, 0), (1, 7), (8, 15), (16, 23), (24, 31), (32, 39), (40, 47), (48, 55), (56, 63)]
    r += [('codeword-%s-%d' % (k, b), t_link, (k, lambda h, a=a, b=b: [U(a, h), U(h, b)]), '') for k in 'gd' for a, b in R]
    r += [('decode-%s-%s' % (f, k), t_dec, (k, f), '') for k in 'gd' for f in ('sum', 'last', 'all')]
    return r


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=[HI, LO] + RW + ([RUM, RIM] if name.startswith('decode') else []), externs=EXT)
