"""P08: bit_vector_il and its rank and select supports."""
from .common import *
from .p06 import CW, setup, Z, EXT, DRIVER_LIBS
from .p07 import SELP, args, selpost, cw_mono
from engine import theory as th

TITLE = 'interleaved bit vectors'
BS = [64, 256, 512, 2048]
UNIT = '''
#include <sdsl/bit_vectors.hpp>
#include <new>
using namespace sdsl;
extern "C" {
''' + ''.join('''
typedef bit_vector_il<%(b)d> V_%(b)d;
void ctor_%(b)d(V_%(b)d* p, const bit_vector& v){ new (p) V_%(b)d(v); }
uint64_t at_%(b)d(const V_%(b)d& v, uint64_t i){ return v[i]; }
uint64_t int_%(b)d(const V_%(b)d& v, uint64_t i, uint8_t l){ return v.get_int(i,l); }
uint64_t size_%(b)d(const V_%(b)d& v){ return v.size(); }
''' % dict(b=b) + ''.join('''
void rctor%(p)d_%(b)d(rank_support_il<%(p)d,%(b)d>* r, const V_%(b)d* v){ new (r) rank_support_il<%(p)d,%(b)d>(v); }
void sctor%(p)d_%(b)d(select_support_il<%(p)d,%(b)d>* r, const V_%(b)d* v){ new (r) select_support_il<%(p)d,%(b)d>(v); }
uint64_t rank%(p)d_%(b)d(const rank_support_il<%(p)d,%(b)d>& r, uint64_t i){ return r(i); }
uint64_t select%(p)d_%(b)d(const select_support_il<%(p)d,%(b)d>& r, uint64_t i){ return r(i); }
''' % dict(b=b, p=p) for p in (0, 1)) for b in BS) + '}\n'
LIBS = ['bits.cpp']
ASSUMPTIONS = ['bit vectors hold at most 2^52 bits']
TRUSTED = ['init_rank_samples fills the rank samples in breadth-first order of the binary search (assumed; covered by the native driver with vectors of more than 4M bits)']


def pos(k, bs):
    """index in m_data of word k of the bit vector"""
    s = (bs // 64).bit_length() - 1
    return k + z3.LShR(k, s) + 1


def spos(b, bs):
    """index in m_data of the count in front of superblock b"""
    return (b << (bs // 64).bit_length() - 1) + b


def sizes(v, bs):
    blocks = z3.LShR(v.size, 6) + 1
    sup = z3.LShR(z3.LShR(v.size, 6), (bs // 64).bit_length() - 1) + 1
    return blocks, sup, blocks + sup + 1


def layout(D, A, bs, blocks, pat='1'):
    sh = (bs // 64).bit_length() - 1
    cnt = lambda k: CW(k) if pat == '1' else (k << 6) - CW(k)

    def f(k):
        return z3.Implies(z3.And(L(k, blocks), U(k, 1 << 50)), z3.And(D[pos(k, bs)] == A[k], D[spos(z3.LShR(k, sh), bs)] == cnt(z3.LShR(k, sh) << sh)))
    return f


def il(c, v, bs, samples=False, pat='1'):
    blocks, sup, mem = sizes(v, bs)
    dd = c.dd = c.arr('il_data', mem + 1, ro=True)
    c.D = c.A(c.st, dd)
    c.st.facts.append(Quant(('word', 'v_data', 'cw'), layout(c.D, v.A(), bs, blocks, pat)))
    sm = 0
    if samples:
        sm = c.bv('samples')
        c.assume(U(sm, 1024))
        sd = c.arr('sample_data', sm + 1, ro=True)
        c.S = c.A(c.st, sd)
    else:
        sd = Ptr(None)
    p = c.obj('il', 96, {0: (8, v.size), 8: (8, mem), 16: (8, sup), 24: (8, bs.bit_length() - 1), 32: (8, mem << 6), 40: (8, dd), 48: (1, 64),
                         64: (8, sm << 6), 72: (8, sd), 80: (1, 64)}, ro=True)
    c.samples = sm
    return p, blocks, sup


def t_at(c, bs):
    v, P, rank = setup(c, '1')
    p, blocks, sup = il(c, v, bs)
    i = c.bv('i')
    c.assume(L(i, v.size))
    word(c, c.st, v, z3.LShR(i, 6), bs, i)
    for st, r in c.call('at_%d' % bs, [p, i]):
        c.reach(st, 'at')
        c.ensures(st, '[i] is bit i', B(r, 64) == bit(v.A()[z3.LShR(i, 6)], i & 63))
    for st, r in c.call('size_%d' % bs, [p]):
        c.ensures(st, 'size() is the number of bits', B(r, 64) == v.size)


def t_int(c, bs):
    v, P, rank = setup(c, '1')
    p, blocks, sup = il(c, v, bs)
    i, l = c.bv('i'), c.bv('l', 8)
    lw = z3.ZeroExt(56, l)
    c.assume(U(Z(1), lw), U(lw, 64), U(i, v.size), U(i + lw, v.size))
    k = z3.LShR(i, 6)
    e = z3.LShR(i + lw - 1, 6)
    c.step('last word of the field', U(e, z3.LShR(v.size, 6)), U(k, e))
    word(c, c.st, v, k, bs, i)
    word(c, c.st, v, e, bs, i + lw - 1)
    for st, r in c.call('int_%d' % bs, [p, i, l]):
        c.reach(st, 'get_int')
        c.ensures(st, 'get_int(i,l) is the l bits at i', B(r, 64) == field(v.A(), i, lw))


def geo(c, v, bs):
    """lemma: the word k in superblock S (or the count of S) lies inside m_data; proved once, then instantiated"""
    s = (bs // 64).bit_length() - 1

    def f(k, S, y):
        return z3.Implies(z3.And(U(k, y), U(y, 1 << 46), U(S, 1 << 46), U(S << s, k)), z3.And(U(S, z3.LShR(y, s)), U(k + S, y + z3.LShR(y, s)), U(k + S, 1 << 47), U(S, k), U(z3.LShR(y, s), y)))
    k, S, y, q = c.bv('gk'), c.bv('gS'), c.bv('gy'), c.bv('gq')
    pre_ = z3.And(U(k, y), U(y, 1 << 46), U(S, 1 << 46), U(S << s, k))
    c.ensures(State(), 'geometry: superblock', z3.Implies(pre_, z3.And(U(S, z3.LShR(y, s)), U(S, k), U(z3.LShR(y, s), y))))
    c.ensures(State(), 'geometry: sum', z3.Implies(z3.And(U(k, y), U(y, 1 << 46), U(S, q), U(q, 1 << 46)), z3.And(U(k + S, y + q), U(k + S, 1 << 47))))
    Y = z3.LShR(v.size, 6)
    return lambda k, S: f(k, S, Y)


def word(c, st, v, k, bs, i=None):
    """word k of the vector (holding bit i) is inside m_data"""
    s = (bs // 64).bit_length() - 1
    if getattr(c, 'geo', None) is None:
        c.geo = geo(c, v, bs)
    if i is not None:
        c.step('superblock of the position', z3.LShR(i, s + 6) == z3.LShR(k, s), z3.LShR(i, 6) == k)
        st.assume(c.geo(k, z3.LShR(i, s + 6)))
    st.assume(c.geo(k, z3.LShR(k, s)))
    st.use('word', k)


def rs(c, p, b, bs):
    return c.obj('rs', 32, {0: (8, p), 8: (8, bs.bit_length() - 1), 16: (8, bs - 1), 24: (8, (bs // 64).bit_length() - 1)}, ro=True)


def t_rctor(c, b, bs):
    v, P, rank = setup(c, '1')
    p, blocks, sup = il(c, v, bs)
    o = c.obj('rs', 32)
    for st, r in c.call('rctor%d_%d' % (b, bs), [o, p]):
        c.reach(st, 'ctor')
        c.ensures(st, 'the vector is remembered', z3.BoolVal(ptr_is(c.ld(st, o, 0, 8), p, 0)))
        for off, x in ((8, bs.bit_length() - 1), (16, bs - 1), (24, (bs // 64).bit_length() - 1)):
            c.ensures(st, 'rank constant @%d' % off, B(c.ld(st, o, off, 8), 64) == x)


def t_sctor(c, b, bs):
    v, P, rank = setup(c, '1')
    p, blocks, sup = il(c, v, bs)
    o = c.obj('ss', 32)
    for st, r in c.call('sctor%d_%d' % (b, bs), [o, p]):
        c.reach(st, 'ctor')
        c.ensures(st, 'the vector is remembered', z3.BoolVal(ptr_is(c.ld(st, o, 0, 8), p, 0)))
        for off, x in ((16, bs.bit_length() - 1), (24, (bs // 64).bit_length() - 1)):
            c.ensures(st, 'select constant @%d' % off, B(c.ld(st, o, off, 8), 64) == x)


def t_rank(c, b, bs):
    v, P, rank = setup(c, '1')
    p, blocks, sup = il(c, v, bs)
    o = rs(c, p, b, bs)
    i = c.bv('i')
    c.assume(U(i, v.size))
    sh = (bs // 64).bit_length() - 1
    k, first = z3.LShR(i, 6), z3.LShR(z3.LShR(i, 6), sh) << sh
    for t in (k, first):
        word(c, c.st, v, t, bs)
        c.st.use('cw', t)
    c.assume(th.pop_zero(P(k) & lo(i & 63)))

    def inv(Lc):
        bits = Lc.v('bits')
        d = B(Lc.raw('B').o.div(8), 64)
        w = k - z3.LShR(bits, 6)
        word(c, Lc.st, v, w, bs)
        Lc.st.assume(c.geo(w, z3.LShR(first, sh)))
        Lc.st.use('cw', w)
        Lc.st.assume(th.pop_not(P(w)))
        c1 = CW(w)
        return [('words left', z3.And(bits & 63 == 0, U(bits, bs - 64), U(z3.LShR(bits, 6), k - first))), ('position', d == spos(z3.LShR(first, sh), bs) + 1 + (w - first)),
                ('so far', Lc.v('resp') == (c1 if b else (w << 6) - c1))]
    c.e.loopspecs = [LoopSpec(r'rank_support_il<.*>::rank%d\(' % b, 0, inv, variant=lambda Lc: Lc.v('bits'), vars=('bits', 'B', 'resp'))]
    x = P(k)
    m = lo(i & 63)
    c.assume(th.pre_not(x, i & 63))
    for st, r in c.call('rank%d_%d' % (b, bs), [o, i]):
        c.reach(st, 'rank')
        c.ensures(st, 'rank(i) is the number of %d bits before i' % b, B(r, 64) == (rank(i) if b else i - rank(i)))


BV64 = z3.BitVecSort(64)
LB, RB = z3.Function('LB', BV64, BV64), z3.Function('RB', BV64, BV64)      # interval of node i of the binary search tree


def t_select(c, b, bs, samples):
    pat = str(b)
    v, P, rank = setup(c, pat)
    c.vv, c.pat = v, pat
    n, hints = args(c, pat, P, v.size, rank)
    p, blocks, sup = il(c, v, bs, samples, pat)
    i = c.bv('i')
    c.assume(U(1, i), U(i, n), U(n, v.size))
    i0 = i - 1
    T = SELP(i0)
    sh, bsh = (bs // 64).bit_length() - 1, bs.bit_length() - 1
    o = c.obj('ss', 32, {0: (8, p), 16: (8, bsh), 24: (8, sh)}, ro=True)
    hints(c.st, i0)
    tw, to = z3.LShR(T, 6), T & 63
    S = z3.LShR(tw, sh)
    c.st.use('cw', tw)
    c.assume(th.pre_le(P(tw), to + 1), th.pre_step(P(tw), to))
    c.step('word of the occurrence', U(tw, z3.LShR(v.size, 6)), U(CW(tw), i0), U(i, CW(tw + 1)))
    c.step('superblock of the occurrence', L(S, sup), U(S << sh, tw))
    if samples:
        def heap(k):
            mid = LB(k) + z3.LShR(RB(k) - LB(k), 1)
            cnt = CW(mid << sh) if b else (mid << bsh) - CW(mid << sh)
            return z3.Implies(L(k, c.samples), z3.And(LB(2 * k + 1) == LB(k), RB(2 * k + 1) == mid, LB(2 * k + 2) == mid + 1, RB(2 * k + 2) == RB(k), c.S[k] == cnt))
        c.st.facts.append(Quant('heap', heap))
        c.assume(LB(Z(0)) == 0, RB(Z(0)) == sup)

    def inv1(Lc):
        lb, rb = Lc.v('lb'), Lc.v('rb')
        mid = z3.LShR(lb + rb, 1)
        s2 = Lc.st
        word(c, s2, v, mid << sh, bs)
        s2.assume(c.geo(mid << sh, mid))
        s2.use('cw', mid << sh)
        for l in (cw_mono(c, mid << sh, tw), cw_mono(c, tw + 1, mid << sh)):
            s2.assume(l)
        r = [('interval', z3.And(U(lb, S + 1), U(S + 1, rb), U(rb, sup)))]
        if samples:
            ix = Lc.v('idx')
            s2.use('heap', ix)
            r.append(('node', z3.And(U(ix, 2050), z3.Implies(L(ix, c.samples), z3.And(LB(ix) == lb, RB(ix) == rb)))))
        else:
            r.append(('no samples', Lc.v('idx') == 0))
        return r

    def inv2(Lc):
        d, j, res = B(Lc.raw('w').o.div(8), 64), Lc.v('i'), Lc.v('res')
        cn = Lc.v('ones' if b else 'zeros')
        k = z3.LShR(res, 6)
        s2 = Lc.st
        for t in (k, k + 1):
            word(c, s2, v, t, bs)
            s2.assume(c.geo(t, S))
        s2.use('cw', k)
        s2.assume(cw_mono(c, tw + 1, k + 1))
        return [('position', z3.And(res & 63 == 0, U(S << sh, k), U(k, tw), d == k + S + 1)), ('count of the word', cn == POP(P(k))), ('left', z3.And(j == i - CW(k), U(1, j)))]
    F = r'select_support_il<.*>::select%d\(' % b
    word(c, c.st, v, S << sh, bs)
    c.assume(c.geo(S << sh, S))
    c.st.use('cw', S << sh)
    c.assume(cw_mono(c, S << sh, tw))
    c.e.loopspecs = [LoopSpec(F, 0, inv1, variant=lambda Lc: Lc.v('rb') - Lc.v('lb'), vars=('lb', 'rb', 'idx')),
                     LoopSpec(F, 1, inv2, variant=lambda Lc: tw - z3.LShR(Lc.v('res'), 6), vars=('w', 'i', 'res', 'ones' if b else 'zeros'))]
    for st, r in c.call('select%d_%d' % (b, bs), [o, i]):
        c.reach(st, 'select')
        selpost(c, st, 'select', B(r, 64), i0, v.size, P, T, rank)


def t_ctor(c, bs):
    v, P, rank = setup(c, '1')
    blocks, sup, mem = sizes(v, bs)
    sh = (bs // 64).bit_length() - 1
    sr = bs // 64
    p = c.obj('il', 96)
    A = v.A()

    def inv(Lc):
        i, j = Lc.v('i'), Lc.v('j')
        q = c.ld(Lc.st, p, 40, 8)
        D = Lc.arr(q)
        word(c, Lc.st, v, i, bs)
        for t in (i - 1, i):
            Lc.st.use('cw', t)
        return [('position', z3.And(U(i, blocks), j == i + z3.LShR(i + sr - 1, sh), Lc.v('sample_cnt') == z3.If(i & (sr - 1) == 0, Z(sr), i & (sr - 1)))),
                ('bounds', z3.And(U(z3.LShR(i + sr - 1, sh), sup))),
                ('allocation', z3.And(B(c.ld(Lc.st, p, 32, 8), 64) == mem << 6, z3.BoolVal(q.o.const() and q.o.c == 0))),
                ('sum', Lc.v('cum_sum') == CW(i)), ('words and counts', Quant(('data', 'cw'), layout(D, A, bs, i)))]
    c.e.loopspecs = [LoopSpec(r'bit_vector_il<.*>::bit_vector_il\(', 0, inv, variant=lambda Lc: blocks - Lc.v('i'))]
    for st, r in c.call('ctor_%d' % bs, [p, v.p]):
        c.reach(st, 'ctor')
        q = c.ld(st, p, 40, 8)
        D = c.A(st, q)
        for off, x, w in ((0, v.size, 'size'), (8, mem, 'words of m_data'), (16, sup, 'superblocks'), (24, Z(bs.bit_length() - 1), 'shift'), (32, mem << 6, 'm_data.size()')):
            c.ensures(st, w, B(c.ld(st, p, off, 8), 64) == x)
        c.ensures(st, 'words and counts', Quant('data', layout(D, A, bs, blocks)))


def _samples(e, st, args):
    """assumed: init_rank_samples changes nothing but the elements of m_rank_samples"""
    return [(st, None)]


SAMPLES = MemContract('bit_vector_il::init_rank_samples', r'^sdsl::bit_vector_il<.*>::init_rank_samples\(\)$', _samples)


SHARDS = {'select': 3, 'ctor-': 3, 'rank': 2}
HARD = ('select', 'ctor')


def tasks(tier):
    r = []
    for b in BS:
        if tier != 'thorough' and b not in (64, 512):
            continue
        r += [('ctor-%d' % b, t_ctor, (b,), ''), ('at-%d' % b, t_at, (b,), ''), ('get_int-%d' % b, t_int, (b,), '')]
        for p in (0, 1):
            r += [('rctor%d-%d' % (p, b), t_rctor, (p, b), ''), ('sctor%d-%d' % (p, b), t_sctor, (p, b), ''), ('rank%d-%d' % (p, b), t_rank, (p, b), '')]
            r += [('select%d-%d%s' % (p, b, '-samples' if s else ''), t_select, (p, b, s), '') for s in (False, True)
                  if (b == 512 or not s) and (tier == 'thorough' or not s and (b, p) != (512, 0))]
    return r


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + RW + VNEW + [SAMPLES], externs=EXT)
