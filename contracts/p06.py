"""P06: rank supports rank_support_v, rank_support_v5, rank_support_scan for the patterns 1, 0, 10, 01, 11, 00."""
from .common import *
from engine import theory as th

TITLE = 'rank supports'
PATS = {'1': (1, 1), '0': (0, 1), '10': (10, 2), '01': (1, 2), '11': (11, 2), '00': (0, 2)}
KINDS = {'v': 'rank_support_v', 'v5': 'rank_support_v5', 'scan': 'rank_support_scan'}
UNIT = '''
#include <sdsl/int_vector.hpp>
#include <sdsl/rank_support.hpp>
#include <new>
using namespace sdsl;
extern "C" {
''' + ''.join('''
typedef %(t)s<%(b)d,%(l)d> R_%(n)s;
void ctor_%(n)s(R_%(n)s* r, const bit_vector* v){ new (r) R_%(n)s(v); }
uint64_t rank_%(n)s(const R_%(n)s& r, uint64_t i){ return r.R_%(n)s::rank(i); }
uint64_t call_%(n)s(const R_%(n)s& r, uint64_t i){ return r.R_%(n)s::operator()(i); }
uint64_t size_%(n)s(const R_%(n)s& r){ return r.size(); }
''' % dict(t=KINDS[k], n=k + '_' + p, b=PATS[p][0], l=PATS[p][1]) for k in KINDS for p in PATS) + '}\n'
LIBS = ['bits.cpp']
DRIVER_LIBS = ['bits.cpp', 'util.cpp', 'memory_management.cpp', 'ram_fs.cpp', 'ram_filebuf.cpp', 'structure_tree.cpp', 'sfstream.cpp', 'io.cpp', 'config.cpp']
ASSUMPTIONS = ['bit vectors hold at most 2^52 bits']
Z = lambda v, w=64: z3.BitVecVal(v, w)
CW = z3.Function('CW', z3.BitVecSort(64), z3.BitVecSort(64))     # pattern occurrences in the words before word k


def pw(A, pat):
    """word k of the map of pattern positions: bit i set iff the pattern ends at bit 64k+i"""
    def f(k):
        x = A[k]
        y = (x << 1) | z3.If(k == 0, Z(1 if pat in ('01', '00') else 0), z3.LShR(A[k - 1], 63))
        return {'1': x, '0': ~x, '10': ~x & y, '01': x & ~y, '11': x & y, '00': ~x & ~y}[pat]
    return f


def setup(c, pat, ro=True, n=None):
    """bit vector v and the definition of CW over its words"""
    v = IV(c, 'v', width=1, size=c.bv('n'), ro=ro)
    c.assume(U(v.size, th.NMAX), CW(Z(0)) == 0)
    P = pw(v.A(), pat)
    # recursive definition (total over the words of the vector); CW(k) <= 64k
    c.st.facts.append(Quant(('v_data', 'cw'), lambda k: z3.Implies(U(k, 1 << 54), z3.And(CW(k + 1) == CW(k) + POP(P(k)), U(POP(P(k)), 64), U(CW(k), k << 6)))))
    th.USED.add('pop_le_64')

    def rank(i):
        k = z3.LShR(i, 6)
        return CW(k) + POP(P(k) & lo(i & 63))
    return v, P, rank


BLK = {'v': (3, 9, 63, 8, 1), 'v5': (5, 12, 60, 6, 6)}     # log2 words per block, bits per count, shift, counts, words per count


def rel(kind, x, m):
    """m-th relative count of the packed word x"""
    sh, bits = (63, 9) if kind == 'v' else (60, 12)
    msk = 0x1ff if kind == 'v' else 0x7ff
    return z3.LShR(x, Z(sh) - bits * m) & msk


def block_inv(kind, Bk, words, upto=None):
    """B[2j] = CW(first word of block j); relative counts in B[2j+1]"""
    lg = 3 if kind == 'v' else 5
    step = 1 if kind == 'v' else 6

    def f(k):
        j = z3.LShR(k, lg)
        r = k & ((1 << lg) - 1)
        b = j << lg
        g = U(k, words) if upto is None else L(j, upto)
        g = z3.And(g, U(k, 1 << 50))
        ok = z3.BoolVal(True) if kind == 'v' else binop('urem', 64, r, 6) == 0
        m = r if kind == 'v' else binop('udiv', 64, r, 6)
        return z3.Implies(g, z3.And(Bk[2 * j] == CW(b), z3.Implies(ok, rel(kind, Bk[2 * j + 1], m) == CW(k) - CW(b))))
    return f


def rs_obj(c, kind, v, pat, ro=True):
    words = z3.LShR(v.size + 63, 6)
    vt = c.obj('vtable', 64, {16: (8, FnPtr(c.find(r'^sdsl::%s<\(unsigned char\)%d, \(unsigned char\)%d>::rank\(' % ((KINDS[kind],) + PATS[pat]))))})
    if kind == 'scan':
        return c.obj('rs', 16, {0: (8, vt), 8: (8, v.p)}, ro=ro), words
    sh = 9 if kind == 'v' else 11
    nb = (z3.LShR(words << 6, sh) + 1) << 1
    bb = c.bb = c.arr('bb_data', nb + 1, ro=ro)
    p = c.obj('rs', 48, {0: (8, vt), 8: (8, v.p), 16: (8, nb << 6), 24: (8, bb), 32: (1, 64)}, ro=ro)
    c.st.facts.append(Quant(('bb_word', 'cw'), block_inv(kind, c.A(c.st, bb), words)))
    return p, words


def t_rank(c, kind, pat, f='rank', d=None):
    """v5: d = number of the relative count (w%32)/6 that is used, one task for each"""
    v, P, rank = setup(c, pat)
    i = c.bv('i')
    c.assume(U(i, v.size))
    p, words = rs_obj(c, kind, v, pat)
    w = z3.LShR(i, 6)
    if kind != 'scan':
        c.assume(z3.Or(L(z3.LShR(i, 6), words), z3.And(i & 63 == 0, z3.LShR(i, 6) == words)))
        for t in ((w, z3.LShR(w, 3) << 3) if kind == 'v' else (w, z3.LShR(w, 5) << 5, (z3.LShR(w, 5) << 5) + 6 * d)):
            c.st.use('bb_word', t)
    c.st.use('cw', w)
    specs = []
    if kind == 'v5':
        c.assume(U(6 * d, w & 31), L(w & 31, 6 * d + 6), binop('udiv', 64, w & 31, 6) == d, binop('urem', 64, w & 31, 6) == (w & 31) - 6 * d)
        b, Bk, ix = z3.LShR(w, 5) << 5, c.A(c.st, c.bb), z3.LShR(i, 10) & Z(M64 - 1)
        k = b + 6 * d
        c.step('block of i', ix == 2 * z3.LShR(k, 5), z3.LShR(k, 5) << 5 == b, k & 31 == 6 * d)
        c.step('relative count number', binop('udiv', 64, k & 31, 6) == d, binop('urem', 64, k & 31, 6) == 0, binop('udiv', 64, i & 0x7ff, 384) == d)
        c.step('stored counts', Bk[ix] == CW(b), z3.LShR(Bk[ix + 1], 60 - 12 * d) & 0x7ff == CW(k) - CW(b))
    c.assume(th.pop_zero(P(w) & lo(i & 63)))
    if kind == 'v5':
        def inv(Lc):
            ix, td = Lc.v('idx'), Lc.v('to_do')
            k = z3.LShR(ix + 64 - (i & 63) if False else ix + 1, 6)
            Lc.st.use('cw', k - 1)
            return [('words left', z3.And(U(td, 5), U(td, w), (ix + 1) & 63 == 0, ix + 1 == (w - (binop('urem', 64, w & 31, 6) - td)) << 6, U(td, binop('urem', 64, w & 31, 6)))),
                    ('so far', Lc.v('result') == CW(w - binop('urem', 64, w & 31, 6)) + POP(P(w) & lo(i & 63)) + CW(w) - CW(k))]
        specs = [LoopSpec(r'rank_support_v5<.*>::rank\(', 0, inv, variant=lambda Lc: Lc.v('to_do'))]
    if kind == 'scan':
        def inv2(Lc):
            ii = Lc.v('i')
            Lc.st.use('cw', z3.LShR(ii, 6))
            return [('whole words', z3.And(ii & 63 == 0, U(ii, i))), ('so far', Lc.v('result') == CW(z3.LShR(ii, 6)))]
        specs = [LoopSpec(r'rank_support_scan<.*>::rank\(', 0, inv2, variant=lambda Lc: i - Lc.v('i'))]
    c.e.loopspecs = specs
    for st, r in c.call('%s_%s_%s' % (f, kind, pat), [p, i]):
        c.reach(st, 'rank')
        c.ensures(st, 'rank(i) is the number of occurrences of %s ending before i' % pat, B(r, 64) == rank(i))


def t_size(c, kind, pat):
    v, P, rank = setup(c, pat)
    p, words = rs_obj(c, kind, v, pat)
    for st, r in c.call('size_%s_%s' % (kind, pat), [p]):
        c.reach(st, 'size')
        c.ensures(st, 'size() is the length of the bit vector', B(r, 64) == v.size)


def t_ctor(c, kind, pat, empty=False):
    v, P, rank = setup(c, pat)
    c.assume(v.size == 0 if empty else v.size != 0)
    words = z3.LShR(v.size + 63, 6)
    rs = c.obj('rs', 48 if kind != 'scan' else 16)
    lg, step = (3, 1) if kind == 'v' else (5, 6)

    def inv(Lc):
        i, j, s, x = Lc.v('i'), Lc.v('j'), Lc.v('sum'), Lc.v('second_level_cnt')
        A = v.A()
        q = c.ld(Lc.st, rs, 24, 8)
        Bk = Lc.arr(q)
        J = z3.LShR(i - 1, lg)
        b = J << lg
        Lc.st.use('cw', i - 1)
        Lc.st.use('cw', i)
        dp = Lc.raw('data').o.div(8)
        last = (i - 1) & ((1 << lg) - 1)
        r = [('position', z3.And(U(1, i), U(i, words), B(dp, 64) == i - 1, j == 2 * J)),
             ('allocation', z3.And(B(c.ld(Lc.st, rs, 16, 8), 64) == ((z3.LShR(words << 6, lg + 6) + 1) << 7), z3.BoolVal(q.o.const() and q.o.c == 0))),
             ('sum', z3.And(s == CW(i) - CW(b), U(CW(b), CW(i)), U(s, (last + 1) << 6))),
             ('carry', Lc.v('carry') == (z3.LShR(A[i - 1], 63) if len(pat) == 2 else Z(1 if pat in ('01', '00') else 0))),
             ('current block', Bk[j] == CW(b)),
             ('finished blocks', Quant(('bb_word', 'cw'), block_inv(kind, Bk, None, upto=J)))]
        if kind == 'v5':
            r.append(('counter', Lc.v('cnt_words') == last + 1))
        for m in range(0, 8 if kind == 'v' else 6):
            r.append(('packed count %d' % m, rel(kind, x, Z(m)) == z3.If(U(m * step, last), CW(b + m * step) - CW(b), Z(0))))
        if kind == 'v5':
            r.append(('unused bits', x & Z(0x8008008008008000 >> 0) & 0 == 0))
        return r
    c.e.loopspecs = [LoopSpec(r'rank_support_v5?<.*>::rank_support_v5?\(', 0, inv, variant=lambda Lc: words - Lc.v('i'), vars=('data',))]
    for st, r in c.call('ctor_%s_%s' % (kind, pat), [rs, v.p]):
        c.reach(st, 'ctor')
        c.ensures(st, 'the bit vector is remembered', z3.BoolVal(ptr_is(c.ld(st, rs, 8, 8), v.p, 0)))
        if kind == 'scan':
            continue
        q = c.ld(st, rs, 24, 8)
        if empty:
            for o in (0, 8):
                c.ensures(st, 'empty vector: count %d' % o, B(c.ld(st, q, o, 8), 64) == 0)
            continue
        Bk = c.A(st, q)
        nb = (z3.LShR(words << 6, lg + 6) + 1) << 1
        c.ensures(st, 'size of the blocks', B(c.ld(st, rs, 16, 8), 64) == nb << 6)
        c.ensures(st, 'block and relative counts', Quant('bb_word', block_inv(kind, Bk, words)))


def tasks(tier):
    r = []
    for p in PATS:
        for k in KINDS:
            r += [('%s-%s-%s%s' % (f, k, p, '' if d is None else '-%d' % d), t_rank, (k, p, f, d), '') for f in ('rank', 'call') for d in (range(6) if k == 'v5' and f == 'rank' else (None,)) if k != 'v5' or f == 'rank']
            r += [('ctor-%s-%s' % (k, p), t_ctor, (k, p), '')] if tier == 'thorough' or k == 'scan' or p in ('1', '01', '10') else []
            r += [('ctor-%s-%s-empty' % (k, p), t_ctor, (k, p, True), '')] if k != 'scan' else []
            r += [('size-%s-%s' % (k, p), t_size, (k, p), '')]
    return r


EXT = {'fns': [(r'memory_monitor::record\(', lambda e, st, a: [(st, None)])],
       'globals': [(r'the_managerEvE1m', lambda e, st, name, t: Obj('manager', 8, {0: (1, 0)}))]}


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + RW, externs=EXT)
