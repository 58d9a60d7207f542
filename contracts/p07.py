"""P07: select supports select_support_mcl and select_support_scan for the patterns 1, 0, 10, 01, 11, 00."""
from .common import *
from .p06 import CW, pw, PATS, setup, Z, EXT, DRIVER_LIBS
from engine import theory as th

TITLE = 'select supports'
SCAN = [p for p in PATS if p != '11']
UNIT = '''
#include <sdsl/int_vector.hpp>
#include <sdsl/select_support.hpp>
#include <new>
using namespace sdsl;
extern "C" {
uint64_t cnt1(const bit_vector& v){ return util::cnt_one_bits(v); }
''' + ''.join('''
typedef select_support_mcl<%(b)d,%(l)d> S_%(n)s; typedef select_support_trait<%(b)d,%(l)d> T_%(n)s;
uint64_t mcl_%(n)s(const S_%(n)s& r, uint64_t i){ return r.S_%(n)s::select(i); }
uint64_t call_%(n)s(const S_%(n)s& r, uint64_t i){ return r.S_%(n)s::operator()(i); }
uint64_t cnt_%(n)s(const bit_vector& v){ return T_%(n)s::arg_cnt(v); }
bool found_%(n)s(const bit_vector& v, uint64_t i){ return T_%(n)s::found_arg(i,v); }
uint64_t initdata_%(n)s(S_%(n)s& s){ s.set_vector(nullptr); return 0; }
''' % dict(n=p, b=PATS[p][0], l=PATS[p][1]) for p in PATS) + ''.join('''
typedef select_support_scan<%(b)d,%(l)d> C_%(n)s;
uint64_t scan_%(n)s(const C_%(n)s& r, uint64_t i){ return r.C_%(n)s::select(i); }
uint64_t scancall_%(n)s(const C_%(n)s& r, uint64_t i){ return r.C_%(n)s::operator()(i); }
''' % dict(n=p, b=PATS[p][0], l=PATS[p][1]) for p in SCAN) + '}\n'
LIBS = ['bits.cpp']
ASSUMPTIONS = ['bit vectors hold at most 2^52 bits']
TRUSTED = ['the class invariant of select_support_mcl (superblock, miniblock and long superblock entries) is assumed by select(); its constructors, copy and load are bounded (driver)']
SELP = z3.Function('SELP', z3.BitVecSort(64), z3.BitVecSort(64))     # position of the a-th occurrence (from 0)


def cw_mono(c, k, m):
    """k <= m implies CW(k) <= CW(m): by induction on m, base and step are obligations of the task"""
    if not getattr(c, 'mono_done', False):
        c.mono_done = True
        a, b, p = c.bv('k'), c.bv('m'), c.bv('p')
        s = State()
        c.ensures(s, 'monotone counts: step', z3.Implies(z3.And(U(CW(a), CW(b)), U(CW(b), 1 << 58), U(p, 64), CW(b + 1) == CW(b) + p), U(CW(a), CW(b + 1))))
    return z3.Implies(z3.And(U(k, m), U(m, 1 << 50)), U(CW(k), CW(m)))


def args(c, pat, P, size, rank):
    """the occurrences of the vector: number and positions"""
    n = rank(size)

    def f(a):
        s = SELP(a)
        w, o = z3.LShR(s, 6), s & 63
        return z3.Implies(L(a, n), z3.And(L(s, size), bit(P(w), o) == 1, CW(w) + pre(P(w), o) == a))
    c.st.facts.append(Quant('arg', f))

    def hints(st, a):
        """use SELP(a)"""
        st.use('arg', a)
        w, o = z3.LShR(SELP(a), 6), SELP(a) & 63
        st.use('cw', w)
        for l in (th.pre_step(P(w), o), th.pre_le(P(w), o), th.pre_le(P(w), o + 1)):
            st.assume(l)
    return n, hints


def selpost(c, st, what, r, i0, size, P, T, rank):
    """r is the position of the occurrence number i0"""
    w, o = z3.LShR(r, 6), r & 63
    st = st.copy()
    st.use('cw', w)
    st.use('cw', z3.LShR(size, 6))
    tw, to = z3.LShR(T, 6), T & 63
    for l in (th.pre_step(P(w), o), th.pre_le(P(w), o), th.pre_le(P(w), o + 1), cw_mono(c, w + 1, tw), cw_mono(c, tw + 1, w)):
        st.assume(l)
    c.ensures(st, what + ': a position where the pattern ends', bit(P(w), o) == 1)
    c.ensures(st, what + ': with i-1 occurrences before', CW(w) + pre(P(w), o) == i0)
    # positions with these two properties are unique
    x = P(w)
    y, z = x & lo(o), x & lo(to)
    st.assume(z3.And(bit(x, o) == 1, CW(w) + pre(x, o) == i0))
    for l in (th.pre_le(x, to), th.pre_step(x, to), th.pop_disjoint(x & lo(o + 1), (x & lo(to)) & ~lo(o + 1)), th.pop_disjoint(x & lo(to + 1), (x & lo(o)) & ~lo(to + 1))):
        st.assume(l)
    c.ensures(st, what + ': the result is in the same word as the occurrence', w == tw)
    st.assume(w == tw)
    c.ensures(st, what + ': the result is the position of the i-th occurrence', r == T)


def scan_spec(F, c, P, i0, base, T, st0=None):
    """loop over whole words: `base` occurrences are before the search position"""
    def inv(Lc):
        wp, s, a = Lc.v('word_pos'), Lc.v('sum_args'), Lc.v('args')
        dp = B(Lc.raw('data').o.div(8), 64)
        A = c.vv.A()
        tw = z3.LShR(T, 6)
        for t in (wp, wp - 1, tw):
            Lc.st.use('cw', t)
        Lc.st.assume(cw_mono(c, tw + 1, wp + 1))
        r = [('position', z3.And(dp == wp, U(1, wp), U(wp, tw))), ('occurrences before the word', s + base == CW(wp)),
             ('occurrences in the word', a == POP(P(wp))), ('not yet reached', L(s, Lc.v('i')))]
        if len(c.pat) == 2:
            r += [('carry', z3.And(Lc.v('old_carry') == z3.LShR(A[wp - 1], 63), Lc.v('carry') == z3.LShR(A[wp], 63)))]
        return r
    return LoopSpec(F, 0, inv, variant=lambda Lc: z3.LShR(T, 6) - Lc.v('word_pos'), vars=('word_pos', 'sum_args', 'args', 'data', 'old_carry', 'carry'))


def t_mcl(c, pat, f, case):
    v, P, rank = setup(c, pat)
    c.vv, c.pat = v, pat
    n, hints = args(c, pat, P, v.size, rank)
    i = c.bv('i')
    c.assume(U(1, i), U(i, n), U(n, v.size))
    i0 = i - 1
    sb, off = z3.LShR(i0, 12), i0 & 0xfff
    a = i0 & ~Z(63)
    nsb = z3.LShR(n + 4095, 12)
    S, T = SELP(a), SELP(i0)
    vt = c.obj('vtable', 64, {16: (8, FnPtr(c.find(r'^sdsl::select_support_mcl<\(unsigned char\)%d, \(unsigned char\)%d>::select\(' % PATS[pat])))})
    bv64 = z3.BitVecSort(64)
    SUP, MINI, LNG, NL = z3.Function('SUPER', bv64, bv64), z3.Function('MINI', bv64, bv64, bv64), z3.Function('LONG', bv64, bv64, bv64), z3.Function('NLONG', bv64, bv64)
    mini = absvec(c, 'mini', lambda j, k: MINI(j, k), lambda j: Z(64), 32, nsb)
    lng = Ptr(None) if case == 'nolong' else absvec(c, 'long', lambda j, k: LNG(j, k), lambda j: NL(j), 32, nsb)
    p = c.obj('ss', 96, {0: (8, vt), 8: (8, v.p), 16: (8, v.p), 24: (4, c.bv('logn', 32)), 28: (4, c.bv('logn2', 32)), 32: (4, c.bv('logn4', 32)),
                         72: (8, lng), 80: (8, mini), 88: (8, n)}, ro=True)
    absvec(c, 'super', lambda k: SUP(k), nsb, at=p.addc(40))
    # class invariant for this query
    if case != 'nolong':
        c.assume(NL(sb) == (0 if case == 'mini' else 4096))
    if case == 'long':
        c.assume(LNG(sb, off) == T)
    else:
        c.assume(SUP(sb) + MINI(sb, z3.LShR(off, 6)) == S)
    hints(c.st, a)
    hints(c.st, i0)
    pos = S + 1
    w, o = z3.LShR(pos, 6), pos & 63
    x = P(w)
    tw, to = z3.LShR(T, 6), T & 63
    sw = z3.LShR(S, 6)
    c.st.use('cw', w)
    y = P(tw)
    for l in (th.pre_le(x, o), th.pre_le(x, to), th.pre_le(x, to + 1), th.pre_step(x, to), th.pop_disjoint(x & lo(o), x & ~lo(o)), cw_mono(c, tw + 1, sw), cw_mono(c, tw + 1, w), cw_mono(c, sw + 1, tw)):
        c.assume(l)
    if pat == '11':
        c.assume(th.pop_split(x, o))
    if case != 'long':
        c.step('the next occurrences start in or after the word of the block start', z3.Implies(i0 != a, z3.And(U(sw, tw), CW(w) + pre(x, o) == a + 1)))
        s2 = P(sw)
        for l in (th.pop_disjoint(s2 & lo(to + 1), (s2 & lo(S & 63)) & ~lo(to + 1)),):
            c.assume(l)
        c.step('the search starts at or before the word of the occurrence', z3.Implies(i0 != a, U(w, tw)))
    F = r'select_support_mcl<.*>::select\('
    c.e.loopspecs = [scan_spec(F, c, P, i0, a + 1, T)]
    for st, r in c.call('%s_%s' % (f, pat), [p, i]):
        c.reach(st, case)
        r = B(r, 64)
        k, b = z3.LShR(r, 6), r & 63
        y = P(k)
        for l in (th.pop_disjoint((y & lo(b)) & lo(o), (y & lo(b)) & ~lo(o)), th.pre_le(y, b)):
            st.assume(l)
        selpost(c, st, 'select', r, i0, v.size, P, T, rank)


def t_scan(c, pat, f):
    v, P, rank = setup(c, pat)
    c.vv, c.pat = v, pat
    n, hints = args(c, pat, P, v.size, rank)
    i = c.bv('i')
    c.assume(U(1, i), U(i, n), U(n, v.size))
    i0 = i - 1
    T = SELP(i0)
    vt = c.obj('vtable', 64, {16: (8, FnPtr(c.find(r'^sdsl::select_support_scan<\(unsigned char\)%d, \(unsigned char\)%d>::select\(' % PATS[pat])))})
    p = c.obj('ss', 24, {0: (8, vt), 8: (8, v.p), 16: (8, v.p)}, ro=True)
    hints(c.st, i0)
    tw, to = z3.LShR(T, 6), T & 63
    c.st.use('cw', Z(0))
    c.assume(cw_mono(c, tw + 1, Z(1)), th.pre_le(P(tw), to + 1), th.pop_zero(Z(0)))
    c.e.loopspecs = [scan_spec(r'select_support_scan<.*>::select\(', c, P, i0, Z(0), T)]
    for st, r in c.call('%s_%s' % (f, pat), [p, i]):
        c.reach(st, 'scan')
        selpost(c, st, 'select', B(r, 64), i0, v.size, P, T, rank)


def t_cnt(c, pat, f=None):
    """arg_cnt: number of occurrences in the vector (for 0: the size minus the number of ones)"""
    q = '1' if pat == '0' else pat
    v, P, rank = setup(c, q)
    words = z3.LShR(v.size + 63, 6)

    def inv(Lc):
        i = Lc.v('i')
        A = v.A()
        c.st.use('cw', i)
        Lc.st.use('cw', i)
        Lc.st.use('cw', i - 1)
        r = [('position', z3.And(U(1, i), U(i, words), B(Lc.raw('data').o.div(8), 64) == i - 1)), ('so far', Lc.v('result') == CW(i))]
        if len(q) == 2:
            r.append(('carry', z3.And(Lc.v('carry') == z3.LShR(A[i - 1], 63), Lc.v('oldcarry') == z3.If(i == 1, Z(1 if q == '01' else 0), z3.LShR(A[i - 2], 63)))))
        return r

    def inv2(Lc):
        k = B(Lc.raw('data').o.div(8), 64)
        A = v.A()
        Lc.st.use('cw', k)
        return [('position', z3.And(U(k, z3.LShR(v.size, 6)), B(Lc.raw('end').o.div(8), 64) == z3.LShR(v.size, 6))), ('so far', Lc.v('result') == CW(k)),
                ('carry', Lc.v('carry') == z3.If(k == 0, Z(1 if q == '00' else 0), z3.LShR(A[k - 1], 63)))]
    c.e.loopspecs = [LoopSpec(r'util::cnt_', 0, inv, variant=lambda Lc: words - Lc.v('i')),
                     LoopSpec(r'select_support_trait<.*>::arg_cnt', 0, inv2, variant=lambda Lc: z3.LShR(v.size, 6) - B(Lc.raw('data').o.div(8), 64), vars=('data', 'end', 'result', 'carry'))]
    w = z3.LShR(v.size, 6)
    for t in (w, w - 1, Z(0)):
        c.st.use('cw', t)
    x = P(w)
    c.assume(th.pop_disjoint(x & lo(v.size & 63), x & ~lo(v.size & 63)), th.pop_zero(x & lo(v.size & 63)))
    for st, r in c.call(f or 'cnt_' + pat, [v.p]):
        c.reach(st, 'count')
        c.ensures(st, 'number of occurrences', B(r, 64) == (v.size - rank(v.size) if pat == '0' else rank(v.size)))


def t_found(c, pat):
    v, P, rank = setup(c, pat)
    i = c.bv('i')
    c.assume(L(i, v.size))
    for st, r in c.call('found_' + pat, [v.p, i]):
        c.reach(st, 'found')
        c.ensures(st, 'an occurrence ends at i', Bo(r) == (bit(P(z3.LShR(i, 6)), i & 63) == 1))


BUDGET = 300.0
SHARDS = {'mini': 3, 'nolong': 3}
HARD = ('mini', 'nolong')


def tasks(tier):
    r = [('cnt_one_bits', t_cnt, ('1', 'cnt1'), '')]
    for p in PATS:
        r += [('arg_cnt-' + p, t_cnt, (p,), ''), ('found_arg-' + p, t_found, (p,), '')]
        r += [('mcl-%s-%s' % (p, k), t_mcl, (p, 'mcl', k), '') for k in ('long', 'mini', 'nolong') if (k != 'nolong' or p in '1') and (tier == 'thorough' or k != 'mini' or p in ('0', '1'))] + [('mclcall-%s-long' % p, t_mcl, (p, 'call', 'long'), '')]
    r += [('%s-%s' % (f, p), t_scan, (p, f), '') for p in SCAN for f in ('scan', 'scancall')]
    return r


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + RW + (AV if name.startswith('mcl') else []), externs=EXT)
