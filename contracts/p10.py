"""P10: sd_vector: access, rank, select over the Elias-Fano representation."""
from .common import *
from .p06 import Z, EXT
from .p06 import DRIVER_LIBS as _DL
from engine import theory as th

TITLE = 'sd_vector'
UNIT = '''
#include <sdsl/sd_vector.hpp>
using namespace sdsl;
typedef sd_vector<> S;
extern "C" {
uint64_t at(const S& v, uint64_t i){ return v[i]; }
uint64_t get(const S& v, uint64_t i, uint8_t l){ return v.get_int(i,l); }
uint64_t size(const S& v){ return v.size(); }
uint64_t hs1(const S::select_1_support_type& v, uint64_t i){ return v.S::select_1_support_type::operator()(i); }
uint64_t hs0(const S::select_0_support_type& v, uint64_t i){ return v.S::select_0_support_type::operator()(i); }
''' + ''.join('''
uint64_t rank%(b)d(const rank_support_sd<%(b)d>& r, uint64_t i){ return r(i); }
uint64_t select%(b)d(const select_support_sd<%(b)d>& r, uint64_t i){ return r(i); }
''' % dict(b=b) for b in (0, 1)) + '}\n'
LIBS = ['bits.cpp']
DRIVER_LIBS = _DL + ['rrr_vector_15.cpp', 'sd_vector.cpp']
ASSUMPTIONS = ['vectors of at most 2^52 bits']
TRUSTED = ['the class invariant of sd_vector (low parts and unary high parts of the positions) is assumed by the queries; the constructors, builder, copies and load are only covered by the bounded native driver',
           'select_support_mcl<1>, <0> of the high bits: contract proved by P07 (select); operator[] of low and high: contract proved by P03']
BV = z3.BitVecSort(64)
P = z3.Function('POS', BV, BV)          # position of the k-th one
F = z3.Function('UPTO', BV, BV)         # number of ones whose high part is at most z
RK = z3.Function('RANK', BV, BV)        # number of ones before position i
LOW = z3.Function('LOW', BV, BV)
HIGH = z3.Function('HIGH', BV, BV)
HI = z3.Function('HIPART', BV, BV)       # high part of the k-th position


class SD:
    def __init__(self, c):
        self.c = c
        self.n, self.m, self.w8 = c.bv('n'), c.bv('m'), c.bv('wl', 8)
        n, m = self.n, self.m
        w = self.w = z3.ZeroExt(56, self.w8)
        self.zeros = c.bv('zeros')                   # zeros in high
        c.assume(U(n, 1 << 52), U(m, n), U(Z(1), w), U(w, 53), L(z3.LShR(n, w), self.zeros), U(self.zeros, 1 << 53))
        p = self.p = c.obj('sd', 312, {0: (8, n), 8: (1, self.w8)}, ro=True)
        for o, t in ((272, 8), (280, 48), (288, 16), (296, 80), (304, 176)):
            c.st.mem[p.r].s[o] = (8, p.addc(t))
        for o, b in ((80, 1), (176, 0)):
            c.st.mem[p.r].s[o] = (8, c.obj('vtable', 64, {24: (8, FnPtr(c.find(r'^sdsl::select_support_mcl<\(unsigned char\)%d, \(unsigned char\)1>::operator\(\)\(' % b)))}))
        absvec(c, 'low', lambda k: LOW(k), m, at=p.addc(16))
        absvec(c, 'high', lambda k: HIGH(k), m + self.zeros, at=p.addc(48))
        # the ones in increasing order
        c.st.facts.append(Quant('one', lambda k: z3.Implies(L(k, m), z3.And(L(P(k), n), U(k, P(k)), HIGH(k + HI(k)) == 1, U(k + HI(k), P(k) + k), L(HI(k), self.zeros)))))
        c.st.facts.append(Quant(('one', 'onep'), lambda k: z3.Implies(L(k, m), z3.And(L(P(k), n), U(k, P(k))))))
        c.st.facts.append(Quant('parts', lambda k: z3.Implies(L(k, m), LOW(k) + (HI(k) << w) == P(k))))
        c.st.facts.append(Quant('zero', lambda z: z3.Implies(L(z, self.zeros), z3.And(U(F(z), m), HIGH(z + F(z)) == 0))))
        c.st.facts.append(Quant('rank', lambda i: z3.Implies(U(i, n), z3.And(U(RK(i), m), U(RK(i), i)))))

    def hi(self, k):
        return HI(k)

    def upto(self, z, k):
        """meaning of F for the one k"""
        return z3.Implies(z3.And(L(z, self.zeros), L(k, self.m)), z3.If(L(k, F(z)), U(self.hi(k), z), z3.UGT(self.hi(k), z)))

    def rk(self, i, k):
        """meaning of RK for the one k"""
        return z3.Implies(z3.And(U(i, self.n), L(k, self.m)), L(k, RK(i)) == L(P(k), i))

    def cmp(self, i, k):
        """positions with the same high part compare like their low parts (lemma proved once)"""
        c = self.c

        def f(p, q, w):
            m = lo(w)
            return z3.Implies(L(w, 64), z3.And(z3.Implies(z3.LShR(p, w) == z3.LShR(q, w), z3.And(L(p & m, q & m) == L(p, q), (p & m == q & m) == (p == q))),
                                               z3.Implies(L(z3.LShR(p, w), z3.LShR(q, w)), L(p, q)), z3.Implies(L(z3.LShR(q, w), z3.LShR(p, w)), L(q, p))))
        if not getattr(self, 'cmp_done', False):
            self.cmp_done = True
            c.ensures(State(), 'comparison by high and low part', f(c.bv('p'), c.bv('q'), c.bv('w')))
        z, v = z3.LShR(i, self.w), i & lo(self.w)
        return z3.Implies(L(k, self.m), z3.And(z3.Implies(HI(k) == z, z3.And(L(LOW(k), v) == L(P(k), i), (LOW(k) == v) == (P(k) == i))), z3.Implies(L(HI(k), z), L(P(k), i)), z3.Implies(L(z, HI(k)), L(i, P(k)))))

    def gap(self, k, j):
        """the positions are strictly increasing"""
        return z3.Implies(z3.And(U(k, j), L(j, self.m)), U(P(k) + (j - k), P(j)))


def _sel(b):
    def f(e, st, a):
        sd = e.sd
        if not (isinstance(a[0], Ptr) and a[0].r == sd.p.r and a[0].o.const() and a[0].o.c == (80 if b else 176)):
            return None
        i = B(a[1], 64)
        e.oblige(st, 'precondition of select_%d on the high bits: 1 <= i <= number of %ds' % (b, b), 'precondition', z3.And(U(1, i), U(i, sd.m if b else sd.zeros)))
        k = z3.simplify(i - 1)
        st.use('one' if b else 'zero', k)
        if b:
            st.use('parts', k)
        if not b:
            return [(st, k + F(k))]
        r = fresh('sel1', 64)
        st.assume(z3.And(r == k + sd.hi(k), r + 1 - i == sd.hi(k)))
        return [(st, r)]
    return MemContract('select_support_mcl<%d>::operator()' % b, r'^sdsl::select_support_mcl<\(unsigned char\)%d, \(unsigned char\)1>::operator\(\)\(unsigned long\) const$' % b, f)


SEL = [_sel(0), _sel(1)]


def _sel1(e, st, a):
    """select of the i-th one, proved by the task select1"""
    i = B(a[0], 64)
    e.oblige(st, 'precondition of select1: 1 <= i <= number of ones', 'precondition', z3.And(U(1, i), U(i, e.sd.m)))
    k = z3.simplify(i - 1)
    st.use('onep', k)
    return [(st, P(k))]


SEL1 = MemContract('select_support_sd_trait<1>::select', r'^sdsl::select_support_sd_trait<\(unsigned char\)1, .*>::select\(unsigned long, ', _sel1)


def scan_facts(sd, st, i, r):
    """facts about the one r while scanning down from position i"""
    z = z3.LShR(i, sd.w)
    st.use('one', r)
    st.use('zero', z)
    st.use('zero', z - 1)
    st.use('rank', i)
    for t in (sd.cmp(i, r), sd.upto(z, r), sd.upto(z - 1, r), sd.upto(z - 1, r + 1), sd.upto(z, r + 1), sd.rk(i, r), sd.rk(i, r - 1), sd.rk(i, r + 1)):
        st.assume(t)


def t_rank(c, b):
    sd = SD(c)
    c.e.sd = sd
    i = c.bv('i')
    c.assume(U(i, sd.n))
    rs = c.obj('rs', 8, {0: (8, sd.p)}, ro=True)
    z = z3.LShR(i, sd.w)
    scan_facts(sd, c.st, i, F(z) - 1)
    c.assume(sd.cmp(i, F(z)), sd.cmp(i, RK(i) - 1), sd.rk(i, F(z)), sd.upto(z, F(z)), sd.upto(z, RK(i) - 1), sd.rk(i, RK(i) - 1))
    c.st.use('one', RK(i) - 1)

    def inv(Lc):
        s, r = Lc.v('sel_high'), Lc.v('rank_low')
        for t in (r, r - 1, RK(i) - 1):
            scan_facts(sd, Lc.st, i, t)
        return [('scan position', z3.And(s == z + r, U(r, F(z)))), ('no one from here on before i', U(RK(i), r)),
                ('ones from here on have the high part of i', z3.Implies(z != 0, U(F(z - 1), r)))]
    c.e.loopspecs = [LoopSpec(r'rank_support_sd<.*>::rank\(', 0, inv, variant=lambda Lc: Lc.v('rank_low'), vars=('sel_high', 'rank_low'))]
    for st, r in c.call('rank%d' % b, [rs, i]):
        c.reach(st, 'rank')
        c.ensures(st, 'rank(i) is the number of %ds before i' % b, B(r, 64) == (RK(i) if b else i - RK(i)))


def t_select1(c):
    sd = SD(c)
    c.e.sd = sd
    i = c.bv('i')
    c.assume(U(1, i), U(i, sd.m))
    ss = c.obj('ss', 8, {0: (8, sd.p)}, ro=True)
    for st, r in c.call('select1', [ss, i]):
        c.reach(st, 'select')
        c.ensures(st, 'select(i) is the position of the i-th one', B(r, 64) == P(i - 1))


def t_select0(c):
    sd = SD(c)
    c.e.sd = sd
    i = c.bv('i')
    c.assume(U(1, i), U(i, sd.n - sd.m))
    ss = c.obj('ss', 8, {0: (8, sd.p)}, ro=True)
    hv = []
    lem2 = local(c, 'behind all ones', 4, lambda i, n, k, q: z3.Implies(z3.And(U(1, i), U(k, n), U(i, n - k), q == k + i - 1), L(q, n)))
    lem = local(c, 'zeros before', 4, lambda i, p, k, q: z3.Implies(z3.And(U(1, i), U(k, p), U(p, 1 << 52), U(i, p - k), q == k + i - 1), L(q, p)))

    def inv(Lc):
        lb, rb, r0, pos = (Lc.v(x) for x in ('lb', 'rb', 'r0', 'pos'))
        mid = lb + z3.LShR(rb - lb, 1)
        if z3.is_const(lb) and z3.is_const(rb):
            hv[:] = [lb, rb]
        for k in (mid - 1, lb - 2, rb - 1):
            Lc.st.use('onep', k)
        return [('interval', z3.And(U(1, lb), U(lb, rb), U(rb, sd.m + 1))), ('ones before', z3.If(lb == 1, z3.And(r0 == 0, pos == Z(M64)), z3.And(pos == P(lb - 2), r0 == pos + 1 - (lb - 1), L(r0, i)))),
                ('ones after', z3.Implies(rb != sd.m + 1, U(i, P(rb - 1) + 1 - rb)))]
    c.e.loopspecs = [LoopSpec(r'select_support_sd_trait<.*>::select\(', 0, inv, variant=lambda Lc: Lc.v('rb') - Lc.v('lb'), vars=('lb', 'rb', 'r0', 'pos'))]
    for st, r in c.call('select0', [ss, i]):
        c.reach(st, 'select')
        q = B(r, 64)
        k = q - (i - 1)
        for t in (k, k - 1):
            st.use('onep', t)
        lb, rb = hv
        st.assume(lem(i, P(k), k, q))
        st.assume(lem2(i, sd.n, k, q))
        st.assume(z3.Implies(z3.And(L(q, P(k)), L(P(k), sd.n)), L(q, sd.n)))
        for nm, g in (('the search ends', lb == rb), ('ones before the result', k == rb - 1), ('with i-1 zeros before: at most m ones', U(k, sd.m)), ('with i-1 zeros before: the ones before it', z3.Implies(k != 0, L(P(k - 1), q))), ('not a one itself', z3.Implies(k != sd.m, L(q, P(k)))),
                      ('select(i) is a position', L(q, sd.n))):
            c.ensures(st, nm, g)
            st.assume(g)


def t_at(c):
    sd = SD(c)
    c.e.sd = sd
    i = c.bv('i')
    c.assume(L(i, sd.n))
    z = z3.LShR(i, sd.w)
    R = RK(i)
    one = z3.And(L(R, sd.m), P(R) == i)
    for t in (F(z) - 1, R, R - 1):
        scan_facts(sd, c.st, i, t)
    c.assume(sd.rk(i, F(z)), sd.upto(z, F(z)), sd.gap(R, F(z) - 1))

    def inv(Lc):
        s, r = Lc.v('sel_high'), Lc.v('rank_low')
        for t in (r, r - 1, r + 1):
            scan_facts(sd, Lc.st, i, t)
        Lc.st.assume(sd.gap(R, r))
        Lc.st.assume(sd.gap(R, r + 1))
        return [('scan position', z3.And(s == z + r, U(r + 1, F(z)), z3.Or(r != Z(M64), z != 0))), ('the ones after are larger', z3.Or(z3.And(one, U(R, r), U(r, sd.m)), z3.And(z3.Not(one), U(R, r + 1)))),
                ('ones from here on have the high part of i', z3.Implies(z != 0, U(F(z - 1), r + 1)))]
    c.e.loopspecs = [LoopSpec(r'sd_vector<.*>::operator\[\]\(', 0, inv, variant=lambda Lc: Lc.v('rank_low') + 1, vars=('sel_high', 'rank_low'))]
    for st, r in c.call('at', [sd.p, i]):
        c.reach(st, 'at')
        c.ensures(st, '[i] tells whether i is the position of a one', B(r, 64) == z3.If(one, Z(1), Z(0)))
    for st, r in c.call('size', [sd.p]):
        c.ensures(st, 'size()', B(r, 64) == sd.n)


SHARDS = {'^at$': 3, 'rank': 2}
HARD = ('^at$', 'rank')


def tasks(tier):
    return [('rank%d' % b, t_rank, (b,), '') for b in (0, 1)] + [('select1', t_select1, (), ''), ('select0', t_select0, (), ''), ('at', t_at, (), '')]


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + AV + SEL + ([SEL1] if name == 'select0' else []), externs=EXT)
