"""P25: inv_perm_support: every access ends at the element that maps to i."""
from .common import *
from .p06 import EXT, DRIVER_LIBS as DL

TITLE = 'inverse permutation support'
UNIT = '''
#include <sdsl/inv_perm_support.hpp>
using namespace sdsl;
typedef inv_perm_support<> S32; typedef inv_perm_support<1> S1; typedef inv_perm_support<7> S7;
extern "C" {
''' + ''.join('uint64_t at%d(const S%d& s, uint64_t i){ return s[i]; }\nuint64_t size%d(const S%d& s){ return s.size(); }\n' % (k, k, k, k) for k in (1, 7, 32)) + '}\n'
LIBS = ['bits.cpp']
DRIVER_LIBS = DL + ['rrr_vector_15.cpp', 'uint128_t.cpp', 'uint256_t.cpp']
ASSUMPTIONS = ['permutations of at most 2^52 elements']
TRUSTED = ['termination of the access loops (depends on where the constructor placed the back pointers) is not proved; the native driver runs into its time limit if one does not end',
           'the constructor is only covered by the bounded native driver: the access proof assumes that its back pointers are positions of the permutation, nothing about their values',
           'rank_support_v::operator() on the marks: contract proved by P06; operator[] of the vectors: contract proved by P03']
BV = z3.BitVecSort(64)
V, MK, BP, RKM = (z3.Function(n, BV, BV) for n in ('PERM', 'MARKED', 'BACK', 'RKM'))


def _rank(e, st, a):
    if not (isinstance(a[0], Ptr) and a[0].r == e.ip.r and a[0].o.const() and a[0].o.c == 72):
        return None
    i = B(a[1], 64)
    e.oblige(st, 'precondition of rank on the marks: i <= size', 'precondition', U(i, e.n))
    st.assume(z3.And(U(RKM(i), e.nb), z3.Implies(z3.And(L(i, e.n), MK(i) != 0), L(RKM(i), e.nb))))
    return [(st, RKM(i))]


RANK = MemContract('rank_support_v::operator()', r'^sdsl::rank_support_v<.*>::(operator\(\)|rank)\(unsigned long\) const$', _rank)


def t_at(c, k):
    n, nb = c.bv('n'), c.bv('nb')
    c.assume(U(n, 1 << 52), U(nb, n))
    v = absvec(c, 'perm', V, n)
    p = c.obj('inv', 120, {0: (8, v)}, ro=True)
    absvec(c, 'back', BP, nb, at=p.addc(8))
    absvec(c, 'marked', MK, n, at=p.addc(40))
    c.e.ip, c.e.n, c.e.nb = p, n, nb
    c.st.facts.append(Quant('perm', lambda i: z3.Implies(L(i, n), L(V(i), n))))
    c.st.facts.append(Quant('marked', lambda i: U(MK(i), 1)))
    c.st.facts.append(Quant('back', lambda i: z3.Implies(L(i, nb), L(BP(i), n))))
    i = c.bv('i')
    c.assume(L(i, n))
    inv = lambda Lc: [('a position of the permutation', L(Lc.v('j'), n))]
    c.e.loopspecs = [LoopSpec(r'inv_perm_support<.*>::operator\[\]\(', q, inv, vars=('j', 'j_new')) for q in (0, 1)]
    for st, r in c.call('at%d' % k, [p, i]):
        c.reach(st, 'at')
        c.ensures(st, '[i] is a position j with p[j]=i', z3.And(L(B(r, 64), n), V(B(r, 64)) == i))
    for st, r in c.call('size%d' % k, [p]):
        c.ensures(st, 'size() is the size of the permutation', B(r, 64) == n)


def tasks(tier):
    return [('at-%d' % k, t_at, (k,), '') for k in (1, 7, 32)]


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + AV + [RANK], externs=EXT)
