"""P17: range minimum/maximum queries return the leftmost position of an extreme element of the range."""
from .common import *
from .p06 import EXT, DRIVER_LIBS as DL

TITLE = 'range minimum and maximum queries'
UNIT = '''
#include <sdsl/rmq_support.hpp>
using namespace sdsl;
typedef rmq_support_sparse_table<int_vector<>,true> TN; typedef rmq_support_sparse_table<int_vector<>,false> TX;
typedef rmq_succinct_sct<true> CN; typedef rmq_succinct_sct<false> CX;
extern "C" {
uint64_t tn(const TN& s, uint64_t l, uint64_t r){ return s(l,r); }
uint64_t tx(const TX& s, uint64_t l, uint64_t r){ return s(l,r); }
uint64_t tnsize(const TN& s){ return s.size(); }
uint64_t txsize(const TX& s){ return s.size(); }
uint64_t cn(const CN& s, uint64_t l, uint64_t r){ return s(l,r); }
uint64_t cx(const CX& s, uint64_t l, uint64_t r){ return s(l,r); }
uint64_t cnsize(const CN& s){ return s.size(); }
uint64_t cxsize(const CX& s){ return s.size(); }
}
'''
LIBS = ['bits.cpp']
DRIVER_LIBS = DL + ['rrr_vector_15.cpp', 'uint128_t.cpp', 'uint256_t.cpp', 'bp_support_algorithm.cpp']
ASSUMPTIONS = ['vectors of at most 2^52 elements']
TRUSTED = ['the constructors (sparse table levels, super-Cartesian tree, extended Cartesian tree) are only covered by the bounded native driver; the proofs of the queries assume what they build: entry k of the table at l is the offset of the leftmost extreme of [l, l+2^(k+1)); parenthesis i of the super-Cartesian tree encloses j>i iff no element of (i..j] is better than element i',
           'rmq_succinct_sada::operator() is only covered by the bounded native driver',
           'select, find_close, rank and rr_enclose of the parentheses: contracts of P16; operator[] and size of int_vector: contract proved by P03']
BV = z3.BitVecSort(64)
V, OPEN, CLOSE, BET = (z3.Function(n, BV, BV) for n in ('ELEM', 'OPENPOS', 'CLOSEPOS', 'SPEXC'))
TAB = z3.Function('TABLE', BV, BV, BV)


def le(mn, a, b):
    return U(a, b) if mn else U(b, a)


def lt(mn, a, b):
    return L(a, b) if mn else L(b, a)


def t_table(c, mn):
    n, l, r, q, K = (c.bv(x) for x in ('n', 'l', 'r', 'q', 'K'))
    nm = 'tn' if mn else 'tx'
    c.assume(U(n, 1 << 52), U(K, 52))
    v = absvec(c, 'v', V, n)
    tab = absvec(c, 'table', lambda j, i: TAB(j, i), lambda j: n - (z3.BitVecVal(2, 64) << j) + 1, stride=32, count=K)
    # m_v @0, m_k @8, m_table @16 (begin, end, end of storage)
    p = c.obj('rmq', 40, {0: (8, v), 8: (8, K), 16: (8, tab)}, ro=True)
    for st, x in c.call(nm + 'size', [p]):
        c.ensures(st, 'size() is the size of the vector', B(x, 64) == n)
    c.assume(U(l, r), L(r, n), U(l, q), U(q, r))
    # levels of the table: while (2*2^k < n) ++k
    two = z3.BitVecVal(2, 64)
    c.assume(U(n, two << K), z3.Implies(K != 0, L(z3.BitVecVal(1, 64) << K, n)))

    # the level that a query of this length uses
    k, W, rr = c.bv('k'), c.bv('W'), c.bv('rr')
    d = r - l
    one = z3.BitVecVal(1, 64)
    c.assume(z3.Implies(U(2, d), z3.And(L(k, 52), z3.LShR(d, k) == 1, U(1, k))), z3.Implies(L(d, 2), k == 1))
    c.assume(W == one << k, rr == r - W + 1)
    fact = z3.Implies(U(2, d), z3.And(U(k, K), U(W, d), L(d, W + W), W == two << (k - 1), L(l, rr), U(rr, l + W), rr + W == r + 1, L(rr, n), L(k, 52), U(1, k)))
    st0 = c.st.copy()
    c.e.oblige(st0, 'step: the level exists and its two blocks cover the range', 'step', fact)
    c.assume(fact)

    # extremes of the blocks at l and rr
    pl, pr, va, vb, vq = (c.bv(x) for x in ('pl', 'pr', 'va', 'vb', 'vq'))

    def tab_at(x, y, val):
        return z3.And(y == x + TAB(k - 1, x), val == V(y), vq == V(q), z3.Implies(U(2, d), z3.And(L(TAB(k - 1, x), W), U(x, y), L(y, x + W), z3.Implies(z3.And(U(x, q), L(q, x + W)), z3.And(le(mn, val, vq), z3.Implies(L(q, y), lt(mn, val, vq)))))))
    c.assume(tab_at(l, pl, va), tab_at(rr, pr, vb))
    rest = [tab_at(l, pl, va), tab_at(rr, pr, vb), fact, U(l, r), L(r, n), U(l, q), U(q, r), U(n, 1 << 52)]
    for st, x in c.call(nm, [p, l, r]):
        c.reach(st, 'query')
        x = B(x, 64)
        y = c.bv('y')
        z = z3.If(U(2, d), z3.If(le(mn, va, vb), pl, pr), z3.If(le(mn, V(l), V(r)), l, r))
        c.ensures(st, 'the answer is the better of the two block extremes', x == z)
        st = st.copy()          # the rest follows from this and the facts about the table alone
        st.pc, st.facts = rest + [y == z], []
        x = y
        c.ensures(st, 'the answer lies in the range', z3.And(U(l, x), U(x, r)))
        c.ensures(st, 'no element of the range is better', le(mn, V(x), V(q)))
        c.ensures(st, 'elements to the left of the answer are worse', z3.Implies(L(q, x), lt(mn, V(x), V(q))))


def _sup(e, a):
    return isinstance(a[0], Ptr) and a[0].r == e.sp.r and a[0].o.const() and a[0].o.c == e.soff


def _select(e, st, a):
    if not _sup(e, a):
        return None
    i = B(a[1], 64)
    e.oblige(st, 'precondition of select: 1 <= i <= number of opening parentheses', 'precondition', z3.And(U(1, i), U(i, e.n)))
    k = z3.simplify(i - 1)
    st.use('open', k)
    return [(st, OPEN(k))]


def _find_close(e, st, a):
    if not _sup(e, a):
        return None
    e.oblige(st, 'find_close of the parenthesis of l', 'precondition', B(a[1], 64) == OPEN(e.l))
    return [(st, CLOSE(e.l))]


def _rr(e, st, a):
    if not _sup(e, a):
        return None
    i, j = B(a[1], 64), B(a[2], 64)
    e.oblige(st, 'precondition of rr_enclose(i,j): opening parentheses, find_close(i) < j', 'precondition', z3.And(i == OPEN(e.l), j == OPEN(e.r), L(CLOSE(e.l), j)))
    # leftmost opening parenthesis k behind find_close(i) that encloses j; size if there is none
    s, k = fresh('rr', 64), fresh('rrk', 64)
    cand = lambda x: z3.And(L(e.l, x), L(x, e.r), L(CLOSE(e.l), OPEN(x)), L(OPEN(e.r), CLOSE(x)))
    st.assume(z3.Or(z3.And(s == 2 * e.n, z3.Not(cand(e.best))), z3.And(cand(k), s == OPEN(k), z3.Implies(cand(e.best), U(k, e.best)))))
    st.use('open', k)
    st.assume(e.encl(k, e.r))
    e.rrk = k
    return [(st, s)]


def _rank(e, st, a):
    if not _sup(e, a):
        return None
    e.oblige(st, 'rank is asked for the parenthesis found', 'precondition', B(a[1], 64) == OPEN(e.rrk))
    return [(st, e.rrk + 1)]


def _size(e, st, a):
    return [(st, 2 * e.n)] if _sup(e, a) else None


BPS = r'^sdsl::bp_support_sada<.*>::%s\((unsigned long(, unsigned long)?)?\) const$'
BPC = [MemContract('bp_support::' + n, BPS % n, f) for n, f in (('select', _select), ('find_close', _find_close), ('rr_enclose', _rr), ('rank', _rank), ('size', _size))]


def t_sct(c, mn):
    n, l, r, best, q = (c.bv(x) for x in ('n', 'l', 'r', 'best', 'q'))
    nm = 'cn' if mn else 'cx'
    c.assume(U(n, 1 << 52))
    e = c.e
    p = c.obj('sct', 4096, {}, ro=True)
    absvec(c, 'sct_bp', z3.Function('BPBIT', BV, BV), 2 * n, at=p)
    e.sp, e.soff, e.n, e.l, e.r, e.best = p, 32, n, l, r, best
    for st, x in c.call(nm + 'size', [p]):
        c.ensures(st, 'size() is the number of elements', B(x, 64) == n)
    c.assume(U(l, r), L(r, n), U(l, q), U(q, r))
    c.st.facts.append(Quant('open', lambda k: z3.Implies(L(k, n), z3.And(L(OPEN(k), 2 * n), L(OPEN(k), CLOSE(k)), L(CLOSE(k), 2 * n), U(k, OPEN(k))))))
    for k in (l, r, best):
        c.st.use('open', k)
    # best is the leftmost extreme of [l..r]
    bst = lambda m: z3.Implies(z3.And(U(l, m), U(m, r)), z3.And(le(mn, V(best), V(m)), z3.Implies(L(m, best), lt(mn, V(best), V(m)))))
    c.assume(U(l, best), U(best, r))

    def encl(i, j):
        """i's parentheses enclose j's iff no element of (i..j] is better than element i; opening parentheses are in order"""
        w = fresh('worse', 64)
        inside = L(OPEN(j), CLOSE(i))
        return z3.Implies(z3.And(L(i, j), L(j, n)), z3.And(
            L(OPEN(i), OPEN(j)),
            z3.Implies(inside, z3.And(*[z3.Implies(z3.And(L(i, m), U(m, j)), le(mn, V(i), V(m))) for m in (best, q, r)])),
            z3.Implies(z3.Not(inside), z3.And(L(i, w), U(w, j), lt(mn, V(w), V(i)), bst(w))),
            z3.Implies(inside, L(CLOSE(j), CLOSE(i))), CLOSE(i) != OPEN(j)))
    e.encl = encl
    c.assume(bst(l), bst(r), bst(q), bst(best), encl(l, r), encl(l, best), encl(best, r))
    for st, x in c.call(nm, [p, l, r]):
        c.reach(st, 'query')
        x = B(x, 64)
        if hasattr(e, 'rrk'):
            st.assume(bst(e.rrk))
        c.ensures(st, 'the answer is the leftmost extreme of the range', x == best)


def tasks(tier):
    return [('table-%s' % x, t_table, (m,), '') for m, x in ((True, 'min'), (False, 'max'))] + [('sct-%s' % x, t_sct, (m,), '') for m, x in ((True, 'min'), (False, 'max'))]


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + AV + BPC, externs=EXT)
