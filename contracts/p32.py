"""P32: backward and forward search over the interface of a compressed suffix array."""
from .common import *
from .p06 import EXT

TITLE = 'backward search'
# the search functions are templates over the index; the index used here has no implementation at all: its members are
# known to the verifier by their contracts only, so the result holds for every index that fulfils them (P19, P31)
UNIT = '''
#include <sdsl/suffix_arrays.hpp>
using namespace sdsl;
template<class Ch> struct Csa {
    typedef uint64_t size_type; typedef Ch char_type; typedef csa_tag index_category; typedef std::basic_string<char> string_type;
    struct X { uint64_t operator[](uint64_t) const; }; struct Y { uint64_t operator[](uint64_t) const; }; struct Z { uint64_t operator[](uint64_t) const; };
    struct R { size_type rank(size_type, uint64_t) const; };
    X char2comp; Y C; Z psi; R bwt; size_type size() const;
};
extern "C" {
''' + ''.join('''
uint64_t one%(w)d(const Csa<uint%(w)d_t>& s, uint64_t l, uint64_t r, uint%(w)d_t c, uint64_t& a, uint64_t& b){ return backward_search(s,l,r,c,a,b); }
uint64_t all%(w)d(const Csa<uint%(w)d_t>& s, uint64_t l, uint64_t r, const uint%(w)d_t* p, const uint%(w)d_t* q, uint64_t& a, uint64_t& b){ return backward_search(s,l,r,p,q,a,b); }
uint64_t cnt%(w)d(const Csa<uint%(w)d_t>& s, const uint%(w)d_t* p, const uint%(w)d_t* q){ return count(s,p,q); }
void lex%(w)d(const Csa<uint%(w)d_t>& s, const uint%(w)d_t* p, const uint%(w)d_t* q, uint64_t& a, uint64_t& b){ auto x = lex_interval(s,p,q); a=x[0]; b=x[1]; }
uint64_t fwd%(w)d(const Csa<uint%(w)d_t>& s, uint64_t l, uint64_t r, const uint%(w)d_t* p, const uint%(w)d_t* q, uint64_t& a, uint64_t& b){ return forward_search(s,l,r,p,q,a,b); }
''' % {'w': w} for w in (8, 64)) + '}\n'
LIBS = ['bits.cpp']
DRIVER_LIBS, DRIVER_FLAGS, DRIVER_SECS = ALL_LIBS, SORT, 16.0
ASSUMPTIONS = ['texts of at most 2^52 symbols, patterns of at most 2^52 symbols', 'the search starts from a non-empty interval [l..r] of the suffix array']
TRUSTED = ['char2comp, C, psi, size and bwt.rank of the index: assumed contracts (P19, P31)', 'bidirectional search and locate are only covered by the bounded native driver']
BV = z3.BitVecSort(64)
COMP, CC, PSI = (z3.Function(n, BV, BV) for n in ('COMP', 'CUM', 'PSI'))
RK, SL, SR = z3.Function('BWTRANK', BV, BV, BV), z3.Function('STEP_L', BV, BV, BV, BV), z3.Function('STEP_R', BV, BV, BV, BV)
PAT, PL, PR, CMP, CUR = (z3.Function(n, BV, BV) for n in ('PAT', 'PAT_L', 'PAT_R', 'COMPARE', 'CURSUF'))


def inst(e, st, c):
    """facts about the compact code of symbol c"""
    k = COMP(c)
    st.assume(z3.And(L(k, e.sg), U(CC(k), CC(k + 1)), U(CC(k + 1), e.n), z3.Implies(c == 0, k == 0), z3.Implies(k == 0, CC(k) == 0), z3.Implies(c == 0, L(CC(k), CC(k + 1)))))


def absent(c):
    return z3.And(COMP(c) == 0, c != 0)


def _comp(e, st, a):
    c = B(a[1], 64)
    inst(e, st, c)
    return [(st, COMP(c))]


def _c(e, st, a):
    k = B(a[1], 64)
    e.oblige(st, 'C is only asked for 0..sigma', 'precondition', U(k, e.sg))
    return [(st, CC(k))]


def rkf(e, i, c):
    """rank of the symbol c: number of c in bwt[0..i)"""
    k = COMP(c)
    return z3.Implies(z3.And(U(i, e.n), z3.Not(absent(c))), z3.And(U(RK(i, c), CC(k + 1) - CC(k)), z3.Implies(i == 0, RK(i, c) == 0), z3.Implies(i == e.n, RK(i, c) == CC(k + 1) - CC(k)), U(RK(i, c), i)))


def _rank(e, st, a):
    i, c = B(a[1], 64), B(a[2], 64)
    e.oblige(st, 'precondition of bwt.rank: i <= size', 'precondition', U(i, e.n))
    e.oblige(st, 'bwt.rank is asked for a symbol of the text', 'precondition', z3.Not(absent(c)))
    st.assume(rkf(e, i, c))
    return [(st, RK(i, c))]


def _psi(e, st, a):
    i = B(a[1], 64)
    e.oblige(st, 'precondition of psi[i]: i < size', 'precondition', L(i, e.n))
    st.assume(L(PSI(i), e.n))
    return [(st, PSI(i))]


CSA = [MemContract('csa.' + n, r'^Csa<unsigned (char|long)>::%s' % x, f) for n, x, f in (('size', r'size\(\) const$', lambda e, st, a: [(st, e.n)]),
       ('char2comp', r'X::operator\[\]', _comp), ('C', r'Y::operator\[\]', _c), ('psi', r'Z::operator\[\]', _psi), ('bwt.rank', r'R::rank', _rank))]


def step(e, l, r, c):
    """the interval after prepending c to the pattern of [l..r]: definition"""
    k = COMP(c)
    return z3.If(absent(c), 1, CC(k) + RK(l, c)), z3.If(absent(c), 0, CC(k) + RK(r + 1, c) - 1)


def mono(e, l, r, c):
    return z3.And(rkf(e, l, c), rkf(e, r + 1, c), z3.Implies(z3.Not(absent(c)), z3.And(U(RK(l, c), RK(r + 1, c)), U(RK(r + 1, c) - RK(l, c), r + 1 - l))))


def _one(e, st, a):
    l, r, c = B(a[1], 64), B(a[2], 64), B(a[3], 64) if B(a[3], 64).size() == 64 else z64(B(a[3], 8))
    e.oblige(st, 'precondition of the step: l <= r < size', 'precondition', z3.And(U(l, r), L(r, e.n)))
    x, y = SL(l, r, c), SR(l, r, c)
    st.assume(z3.And(U(x, y + 1), U(y + 1 - x, r + 1 - l), U(y + 1, e.n), U(x, e.n)))
    e.store_raw(st, a[4], 8, x)
    e.store_raw(st, a[5], 8, y)
    return [(st, y + 1 - x)]


def _one8(e, st, a):
    a = list(a)
    x = a[3]
    a[3] = z64(B(x, 8)) if e.w == 8 else B(x, 64)
    return _one(e, st, a)


ONE = MemContract('backward_search (one symbol)', r'backward_search<Csa<unsigned (char|long)> ?>\(', _one8)


def base(c, w):
    e = c.e
    e.its = []
    e.w, e.n, e.sg = w, c.bv('n'), c.bv('sigma')
    c.assume(U(1, e.n), U(e.n, 1 << 52), U(1, e.sg), U(e.sg, 1 << 52), CC(z3.BitVecVal(0, 64)) == 0)
    e.s = c.obj('csa', 64, {}, ro=True)
    a, b = c.obj('l_res', 8, {0: (8, c.bv('l_old'))}), c.obj('r_res', 8, {0: (8, c.bv('r_old'))})
    return e, a, b


def t_one(c, w):
    e, a, b = base(c, w)
    l, r, x = c.bv('l'), c.bv('r'), c.bv('c', w)
    c.assume(U(l, r), L(r, e.n))
    cx = z64(x)
    inst(e, c.st, cx)
    c.assume(mono(e, l, r, cx))
    wl, wr = step(e, l, r, cx)
    for st, g in c.call('one%d' % w, [e.s, l, r, x, a, b]):
        c.reach(st, 'one')
        x1, y1 = B(c.ld(st, a, 0, 8), 64), B(c.ld(st, b, 0, 8), 64)
        c.ensures(st, 'the interval is C[c]+rank(l,c) .. C[c]+rank(r+1,c)-1', z3.And(x1 == wl, y1 == wr))
        c.ensures(st, 'the size of the interval is returned', B(g, 64) == y1 + 1 - x1)
        c.ensures(st, 'the interval is empty for absent symbols', z3.Implies(absent(cx), B(g, 64) == 0))
        c.ensures(st, 'the interval stays inside the suffix array', z3.And(U(x1, y1 + 1), U(y1 + 1, e.n), U(x1, e.n), U(y1 + 1 - x1, r + 1 - l)))


def pattern(c, w):
    e = c.e
    m = e.m = c.bv('m')
    c.assume(U(m, 1 << 52))
    p = e.pat = c.arr('pattern', m, es=w // 8, ro=True)
    return p, Ptr(p.r, Lin(0, ((w // 8, m),)))


def sym(c, st, k):
    x = c.A(st, c.e.pat)[k]
    return z64(x) if x.size() < 64 else x


def rec(c, st, k):
    """definition of the interval (PAT_L(k)..PAT_R(k)) of pattern[k..m), given the one of pattern[k+1..m)"""
    e = c.e
    l, r = PL(k + 1), PR(k + 1)
    em = l == r + 1
    x = sym(c, st, k)
    st.assume(z3.Implies(L(k, e.m), z3.If(em, PL(k) == PR(k) + 1, z3.And(PL(k) == SL(l, r, x), PR(k) == SR(l, r, x)))))


def backloop(c, w, l0, r0, a=None):
    e = c.e

    def inv(Lc):
        q = Lc.raw('it')
        if not (isinstance(q, Ptr) and q.r == e.pat.r):
            raise Undecided('iterator')
        d = q.o.div(w // 8)
        k = B(d, 64)
        e.its.append(k)
        rec(c, Lc.st, z3.simplify(k))
        rec(c, Lc.st, z3.simplify(k - 1))
        l, r = Lc.v('l'), Lc.v('r')
        return [('it points into the pattern', U(k, e.m)),
                ('[l..r] is the interval of the symbols from it on, or both are empty', z3.And(U(l, r + 1), U(r + 1, e.n), U(l, e.n), z3.If(PL(k) == PR(k) + 1, l == r + 1, z3.And(l == PL(k), r == PR(k))))),
                ]
    c.e.loopspecs = [LoopSpec(r'backward_search<Csa<.*>, unsigned (char|long) const\*>', 0, inv, variant=lambda Lc: B(Lc.raw('it').o.div(w // 8), 64))]


def empt(c, st, k):
    """once empty, always empty: PAT_L(k)==PAT_R(k)+1 -> PAT_L(0)==PAT_R(0)+1 (follows from the definition by induction on k)"""
    st.assume(z3.Implies(z3.And(U(k, c.e.m), PL(k) == PR(k) + 1), PL(z3.BitVecVal(0, 64)) == PR(z3.BitVecVal(0, 64)) + 1))


def t_all(c, w):
    e, a, b = base(c, w)
    l, r = c.bv('l'), c.bv('r')
    c.assume(U(l, r), L(r, e.n))
    p, q = pattern(c, w)
    c.assume(PL(e.m) == l, PR(e.m) == r)
    backloop(c, w, l, r)
    z = z3.BitVecVal(0, 64)

    def post(st, x1, y1, g, what):
        empt_all(c, st)
        em = PL(z) == PR(z) + 1
        c.ensures(st, what + ': the interval of the pattern', z3.If(em, y1 + 1 == x1, z3.And(x1 == PL(z), y1 == PR(z))))
        c.ensures(st, what + ': inside the suffix array', z3.And(U(x1, y1 + 1), U(y1 + 1, e.n), U(x1, e.n)))
        if g is not None:
            c.ensures(st, what + ': its size is returned', g == y1 + 1 - x1)
    k = c.bv('k')
    ind = c.st.copy()
    rec(c, ind, k)
    ind.assume(L(k, e.m))
    E0 = lambda j: z3.Implies(PL(j) == PR(j) + 1, PL(z) == PR(z) + 1)
    ind.assume(E0(k))
    c.ensures(ind, 'induction: once empty, the interval stays empty', E0(k + 1))
    for st, g in c.call('all%d' % w, [e.s, l, r, p, q, a, b]):
        c.reach(st, 'all')
        post(st, B(c.ld(st, a, 0, 8), 64), B(c.ld(st, b, 0, 8), 64), B(g, 64), 'backward_search')


def t_cnt(c, w):
    e, a, b = base(c, w)
    p, q = pattern(c, w)
    z = z3.BitVecVal(0, 64)
    c.assume(PL(e.m) == 0, PR(e.m) == e.n - 1)
    backloop(c, w, z, e.n - 1)
    em = PL(z) == PR(z) + 1
    # a pattern longer than the text has no occurrence
    c.assume(z3.Implies(z3.UGT(e.m, e.n), em))
    for st, g in c.call('cnt%d' % w, [e.s, p, q]):
        c.reach(st, 'count')
        empt_all(c, st)
        c.ensures(st, 'count is the size of the interval of the pattern', B(g, 64) == z3.If(em, 0, PR(z) + 1 - PL(z)))
    for st, _ in c.call('lex%d' % w, [e.s, p, q, a, b]):
        c.reach(st, 'lex_interval')
        empt_all(c, st)
        x1, y1 = B(c.ld(st, a, 0, 8), 64), B(c.ld(st, b, 0, 8), 64)
        c.ensures(st, 'lex_interval is the interval of the pattern', z3.If(em, y1 + 1 == x1, z3.And(x1 == PL(z), y1 == PR(z))))


CM = z3.Function('COMPAREPAT', BV, BV, z3.BitVecSort(32))       # CM(k, i): pattern[k..m) against the suffix of rank i
I32 = lambda x: z3.BitVecVal(x, 32)


def cmrec(c, st, k, i):
    e = c.e
    x = sym(c, st, k)
    inst(e, st, x)
    cc = COMP(x)
    st.assume(z3.If(k == e.m, CM(k, i) == 0, z3.If(cc == 0, CM(k, i) == I32(-1), z3.If(L(CC(cc + 1) - 1, i), CM(k, i) == I32(-1), z3.If(L(i, CC(cc)), CM(k, i) == I32(1), CM(k, i) == CM(k + 1, PSI(i)))))))


def t_lambda(c, w):
    """the comparison of the pattern with a suffix"""
    e, a, b = base(c, w)
    p, q = pattern(c, w)
    i0 = c.bv('i')
    c.assume(L(i0, e.n))
    cap = c.obj('closure', 24, {0: (8, c.obj('begin', 8, {0: (8, p)})), 8: (8, c.obj('end', 8, {0: (8, q)})), 16: (8, e.s)}, ro=True)
    z = z3.BitVecVal(0, 64)
    c.assume(L(i0, e.n))

    def inv(Lc):
        d = Lc.raw('current')
        if not (isinstance(d, Ptr) and d.r == e.pat.r):
            raise Undecided('iterator')
        k, i = z3.simplify(B(d.o.div(w // 8), 64)), Lc.v('i')
        cmrec(c, Lc.st, k, i)
        return [('position', z3.And(U(k, e.m), L(i, e.n))), ('the symbols compared so far agree', CM(k, i) == CM(z, i0))]
    e.loopspecs = [LoopSpec(r'forward_search<.*operator\(\)\(|forward_search<.*lambda', 0, inv, variant=lambda Lc: e.m - B(Lc.raw('current').o.div(w // 8), 64))]
    for st, g in c.call(r'forward_search<Csa<unsigned %s>, .*lambda.*operator\(\)' % ('char' if w == 8 else 'long'), [cap, i0]):
        c.reach(st, 'compare')
        c.ensures(st, 'compare gives the order of the pattern and the suffix', B(g, 32) == CM(z, i0))


def _compare(e, st, a):
    i = B(a[1], 64)
    e.oblige(st, 'precondition of compare: a suffix', 'precondition', L(i, e.n))
    st.use('suf', i)
    return [(st, CM(z3.BitVecVal(0, 64), i))]


COMPARE = MemContract('compare(suffix)', r'forward_search<.*lambda.*operator\(\)', _compare)


def t_fwd(c, w):
    e, a, b = base(c, w)
    p, q = pattern(c, w)
    l, r, x = c.bv('l'), c.bv('r'), c.bv('x')
    z = z3.BitVecVal(0, 64)
    c.assume(U(l, r), L(r, e.n), U(l, x), U(x, r))
    # the suffix array is sorted: fixed suffix x against every other one
    cm = lambda i: CM(z, i)
    c.st.facts.append(Quant('suf', lambda i: z3.And(z3.Or(cm(i) == 0, cm(i) == I32(1), cm(i) == I32(-1)),
                                                     z3.Implies(z3.And(U(i, x), L(x, e.n)), cm(i) >= cm(x)), z3.Implies(z3.And(U(x, i), L(i, e.n)), cm(x) >= cm(i)))))
    c.st.use('suf', x)
    at = lambda Lc, o: B(c.ld(Lc.st, o, 0, 8), 64)

    def inv1(Lc):
        lo_, up = at(Lc, a), Lc.v('l_res_upper')
        return [('bounds', z3.And(U(l, lo_), U(lo_, up), U(up, r + 1))), ('suffixes below l_res are smaller', z3.Implies(L(x, lo_), cm(x) == I32(1))), ('suffixes from the upper bound on are not', z3.Implies(U(up, x), cm(x) != I32(1)))]

    def inv2(Lc):
        lo_, up = at(Lc, b) + 1, Lc.v('r_res_upper')
        return [('bounds', z3.And(U(l, lo_), U(lo_, up), U(up, r + 1))), ('suffixes up to r_res are not larger', z3.Implies(L(x, lo_), cm(x) != I32(-1))), ('suffixes from the upper bound on are larger', z3.Implies(U(up, x), cm(x) == I32(-1)))]
    e.loopspecs = [LoopSpec(r'forward_search<', 0, inv1, variant=lambda Lc: Lc.v('l_res_upper') - at(Lc, a)), LoopSpec(r'forward_search<', 1, inv2, variant=lambda Lc: Lc.v('r_res_upper') - at(Lc, b) - 1)]
    for st, g in c.call('fwd%d' % w, [e.s, l, r, p, q, a, b]):
        c.reach(st, 'forward')
        x1, y1 = B(c.ld(st, a, 0, 8), 64), B(c.ld(st, b, 0, 8), 64)
        short = L(e.m, e.n)
        c.ensures(st, 'a suffix of [l..r] starts with the pattern iff it lies in the interval returned', z3.Implies(short, (cm(x) == 0) == z3.And(U(x1, x), L(x, y1 + 1))))
        c.ensures(st, 'patterns that do not fit in the text: empty', z3.Implies(z3.Not(short), z3.And(B(g, 64) == 0, y1 + 1 == x1)))
        c.ensures(st, 'the size of the interval is returned', B(g, 64) == y1 + 1 - x1)


def empt_all(c, st):
    for k in c.e.its:
        empt(c, st, k)


def tasks(tier):
    return [(n + str(w), f, (w,), '') for n, f in (('one', t_one), ('all', t_all), ('count', t_cnt), ('compare', t_lambda), ('forward', t_fwd)) for w in (8, 64)]


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + CSA + ([] if name.startswith('one') else [ONE]) + ([COMPARE] if name.startswith('forward') else []), externs=EXT)
