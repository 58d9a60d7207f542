"""P14: access, rank, select and inverse_select of wavelet trees equal those of the sequence."""
from .common import *
from .p06 import EXT

TITLE = 'wavelet trees: access, rank, select'
# the trees are templates over the bit vector and its supports; the ones used here have no implementation: they are
# known by their contracts only, so the result holds for every bit vector that fulfils them (P06..P11)
DUCK = '''
#include <sdsl/wavelet_trees.hpp>
using namespace sdsl;
struct DR { uint64_t x; DR(); DR(const DR&); DR& operator=(const DR&); ~DR(); uint64_t operator()(uint64_t) const; uint64_t rank(uint64_t) const; };
struct D1 { uint64_t x; D1(); D1(const D1&); D1& operator=(const D1&); ~D1(); uint64_t operator()(uint64_t) const; uint64_t select(uint64_t) const; };
struct D0 { uint64_t x; D0(); D0(const D0&); D0& operator=(const D0&); ~D0(); uint64_t operator()(uint64_t) const; uint64_t select(uint64_t) const; };
struct DBV { typedef DR rank_1_type; typedef D1 select_1_type; typedef D0 select_0_type; typedef int64_t difference_type; typedef const bool* const_iterator;
  uint64_t x; DBV(); DBV(const DBV&); DBV& operator=(const DBV&); ~DBV(); bool operator[](uint64_t) const; uint64_t size() const; const bool* begin() const; };
'''
UNIT = DUCK + '''
template<class Ch, class Cat> struct DTree { typedef Ch value_type; typedef uint64_t node_type; typedef Cat alphabet_category; enum { int_width = sizeof(Ch)==1?8:0 }; uint64_t x; DTree(); DTree(const DTree&); DTree& operator=(const DTree&); ~DTree();
  node_type root() const; bool is_leaf(node_type) const; node_type child(node_type, uint8_t) const; node_type parent(node_type) const; uint64_t bv_pos(node_type) const; uint64_t bv_pos_rank(node_type) const; node_type c_to_leaf(value_type) const; bool is_valid(node_type) const; uint64_t bit_path(value_type) const; uint64_t size(node_type) const; uint64_t size() const; };
template<class Ch, class Cat> struct DStrat { template<class W> using type = DTree<Ch,Cat>; };
struct DShape { template<class W> struct type { enum { lex_ordered = 1 }; }; };
typedef wt_pc<DShape,DBV,DR,D1,D0,DStrat<uint8_t,byte_alphabet_tag>> TP; typedef wt_pc<DShape,DBV,DR,D1,D0,DStrat<uint64_t,int_alphabet_tag>> TQ;
typedef wt_int<DBV> TT; typedef wm_int<DBV> TM;
extern "C" {
''' + ''.join('''
uint64_t %(k)sat(const %(T)s& s, uint64_t i){ return s[i]; }
uint64_t %(k)srank(const %(T)s& s, uint64_t i, uint64_t c){ return s.rank(i,c); }
uint64_t %(k)ssel(const %(T)s& s, uint64_t i, uint64_t c){ return s.select(i,c); }
void %(k)sinv(const %(T)s& s, uint64_t i, uint64_t& a, uint64_t& b){ auto x = s.inverse_select(i); a = x.first; b = x.second; }
uint64_t %(k)ssize(const %(T)s& s){ return s.size(); }
''' % {'k': k, 'T': T} for k, T in (('t', 'TT'), ('m', 'TM'), ('p', 'TP'), ('q', 'TQ'))) + '}\n'
LIBS = ['bits.cpp']
DRIVER_LIBS, DRIVER_FLAGS, DRIVER_SECS = ALL_LIBS, SORT, 20.0
ASSUMPTIONS = ['sequences of at most 2^52 symbols']
TRUSTED = ['the levels of the tree store what the wavelet tree / wavelet matrix is by definition (class invariant; the constructors are only covered by the bounded native driver)',
           'access, rank and select of the bit vector: assumed contracts (P06..P11)']
BV = z3.BitVecSort(64)
RK, TB, S1, S0 = (z3.Function(n, BV, BV) for n in ('TREERANK', 'TREEBIT', 'TREESEL1', 'TREESEL0'))
# per level k, for one symbol c and one position i of the sequence: start of the node of the k-bit prefix of c, its size,
# elements of the node before position i, ones among these, ones of the node
K32 = z3.BitVecSort(32)
OFF, SZ, POS, P1, N1 = (z3.Function(n, K32, BV) for n in ('NODE_OFF', 'NODE_SIZE', 'POSITION', 'ONES_BEFORE', 'ONES_NODE'))
PI = z3.Function('PREFIX', K32, BV)
RL, ZC = (z3.Function(n, BV, BV) for n in ('RANKLEVEL', 'ZEROS'))
K0, Z0 = z3.BitVecVal(0, 32), z3.BitVecVal(0, 64)


def rank_(e, st, a):
    p = B(a[1], 64)
    e.oblige(st, 'precondition of rank: position <= size of the tree', 'precondition', U(p, e.ts))
    st.use('rank', p)
    return [(st, RK(p))]


def sel_(b):
    def f(e, st, a):
        j = B(a[1], 64)
        e.oblige(st, 'precondition of select_%d: 1 <= i <= number of %ds' % (b, b), 'precondition', z3.And(U(1, j), U(j, RK(e.ts) if b else e.ts - RK(e.ts))))
        return [(st, (S1 if b else S0)(j))]
    return f


def bit_(e, st, a):
    p = B(a[1], 64)
    e.oblige(st, 'precondition of access: position < size of the tree', 'precondition', L(p, e.ts))
    st.use('tbit', p)
    return [(st, TB(p) == 1)]


DBV = [MemContract('tree_rank', r'^DR::(operator\(\)|rank)\(', rank_), MemContract('tree_select1', r'^D1::(operator\(\)|select)\(', sel_(1)), MemContract('tree_select0', r'^D0::(operator\(\)|select)\(', sel_(0)), MemContract('tree[]', r'^DBV::operator\[\]', bit_)]


MASK = z3.Function('MASK', K32, BV)       # 1 << (max_level-1-k)
ONE = z3.BitVecVal(1, 64)


def bitof(e, k):
    """bit of c that decides at level k (from the highest)"""
    return e.cs & MASK(k) != 0


def shifts(c):
    """the facts about masks and prefixes used below, proved once"""
    e = c.e
    cs, Lv, k = fresh('c', 64), fresh('L', 64), fresh('k', 64)
    m = lambda j: ONE << (Lv - 1 - j)
    pi = lambda j: z3.LShR(cs, Lv - j)
    g = State()
    g.assume(z3.And(U(1, Lv), U(Lv, 64), L(k, Lv)))
    c.ensures(g, 'lemma: masks', z3.And(z3.Implies(L(k + 1, Lv), z3.And(m(k + 1) == z3.LShR(m(k), 1), m(k + 1) << 1 == m(k))), m(Lv - 1) == 1, m(k) != 0))
    c.ensures(g, 'lemma: prefixes', z3.And(pi(k + 1) == (pi(k) << 1) | z3.If(cs & m(k) != 0, ONE, Z0), pi(Lv) == cs))
    g.assume(z3.Or(Lv == 64, L(cs, ONE << Lv)))
    c.ensures(g, 'lemma: the empty prefix', pi(Z0) == 0)


def masks(e, k):
    return [MASK(k + 1) == z3.LShR(MASK(k), 1), z3.Implies(L(k + 1, e.Lv), MASK(k + 1) << 1 == MASK(k)), z3.Implies(k + 1 == e.Lv, MASK(k) == 1)]


def bit_rank(e, k):
    """the bit of the element at level k is the (ones before it)-th one or zero of the tree"""
    o, p = OFF(k), POS(k)
    j1, j0 = RK(o) + P1(k) + 1, o - RK(o) + (p - P1(k)) + 1
    b = bitof(e, k)
    return [z3.Implies(b, z3.And(POS(k + 1) == P1(k), S1(j1) == o + p, U(1, j1), U(j1, RK(e.ts)))), z3.Implies(z3.Not(b), z3.And(POS(k + 1) == p - P1(k), S0(j0) == o + p, U(1, j0), U(j0, e.ts - RK(e.ts))))]


def lev(e, k):
    """definition of the tree along the path of the symbol c, for one level k < max_level"""
    n, o, s, p = e.n, OFF(k), SZ(k), POS(k)
    b = bitof(e, k)
    D = [U(p, s), U(P1(k), p), U(P1(k), N1(k)), U(N1(k), s), U(p - P1(k), s - N1(k)), U(s, n), U(o + s, e.ts), U(o, e.ts), U(e.ts, 1 << 60),
         RK(o + p) == RK(o) + P1(k), RK(o + s) == RK(o) + N1(k), U(RK(o), o), U(RK(o + s), RK(e.ts)), U((o + s) - RK(o + s), e.ts - RK(e.ts)), U(RK(e.ts), e.ts),
         SZ(k + 1) == z3.If(b, N1(k), s - N1(k)), POS(k + 1) == z3.If(b, P1(k), p - P1(k)),
         PI(k + 1) == (PI(k) << 1) | z3.If(b, ONE, Z0), MASK(k) != 0] + masks(e, k)
    if e.kind == 't':
        D += [OFF(k + 1) == o + z3.If(b, s - N1(k), 0) + n]
    else:
        lk = theory.mul(z64(k), n)
        D += [ U(lk, o), U(o + s, lk + n), U(RL(z64(k)), RK(o)), U(ZC(z64(k)), n), U(lk, e.ts), U(lk + n, e.ts),
              OFF(k + 1) == theory.mul(z64(k + 1), n) + z3.If(b, ZC(z64(k)) + RK(o) - RL(z64(k)), o - lk - (RK(o) - RL(z64(k))))]
    if e.elem:      # the element at position i is c: it lies in every node of the path
        q = o + p
        D += [L(p, s), (TB(q) == 1) == b, U(TB(q), 1), z3.If(b, L(P1(k), N1(k)), L(p - P1(k), s - N1(k)))] + bit_rank(e, k)
    return z3.Implies(L(k, e.Lv), z3.And(D))


def setup(c, kind, elem, i=None):
    e = c.e
    e.loop_subst = True
    e.kind, e.elem = kind, elem
    e.n, e.ts, e.cs = (c.bv(x) for x in ('n', 'tree_bits', 'c'))
    e.Lv = c.bv('max_level', 32)
    e.L64 = z64(e.Lv)
    c.assume(U(1, e.n), U(e.n, 1 << 52), U(1, e.Lv), U(e.Lv, 64))
    if kind == 'm':
        c.assume(theory.mul(Z0, e.n) == 0)
    i = c.bv('i')
    c.assume(U(i, e.n) if not elem else L(i, e.n))
    c.assume(MASK(K0) == ONE << (e.L64 - 1), OFF(K0) == 0, SZ(K0) == e.n, POS(K0) == i, PI(K0) == 0, PI(e.Lv) == e.cs, MASK(e.Lv - 1) == 1)
    # c < 2^max_level
    c.assume(z3.Or(e.Lv == 64, L(e.cs, ONE << e.L64)) if elem else z3.BoolVal(True))
    shifts(c)
    c.st.facts.append(Quant('lev', lambda k: lev(e, k)))
    fields = {0: (8, e.n), 8: (8, c.bv('sigma')), 48: (4, e.Lv)}
    p = c.obj('wt', 256, fields)
    if kind == 'm':
        absvec(c, 'zero_cnt', ZC, e.L64, at=p.addc(56))
        absvec(c, 'rank_level', RL, e.L64, at=p.addc(88))
    ref = 72 if kind == 't' else 136        # public reference to max_level
    c.st.mem[p.r].s[ref] = (8, p.addc(48))
    return e, p, i


def lo32(j):
    return z3.simplify(z3.Extract(31, 0, j))


def lv(Lc, nm, k=0):
    return B(Lc.raw(nth_var(Lc, nm, k)), 32)


def use(Lc, k):
    Lc.st.use('lev', k)


def inv_at(e, kind, ret='res'):
    def f(Lc):
        k = lv(Lc, 'k')
        use(Lc, k)
        i = Lc.v('i')
        A = [('level', U(k, e.Lv)), ('the bits read so far are those of the symbol', Lc.v(ret) == PI(k))]
        if kind == 't':
            A += [('the node of the symbol', Lc.v('offset') == OFF(k)), ('the size of the node', Lc.v('node_size') == SZ(k)), ('the position in the node', i == POS(k))]
        else:
            A += [('the position of the symbol on the level', i == OFF(k) + POS(k))]
        return A
    return f


def t_at(c, kind):
    e, p, i = setup(c, kind, True)
    e.loopspecs = [LoopSpec(r'w[tm]_int<.*>::operator\[\]', 0, inv_at(e, kind), variant=lambda Lc: z64(e.Lv - lv(Lc, 'k')))]
    for st, x in c.call(kind + 'at', [p, i]):
        c.reach(st, 'access')
        st.use('lev', e.Lv)
        c.ensures(st, 'access returns the symbol', B(x, 64) == e.cs)
    for st, x in c.call(kind + 'size', [p]):
        c.ensures(st, 'size', B(x, 64) == e.n)



def t_inv(c, kind):
    e, p, i = setup(c, kind, True)
    a, b = c.obj('r', 8, {0: (8, c.bv('r_old'))}), c.obj('s', 8, {0: (8, c.bv('s_old'))})

    def inv(Lc):
        k = lv(Lc, 'k')
        use(Lc, k)
        A = [('level', U(k, e.Lv)), ('the bits read so far are those of the symbol', Lc.v('c') == PI(k)), ('the position of the symbol in its node', Lc.v('i') == POS(k))]
        if kind == 't':
            A += [('the node of the symbol', Lc.v('offset') == OFF(k)), ('the size of the node', Lc.v('node_size') == SZ(k))]
        else:
            A += [('the node of the symbol', Lc.v('b') == OFF(k))]
        return A
    e.loopspecs = [LoopSpec(r'w[tm]_int<.*>::inverse_select', 0, inv, variant=lambda Lc: z64(e.Lv - lv(Lc, 'k')))]
    for st, x in c.call(kind + 'inv', [p, i, a, b]):
        c.reach(st, 'inverse_select')
        c.ensures(st, 'inverse_select returns the symbol and the number of its occurrences before it', z3.And(B(c.ld(st, a, 0, 8), 64) == POS(e.Lv), B(c.ld(st, b, 0, 8), 64) == e.cs))


def prefix_lemma(c, k, pi):
    """PREFIX(k) = c >> (max_level-k), by induction over its definition: PREFIX(max_level) = c"""


def t_rank(c, kind):
    e, p, i = setup(c, kind, False)
    ok = z3.Or(e.Lv == 64, L(e.cs, ONE << e.L64))
    # nothing before position i in a node: nothing in its children
    c.st.facts.append(Quant('zero', lambda k: z3.Implies(z3.And(U(k, e.Lv), POS(k) == 0), POS(e.Lv) == 0)))
    ind = c.st.copy()
    k = c.bv('k', 32)
    ind.assume(z3.And(L(k, e.Lv), POS(k) == 0))
    ind.use('lev', k)
    c.ensures(ind, 'induction: an empty prefix of a node stays empty', POS(k + 1) == 0)

    def inv(Lc):
        k = lv(Lc, 'k')
        use(Lc, k)
        Lc.st.use('zero', k)
        A = [('level', U(k, e.Lv)), ('the mask selects the bit of the level', Lc.v('mask') == MASK(k)), ('the elements with the prefix of c before position i', Lc.v('i') == POS(k))]
        if kind == 't':
            A += [('the node of the prefix', Lc.v('offset') == OFF(k)), ('the size of the node', Lc.v('node_size') == SZ(k))]
        else:
            A += [('the node of the prefix', Lc.v('b') == OFF(k))]
        return A
    e.loopspecs = [LoopSpec(r'w[tm]_int<.*>::rank', 0, inv, variant=lambda Lc: z64(e.Lv - lv(Lc, 'k')))]
    for st, x in c.call(kind + 'rank', [p, i, e.cs]):
        c.reach(st, 'rank')
        c.ensures(st, 'rank counts the occurrences of c before position i', B(x, 64) == z3.If(ok, POS(e.Lv), 0))





def levu(e, k):
    """one step upwards along the path of the element: consequence of lev(k)"""
    o, p, q = OFF(k), POS(k), POS(k + 1)
    j1, j0 = RK(o) + q + 1, o - RK(o) + q + 1
    return z3.Implies(L(k, e.Lv), z3.And(z3.If(e.cs & MASK(k) != 0, z3.And(S1(j1) == o + p, U(1, j1), U(j1, RK(e.ts))), z3.And(S0(j0) == o + p, U(1, j0), U(j0, e.ts - RK(e.ts)))),
                                         z3.Implies(L(k + 1, e.Lv), MASK(k + 1) << 1 == MASK(k)), z3.Implies(k + 1 == e.Lv, MASK(k) == 1)))


def _throw(e, st, a):
    e.oblige(st, 'no exception is thrown', 'precondition', z3.BoolVal(False))
    return []


THROW = MemContract('util::to_string (only called on the way to a throw)', r'sdsl::util::to_string<', _throw)


def t_sel(c, kind):
    """select(r, c) for the element at position i0, which is the r-th c"""
    e, p, i0 = setup(c, kind, True)
    r = POS(e.Lv) + 1
    kk = c.bv('k', 32)
    for what, bb in (('right', True), ('left', False)):
        g = State()
        for x in bit_rank(e, kk):
            g.assume(x)
        g.assume(bitof(e, kk) if bb else z3.Not(bitof(e, kk)))
        for x in masks(e, kk):
            g.assume(x)
        c.ensures(g, 'lemma: one step upwards from a %s child' % what, levu(e, kk))
    c.assume(L(POS(e.Lv), e.n), L(POS(e.Lv), SZ(e.Lv)))
    c.st.facts.append(Quant('levu', lambda k: levu(e, k)))

    def arrs(Lc):
        o, q = Lc.raw('m_path_off'), Lc.raw('m_path_rank_off')
        return o, q

    def word(Lc, nm, k):
        o = Lc.fr.loc[nm]
        d = c.ld(Lc.st, o, 8, 8)
        return c.A(Lc.st, d)[k]

    def down(Lc):
        k = lv(Lc, 'k', 0)
        use(Lc, k)
        po, pr = (lambda j: word(Lc, 'm_path_off', j)), (lambda j: word(Lc, 'm_path_rank_off', j))
        A = [('level', U(k, e.Lv)), ('the mask selects the bit of the level', Lc.v('mask') == MASK(k)),
             ('the nodes of the path so far are recorded', Quant('path', lambda j: z3.Implies(U(j, z64(k)), po(j) == OFF(lo32(j))))), ('the ranks of the path so far are recorded', Quant('path', lambda j: z3.Implies(L(j, z64(k)), pr(j) == RK(OFF(lo32(j))))))]
        if kind == 't':
            A += [('the node of the prefix of c', Lc.v('offset') == OFF(k)), ('the size of the node', Lc.v('node_size') == SZ(k))]
        else:
            x, y, s = Lc.v('b'), Lc.v('r'), SZ(k)
            # rank grows by 0 or 1 per position, so the first y bits of the node have at most its ones and at most its zeros
            Lc.st.assume(z3.Implies(z3.And(U(y, s), x == OFF(k), L(k, e.Lv)), z3.And(U(RK(x + y) - RK(x), N1(k)), U(y - (RK(x + y) - RK(x)), s - N1(k)))))
            A += [('the node of the prefix of c', z3.And(Lc.v('b') == OFF(k))), ('r stays inside the node', U(y, s))]
        return A

    def up(Lc):
        k = lv(Lc, 'k', 1)
        Lc.st.facts = [q for q in Lc.st.facts if 'lev' not in q.tags]
        Lc.st.use('levu', k - 1)
        Lc.st.use('path', z64(k - 1))
        return [('level', U(k, e.Lv)), ('the mask selects the bit of the level below', z3.Implies(k != 0, Lc.v('mask') == MASK(k - 1))), ('the position of the element in its node', Lc.v('i') == POS(k) + 1)]
    e.loopspecs = [LoopSpec(r'w[tm]_int<.*>::select', 0, down, variant=lambda Lc: z64(e.Lv - lv(Lc, 'k', 0))), LoopSpec(r'w[tm]_int<.*>::select', 1, up, variant=lambda Lc: z64(lv(Lc, 'k', 1)))]
    for st, x in c.call(kind + 'sel', [p, r, e.cs]):
        c.reach(st, 'select')
        c.ensures(st, 'select(k,c) is the position of the k-th c', B(x, 64) == i0)


# ---------------------------------------------------------------- wt_pc: any prefix code, any tree
# along the path of one symbol, nodes NODE(0) = root .. NODE(PL) = its leaf; NLEVEL(NODE(l)) = l
NODE, NLEVEL, BVP, PO, PO1, PW, QW = (z3.Function(n, BV, K32) if n == 'LEVEL' else z3.Function(n, K32, BV) for n in ('NODE', 'LEVEL', 'BVPOS', 'POS_IN_NODE', 'ONES_IN_NODE', 'PATHREST', 'PATHUP'))
LEAF, PATH = z3.Function('LEAF_OF', BV, BV), z3.Function('PATH_OF', BV, BV)
UNDEF = z3.BitVecVal((1 << 64) - 1, 64)


def plev(e, l):
    l1 = z3.simplify(l + 1)
    o, p = BVP(l), PO(l)
    b = PW(l) & 1 == 1
    j1, j0 = RK(o) + PO(l1) + 1, o - RK(o) + PO(l1) + 1
    D = [NODE(l) != UNDEF, NLEVEL(NODE(l)) == l, NLEVEL(NODE(l1)) == l + 1, U(o, e.ts), U(p, e.ts - o), U(e.ts, 1 << 60), U(PO1(l), p), U(p, e.n), RK(o + p) == RK(o) + PO1(l), U(RK(o), o), U(RK(e.ts), e.ts),
         PW(l1) == z3.LShR(PW(l), 1), QW(l) == QW(l1) << 1, (z3.Extract(63, 63, QW(l1)) == 1) == b, PO(l1) == z3.If(b, PO1(l), p - PO1(l))]
    if e.elem:
        q = o + p
        D += [L(p, e.ts - o), (TB(q) == 1) == b, U(TB(q), 1), z3.If(b, z3.And(S1(j1) == q, U(1, j1), U(j1, RK(e.ts))), z3.And(S0(j0) == q, U(1, j0), U(j0, e.ts - RK(e.ts))))]
    return z3.Implies(L(l, e.PL), z3.And(D))


def psetup(c, kind, elem):
    e = c.e
    e.loop_subst = True
    e.kind, e.elem, e.levmap, e.keep = kind, elem, {}, []
    e.n, e.ts, e.cs, e.sg, _ = (c.bv(x) for x in ('n', 'tree_bits', 'c', 'sigma', 'unused'))
    if kind == 'p':
        e.cs = z3.simplify(z64(c.bv('c', 8)))
    e.PL = z3.simplify(z3.Extract(31, 0, z3.LShR(PATH(e.cs), 56)))        # length of its path
    i = c.bv('i')
    c.assume(U(1, e.n), U(e.n, 1 << 52), L(i, e.n) if elem else U(i, e.n), U(e.PL, 56), NODE(K0) != UNDEF)
    path = PATH(e.cs)
    # a symbol of the sequence has a leaf and a path; with one symbol only the root is its leaf
    c.assume(z3.Or(LEAF(e.cs) == UNDEF, z3.And(LEAF(e.cs) == NODE(e.PL), (e.sg == 1) == (e.PL == 0))), NODE(e.PL) != UNDEF, NLEVEL(NODE(e.PL)) == e.PL, U(1, e.sg))
    if elem:
        c.assume(LEAF(e.cs) != UNDEF, U(PO(e.PL), e.n))
    c.assume(BVP(K0) == 0, PO(K0) == i, PW(K0) == path, QW(e.PL) == path << (64 - z64(e.PL)))
    g = State()
    w, l = c.bv('w'), c.bv('l')
    g.assume(L(l, 56))
    c.ensures(g, 'lemma: bits of a path', (z3.Extract(63, 63, w << (64 - (l + 1))) == 1) == (z3.LShR(w, l) & 1 == 1))
    c.ensures(g, 'lemma: shifting a path', z3.And(z3.LShR(w, l + 1) == z3.LShR(z3.LShR(w, l), 1), z3.Implies(l != 0, w << (64 - l) == (w << (64 - (l + 1))) << 1)))
    c.st.facts.append(Quant('plev', lambda l: plev(e, l)))
    c.st.use('plev', K0)
    p = c.obj('wt', 128, {0: (8, e.n), 8: (8, e.sg)})
    return e, p, i


def at_level(Lc, v, l):
    # v is the node of level l of the path (an invariant): only a hint, node_of proves it at every use
    e = Lc.eng
    e.keep.append(v)
    e.levmap[z3.simplify(v).get_id()] = l


def node_of(e, st, v, what):
    v = z3.simplify(v)
    l = e.levmap.get(v.get_id())
    if l is None:
        l = v.arg(0) if v.decl().eq(NODE) else z3.simplify(NLEVEL(v))
    l = z3.simplify(l)
    e.oblige(st, '%s: node of the path' % what, 'precondition', z3.And(U(l, e.PL), v == NODE(l)))
    st.use('plev', l)
    return l


def _root(e, st, a):
    return [(st, NODE(K0))]


def _isleaf(e, st, a):
    l = node_of(e, st, B(a[1], 64), 'is_leaf')
    return [(st, l == e.PL)]


def _child(e, st, a):
    l = node_of(e, st, B(a[1], 64), 'child')
    b = B(a[2], 8)
    e.oblige(st, 'child: inner node, the side of the symbol', 'precondition', z3.And(L(l, e.PL), z64(b) == PW(l) & 1))
    return [(st, NODE(l + 1))]


def _parent(e, st, a):
    l = node_of(e, st, B(a[1], 64), 'parent')
    e.oblige(st, 'parent: not the root', 'precondition', l != 0)
    st.use('plev', z3.simplify(l - 1))
    return [(st, NODE(l - 1))]


def _bvpos(e, st, a):
    l = node_of(e, st, B(a[1], 64), 'bv_pos')
    e.oblige(st, 'bv_pos: inner node', 'precondition', L(l, e.PL))
    return [(st, BVP(l))]


def _bvrank(e, st, a):
    l = node_of(e, st, B(a[1], 64), 'bv_pos_rank')
    if not e.feasible(st, [l == e.PL]):
        return [(st, RK(BVP(l)))]
    if not e.feasible(st, [l != e.PL]):
        return [(st, e.cs)]
    return [(st, z3.If(l == e.PL, e.cs, RK(BVP(l))))]


def w64(x, w=8):
    b = B(x, w)
    return z3.simplify(z64(b) if b.size() < 64 else b)


def _leafof(e, st, a):
    x = w64(a[1], 8 if e.kind == 'p' else 64)
    return [(st, LEAF(x))]


def _pathof(e, st, a):
    return [(st, PATH(w64(a[1], 8 if e.kind == 'p' else 64)))]


TREE = [MemContract('tree.' + n, r'^DTree<.*>::%s\(' % n, f) for n, f in (('root', _root), ('is_leaf', _isleaf), ('child', _child), ('parent', _parent), ('bv_pos', _bvpos), ('bv_pos_rank', _bvrank), ('c_to_leaf', _leafof), ('is_valid', lambda e, st, a: [(st, B(a[1], 64) != UNDEF)]), ('bit_path', _pathof))]


def t_pat(c, kind):
    e, p, i = psetup(c, kind, True)
    a, b = c.obj('r', 8, {0: (8, c.bv('r_old'))}), c.obj('s', 8, {0: (8, c.bv('s_old'))})

    def inv(Lc):
        v = z3.simplify(Lc.v('v'))
        l = z3.simplify(v.arg(0)) if v.decl().eq(NODE) else NLEVEL(v)
        Lc.st.use('plev', l)
        return [('a node of the path of the symbol', z3.And(v == NODE(l), U(l, e.PL))), ('the position in the node', Lc.v('i') == PO(l))]
    e.loopspecs = [LoopSpec(r'wt_pc<.*>::%s' % f, 0, inv, variant=lambda Lc: z64(e.PL - NLEVEL(Lc.v('v')))) for f in (r'operator\[\]', 'inverse_select')]
    for st, x in c.call(kind + 'at', [p, i]):
        c.reach(st, 'access')
        c.ensures(st, 'access returns the symbol', w64(x, 64) == e.cs)
    for st, x in c.call(kind + 'inv', [p, i, a, b]):
        c.reach(st, 'inverse_select')
        c.ensures(st, 'inverse_select returns the symbol and the number of its occurrences before it', z3.And(B(c.ld(st, a, 0, 8), 64) == PO(e.PL), B(c.ld(st, b, 0, 8), 64) == e.cs))
    for st, x in c.call(kind + 'size', [p]):
        c.ensures(st, 'size', B(x, 64) == e.n)


def t_prank(c, kind):
    e, p, i = psetup(c, kind, False)
    c.st.facts.append(Quant('pzero', lambda l: z3.Implies(z3.And(U(l, e.PL), PO(l) == 0), PO(e.PL) == 0)))
    ind = c.st.copy()
    k = c.bv('k', 32)
    ind.assume(z3.And(L(k, e.PL), PO(k) == 0))
    ind.use('plev', k)
    c.ensures(ind, 'induction: an empty prefix of a node stays empty', PO(k + 1) == 0)

    def inv(Lc):
        l = lv(Lc, 'l')
        Lc.st.use('plev', l)
        Lc.st.use('pzero', l)
        v = Lc.v('v')
        at_level(Lc, v, l)
        return [('a node of the path of the symbol', z3.And(v == NODE(l), U(l, e.PL))), ('the rest of the path', Lc.v('p') == PW(l)), ('occurrences with this prefix before position i', Lc.v('result') == PO(l))]
    e.loopspecs = [LoopSpec(r'wt_pc<.*>::rank', 0, inv, variant=lambda Lc: z64(e.PL - lv(Lc, 'l')))]
    for st, x in c.call(kind + 'rank', [p, i, e.cs]):
        c.reach(st, 'rank')
        c.ensures(st, 'rank counts the occurrences of c before position i (0 if absent)', B(x, 64) == z3.If(LEAF(e.cs) == UNDEF, 0, PO(e.PL)))


def t_psel(c, kind):
    e, p, i0 = psetup(c, kind, True)

    def inv(Lc):
        l = lv(Lc, 'l')
        k = z3.simplify(e.PL - l)
        Lc.st.use('plev', z3.simplify(k - 1))
        v = Lc.v('v')
        at_level(Lc, v, k)
        return [('a node of the path of the symbol', z3.And(U(l, e.PL), v == NODE(k))), ('the rest of the path', Lc.v('p') == QW(k)), ('the position in the node', Lc.v('result') == PO(k))]
    e.loopspecs = [LoopSpec(r'wt_pc<.*>::select', 0, inv, variant=lambda Lc: z64(e.PL - lv(Lc, 'l')))]
    for st, x in c.call(kind + 'sel', [p, PO(e.PL) + 1, e.cs]):
        c.reach(st, 'select')
        c.ensures(st, 'select(k,c) is the position of the k-th c', B(x, 64) == i0)


def tasks(tier):
    return [(k + n, f, (k,), '') for n, f in (('at', t_at), ('inverse_select', t_inv), ('rank', t_rank), ('select', t_sel)) for k in 'tm'] + [(k + n, f, (k,), '') for n, f in (('access', t_pat), ('rank', t_prank), ('select', t_psel)) for k in 'pq']


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + DBV + TREE + AV + VNEW + [THROW], mul_uf=True, externs=EXT)
