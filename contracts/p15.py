"""P15: range queries on wavelet trees equal a scan of the range."""
from . import p14 as w
from .common import *
from .p06 import EXT
from .p14 import RK, TB, S1, S0, OFF, SZ, POS, P1, N1, PI, MASK, ONE, Z0, K0, K32, BV, DBV, lv, masks, bitof, PO, PO1, PW, NODE, LEAF, PATH, NLEVEL, UNDEF, BVP, plev, psetup, at_level, TREE

TITLE = 'wavelet trees: range queries'
UNIT = w.UNIT + '''
struct DW { typedef uint64_t value_type; typedef uint64_t size_type; typedef uint64_t node_type; enum { lex_ordered = 1 }; uint64_t x; DW(); DW(const DW&); DW& operator=(const DW&); ~DW();
  node_type root() const; bool is_leaf(const node_type&) const; value_type sym(const node_type&) const; std::array<node_type,2> expand(const node_type&) const; std::array<range_type,2> expand(const node_type&, const range_type&) const; std::pair<size_type,value_type> inverse_select(size_type) const; };
typedef std::vector<uint64_t> V8; typedef std::vector<uint8_t> V1;
extern "C" {
''' + ''.join('''
void %(k)slex(const %(T)s& s, uint64_t i, uint64_t j, uint64_t c, uint64_t* o){ auto x = s.lex_count(i,j,c); o[0] = std::get<0>(x); o[1] = std::get<1>(x); o[2] = std::get<2>(x); }
void %(k)slexs(const %(T)s& s, uint64_t i, uint64_t c, uint64_t* o){ auto x = s.lex_smaller_count(i,c); o[0] = std::get<0>(x); o[1] = std::get<1>(x); }
''' % {'k': k, 'T': T} for k, T in (('t', 'TT'), ('p', 'TP'), ('q', 'TQ'))) + ''.join('''
void %(k)sexp(const %(T)s& s, uint64_t* v, uint64_t* o){ %(T)s::node_type n(v[0],v[1],v[2],v[3]); auto x = s.expand(n); for (int i=0;i<2;++i) { o[4*i] = x[i].offset; o[4*i+1] = x[i].size; o[4*i+2] = x[i].level; o[4*i+3] = x[i].sym; } }
void %(k)sexpr(const %(T)s& s, uint64_t* v, uint64_t l, uint64_t r, uint64_t* o){ %(T)s::node_type n(v[0],v[1],v[2],v[3]); range_type q {{l,r}}; auto x = s.expand(n,q); o[0] = x[0][0]; o[1] = x[0][1]; o[2] = x[1][0]; o[3] = x[1][1]; }
''' % {'k': k, 'T': T} for k, T in (('t', 'TT'), ('m', 'TM'))) + '''
void pexp(const TP& s, uint64_t v, uint64_t* o){ auto x = s.expand(v); o[0] = x[0]; o[1] = x[1]; }
void pexpr(const TP& s, uint64_t v, uint64_t l, uint64_t r, uint64_t* o){ range_type q {{l,r}}; auto x = s.expand(v,q); o[0] = x[0][0]; o[1] = x[0][1]; o[2] = x[1][0]; o[3] = x[1][1]; }
void dquant(const DW& s, uint64_t l, uint64_t r, uint64_t q, uint64_t* o){ auto x = quantile_freq(s,l,r,q); o[0] = x.first; o[1] = x.second; }
void tis(const TT& s, uint64_t i, uint64_t j, uint64_t& k, V8& c, V8& a, V8& b){ s.interval_symbols(i,j,k,c,a,b); }
void pis(const TP& s, uint64_t i, uint64_t j, uint64_t& k, V1& c, V8& a, V8& b){ s.interval_symbols(i,j,k,c,a,b); }
void dis(const DW& s, uint64_t i, uint64_t j, uint64_t& k, V8& c, V8& a, V8& b){ sdsl::_interval_symbols(s,i,j,k,c,a,b); }
uint64_t dsz(uint64_t l, uint64_t r){ range_type q {{l,r}}; return sdsl::size(q); }
}
'''
LIBS = ['bits.cpp', 'wt_helper.cpp']
DRIVER_LIBS, DRIVER_FLAGS, DRIVER_SECS = ALL_LIBS, SORT, 20.0
ASSUMPTIONS = ['sequences of at most 2^52 symbols']
TRUSTED = ['the levels of the tree store what the wavelet tree / wavelet matrix is by definition (class invariant; the constructors are only covered by the bounded native driver)',
           'access, rank and select of the bit vector: assumed contracts (P06..P11)',
           'the number of symbols of a range below (above) c is the sum over the levels of the elements leaving the path of c to the left (right): definition of the ghost functions SMALLER and GREATER']

# second position of the query range, per level; elements of the range smaller / greater than c that left its path so far
POS2, Q1, SM, GR = (z3.Function(n, K32, BV) for n in ('POSITION2', 'ONES_BEFORE2', 'SMALLER', 'GREATER'))


def lev15(e, k):
    n, o, s, p, q, b = e.n, OFF(k), SZ(k), POS(k), POS2(k), bitof(e, k)
    k1 = z3.simplify(k + 1)
    z1, z2 = p - P1(k), q - Q1(k)
    D = [U(p, q), U(q, s), U(s, n), U(o, e.ts), U(o + s, e.ts), U(P1(k), p), U(P1(k), Q1(k)), U(Q1(k), q), U(z1, z2), U(Q1(k), N1(k)), U(N1(k), s), U(z2, s - N1(k)), U(e.ts, 1 << 60),
         RK(o + p) == RK(o) + P1(k), RK(o + q) == RK(o) + Q1(k), RK(o + s) == RK(o) + N1(k), U(RK(o), o),
         OFF(k1) == o + z3.If(b, s - N1(k), 0) + n, SZ(k1) == z3.If(b, N1(k), s - N1(k)), POS(k1) == z3.If(b, P1(k), z1), POS2(k1) == z3.If(b, Q1(k), z2),
         SM(k1) == SM(k) + z3.If(b, z2 - z1, 0), GR(k1) == GR(k) + z3.If(b, 0, Q1(k) - P1(k)), MASK(k) != 0] + masks(e, k)
    return z3.Implies(L(k, e.Lv), z3.And(D))


def tsetup(c):
    e = c.e
    e.loop_subst = True
    e.kind, e.n, e.ts, e.cs, e.Lv = 't', c.bv('n'), c.bv('tree_bits'), c.bv('c'), c.bv('max_level', 32)
    e.L64 = z64(e.Lv)
    i, j = c.bv('i'), c.bv('j')
    c.assume(U(1, e.n), U(e.n, 1 << 52), U(1, e.Lv), U(e.Lv, 64), U(i, j), U(j, e.n))
    c.assume(MASK(K0) == ONE << (e.L64 - 1), OFF(K0) == 0, SZ(K0) == e.n, POS(K0) == i, POS2(K0) == j, SM(K0) == 0, GR(K0) == 0, MASK(e.Lv - 1) == 1)
    w.shifts(c)
    c.st.facts.append(Quant('lev', lambda k: lev15(e, k)))
    p = c.obj('wt', 256, {0: (8, e.n), 8: (8, c.bv('sigma')), 48: (4, e.Lv)})
    c.st.mem[p.r].s[72] = (8, p.addc(48))
    return e, p, i, j


def out(c, n, nm='o'):
    return c.obj(nm, 8 * n, {8 * k: (8, c.bv(nm + '_old')) for k in range(n)})


def get(c, st, o, k):
    return B(c.ld(st, o, 8 * k, 8), 64)


def t_lex(c, kind):
    e, p, i, j = tsetup(c)
    ok = z3.Or(e.Lv == 64, L(e.cs, ONE << e.L64))
    o = out(c, 3)

    def inv(Lc):
        k = lv(Lc, 'k')
        Lc.st.use('lev', k)
        return [('level', U(k, e.Lv)), ('the mask selects the bit of the level', Lc.v('mask') == MASK(k)), ('the node of the prefix', Lc.v('offset') == OFF(k)), ('the size of the node', Lc.v('node_size') == SZ(k)), ('elements with the prefix of c before i', Lc.v('i') == POS(k)), ('elements with the prefix of c before j', Lc.v('j') == POS2(k)),
                ('elements with a smaller prefix', Lc.v('smaller') == SM(k)), ('elements with a greater prefix', Lc.v('greater') == GR(k))]
    e.loopspecs = [LoopSpec(r'wt_int<.*>::lex_count', 0, inv, variant=lambda Lc: z64(e.Lv - lv(Lc, 'k')))]
    for st, x in c.call('tlex', [p, i, j, e.cs, o]):
        c.reach(st, 'lex_count')
        c.ensures(st, 'lex_count: occurrences of c before i', get(c, st, o, 0) == z3.If(ok, POS(e.Lv), 0))
        c.ensures(st, 'lex_count: symbols of the range smaller than c', get(c, st, o, 1) == z3.If(ok, SM(e.Lv), j - i))
        c.ensures(st, 'lex_count: symbols of the range greater than c', get(c, st, o, 2) == z3.If(ok, GR(e.Lv), 0))


def t_lexs(c, kind):
    e, p, i, j = tsetup(c)
    c.assume(i == 0)
    ok = z3.Or(e.Lv == 64, L(e.cs, ONE << e.L64))
    o = out(c, 2)
    # nothing left: nothing on the levels below, nothing more leaves the path
    c.st.facts.append(Quant('zero', lambda k: z3.Implies(z3.And(U(k, e.Lv), POS2(k) == 0), z3.And(POS2(e.Lv) == 0, SM(e.Lv) == SM(k)))))
    c.st.facts.append(Quant('low', lambda k: z3.Implies(U(k, e.Lv), POS(k) == 0)))
    k = c.bv('k', 32)
    ind = c.st.copy()
    ind.assume(z3.And(L(k, e.Lv), POS2(k) == 0))
    ind.use('lev', k)
    c.ensures(ind, 'induction: an empty prefix of a node stays empty', z3.And(POS2(k + 1) == 0, SM(k + 1) == SM(k)))
    ind = c.st.copy()
    ind.facts = [q for q in ind.facts if 'low' not in q.tags]
    ind.assume(z3.And(L(k, e.Lv), POS(k) == 0))
    ind.use('lev', k)
    c.ensures(ind, 'induction: nothing is before position 0', POS(k + 1) == 0)

    def inv(Lc):
        k = lv(Lc, 'k')
        for t in ('lev', 'zero', 'low'):
            Lc.st.use(t, k)
        return [('level', U(k, e.Lv)), ('the mask selects the bit of the level', Lc.v('mask') == MASK(k)), ('the node of the prefix', Lc.v('offset') == OFF(k)), ('the size of the node', Lc.v('node_size') == SZ(k)), ('elements with the prefix of c before i', Lc.v('i') == POS2(k)), ('elements with a smaller prefix', Lc.v('result') == SM(k))]
    e.loopspecs = [LoopSpec(r'wt_int<.*>::lex_smaller_count', 0, inv, variant=lambda Lc: z64(e.Lv - lv(Lc, 'k')))]
    for st, x in c.call('tlexs', [p, j, e.cs, o]):
        c.reach(st, 'lex_smaller_count')
        c.ensures(st, 'lex_smaller_count: occurrences of c before i', get(c, st, o, 0) == z3.If(ok, POS2(e.Lv), 0))
        c.ensures(st, 'lex_smaller_count: symbols before i smaller than c', get(c, st, o, 1) == z3.If(ok, SM(e.Lv), j))


# ---------------------------------------------------------------- wt_pc
R2, R21, SMP, GRP = (z3.Function(n, K32, BV) for n in ('POS2_IN_NODE', 'ONES2_IN_NODE', 'SMALLER_P', 'GREATER_P'))
ONLY = z3.BitVec('THE_ONLY_SYMBOL', 64)


PBIT = z3.Function('PATHBIT', K32, z3.BoolSort())


def plev15(e, l):
    l1 = z3.simplify(l + 1)
    p, q, o = PO(l), R2(l), BVP(l)
    b = PBIT(l)
    x, y = PO1(l), R21(l)
    D = [b == (PW(l) & 1 == 1), PW(l1) == z3.LShR(PW(l), 1), NODE(l) != UNDEF, NLEVEL(NODE(l)) == l, NLEVEL(NODE(l1)) == l1, U(o, e.ts), U(e.ts, 1 << 60), U(RK(o), o), U(p, q), U(q, e.ts - o), U(q, e.n), U(y, q), U(x, y), U(p - x, q - y), U(x, p),
         RK(o + p) == RK(o) + x, RK(o + q) == RK(o) + y,
         z3.Implies(b, z3.And(PO(l1) == x, R2(l1) == y, SMP(l1) == SMP(l) + ((q - p) - (y - x)), GRP(l1) == GRP(l))), z3.Implies(z3.Not(b), z3.And(PO(l1) == p - x, R2(l1) == q - y, SMP(l1) == SMP(l), GRP(l1) == GRP(l) + (y - x)))]
    return z3.Implies(L(l, e.PL), z3.And(D))


def p15setup(c, kind):
    c.e.loop_subst = True
    e, p, i = psetup(c, kind, False)
    c.st.facts = [q for q in c.st.facts if 'plev' not in q.tags]
    c.st.facts.append(Quant('plev', lambda l: plev15(e, l)))
    j = c.bv('j')
    c.assume(R2(K0) == j, SMP(K0) == 0, GRP(K0) == 0, U(i, j), U(j, e.n), LEAF(e.cs) != UNDEF)
    c.st.use('plev', K0)
    return e, p, i, j


def _wtrank(e, st, a):
    e.oblige(st, 'rank: position of the range, the symbol', 'precondition', z3.And(B(a[1], 64) == PO(K0), w.w64(a[2], 8 if e.kind == 'p' else 64) == e.cs))
    return [(st, PO(e.PL))]


WTRANK = MemContract('wt_pc::rank', r'wt_pc<.*>::rank\(', _wtrank)


def t_plex(c, kind):
    e, p, i, j = p15setup(c, kind)
    o = out(c, 3)
    c.assume(z3.Implies(i == j, z3.And(SMP(e.PL) == 0, GRP(e.PL) == 0)))
    g = c.st.copy()
    k = c.bv('k', 32)
    g.assume(z3.And(L(k, e.PL), PO(k) == R2(k), SMP(k) == 0, GRP(k) == 0))
    g.use('plev', k)
    c.ensures(g, 'induction: an empty range stays empty', z3.And(PO(k + 1) == R2(k + 1), SMP(k + 1) == 0, GRP(k + 1) == 0))

    def inv(Lc):
        l = lv(Lc, 'l')
        Lc.st.use('plev', l)
        v = Lc.v('v')
        at_level(Lc, v, l)
        return [('a node of the path of the symbol', z3.And(v == NODE(l), U(l, e.PL))), ('the rest of the path', Lc.v('p') == PW(l)), ('elements with this prefix before i', Lc.v('i') == PO(l)), ('elements with this prefix before j', Lc.v('j') == R2(l)), ('elements with a smaller prefix', Lc.v('smaller') == SMP(l)), ('elements with a greater prefix', Lc.v('greater') == GRP(l))]
    e.loopspecs = [LoopSpec(r'wt_pc<.*>::lex_count', 0, inv, variant=lambda Lc: z64(e.PL - lv(Lc, 'l')))]
    for st, x in c.call(kind + 'lex', [p, i, j, e.cs, o]):
        c.reach(st, 'lex_count')
        c.ensures(st, 'lex_count: occurrences of c before i', get(c, st, o, 0) == PO(e.PL))
        c.ensures(st, 'lex_count: symbols of the range smaller than c', get(c, st, o, 1) == SMP(e.PL))
        c.ensures(st, 'lex_count: symbols of the range greater than c', get(c, st, o, 2) == GRP(e.PL))


def t_plexs(c, kind):
    e, p, i, j = p15setup(c, kind)
    o = out(c, 2)
    c.assume(i == 0)
    c.st.facts.append(Quant('zero', lambda k: z3.Implies(z3.And(U(k, e.PL), R2(k) == 0), z3.And(R2(e.PL) == 0, SMP(e.PL) == SMP(k)))))
    c.st.facts.append(Quant('low', lambda k: z3.Implies(U(k, e.PL), PO(k) == 0)))
    k = c.bv('k', 32)
    for what, asm, goal in (('an empty prefix of a node stays empty', R2(k) == 0, z3.And(R2(k + 1) == 0, SMP(k + 1) == SMP(k))), ('nothing is before position 0', PO(k) == 0, PO(k + 1) == 0)):
        g = c.st.copy()
        g.facts = [q for q in g.facts if 'plev' in q.tags]
        g.assume(z3.And(L(k, e.PL), asm))
        g.use('plev', k)
        c.ensures(g, 'induction: ' + what, goal)

    def inv(Lc):
        l = lv(Lc, 'l')
        for t in ('plev', 'zero', 'low'):
            Lc.st.use(t, l)
        v = Lc.v('v')
        at_level(Lc, v, l)
        return [('a node of the path of the symbol', z3.And(v == NODE(l), U(l, e.PL))), ('the rest of the path', Lc.v('p') == PW(l)), ('elements with this prefix before i', Lc.v('all') == R2(l)), ('elements with a smaller prefix', Lc.v('result') == SMP(l))]
    e.loopspecs = [LoopSpec(r'wt_pc<.*>::lex_smaller_count', 0, inv, variant=lambda Lc: z64(e.PL - lv(Lc, 'l')))]
    for st, x in c.call(kind + 'lexs', [p, j, e.cs, o]):
        c.reach(st, 'lex_smaller_count')
        c.ensures(st, 'lex_smaller_count: occurrences of c before i', get(c, st, o, 0) == R2(e.PL))
        c.ensures(st, 'lex_smaller_count: symbols before i smaller than c', get(c, st, o, 1) == SMP(e.PL))


# a symbol that does not occur: its path is empty and names the next smaller symbol of the tree (itself if there is none)
def _lexrec(e, st, a):
    e.oblige(st, 'lex_count of the next smaller symbol', 'precondition', z3.And(B(a[2], 64) == e.i, B(a[3], 64) == e.j, w.w64(a[4], 8 if e.kind == 'p' else 64) == e.pred))
    for off, v in ((16, e.r0), (8, e.j - e.i - e.gr - e.eq), (0, e.gr)):
        e.store_raw(st, a[0].addc(off), 8, v)
    return [(st, None)]


def _lexsrec(e, st, a):
    e.oblige(st, 'lex_smaller_count of the next smaller symbol', 'precondition', z3.And(B(a[2], 64) == e.j, w.w64(a[3], 8 if e.kind == 'p' else 64) == e.pred))
    e.store_raw(st, a[0].addc(8), 8, e.eq)
    e.store_raw(st, a[0], 8, e.sm)
    return [(st, None)]


def t_pabs(c, kind):
    """symbol c without a leaf"""
    e = c.e
    e.kind = kind
    e.n, e.ts, e.cs, e.sg, e.i, e.j, e.pred, e.r0, e.gr, e.eq, e.sm = (c.bv(x) for x in ('n', 'tree_bits', 'c', 'sigma', 'i', 'j', 'pred', 'rank_pred', 'greater', 'equal', 'smaller'))
    i, j = e.i, e.j
    c.assume(U(1, e.n), U(e.n, 1 << 52), U(i, j), U(j, e.n), U(1, e.sg), LEAF(e.cs) == UNDEF)
    if kind == 'p':
        c.assume(U(e.cs, 255), U(e.pred, 255), U(ONLY, 255))
    else:
        # the path of an absent symbol has 56 bits to name the smaller symbol
        c.assume(L(e.pred, 1 << 56), L(e.cs, 1 << 56))
    c.assume(PATH(e.cs) == z3.If(e.has, e.pred, e.cs) if False else z3.Or(PATH(e.cs) == e.cs, z3.And(PATH(e.cs) == e.pred, L(e.pred, e.cs))), ONLY != e.cs)
    none = PATH(e.cs) == e.cs                                            # c is smaller than every symbol
    c.assume(z3.Implies(none, e.gr == j - i), U(e.gr, j - i), U(e.eq, j - i - e.gr), z3.Implies(none, z3.And(e.sm == 0, e.eq == 0)), U(e.sm, 1 << 52), U(e.eq, 1 << 52))
    c.assume(z3.Implies(e.sg == 1, e.gr == z3.If(L(e.cs, ONLY), j - i, 0)), z3.Implies(e.sg == 1, e.sm + e.eq == z3.If(L(e.cs, ONLY), 0, j)))
    c.assume(z3.Implies(i == j, e.gr == 0))
    p = c.obj('wt', 128, {0: (8, e.n), 8: (8, e.sg)})
    o = out(c, 3)
    e.contracts = list(e.contracts)
    for st, x in c.call(kind + 'lex', [p, i, j, e.cs, o]):
        c.reach(st, 'lex_count')
        c.ensures(st, 'lex_count of an absent symbol: it does not occur', get(c, st, o, 0) == 0)
        c.ensures(st, 'lex_count of an absent symbol: symbols of the range smaller than c', get(c, st, o, 1) == j - i - e.gr)
        c.ensures(st, 'lex_count of an absent symbol: symbols of the range greater than c', get(c, st, o, 2) == e.gr)
    for st, x in c.call(kind + 'lexs', [p, j, e.cs, o]):
        c.reach(st, 'lex_smaller_count')
        c.ensures(st, 'lex_smaller_count of an absent symbol', z3.And(get(c, st, o, 0) == 0, get(c, st, o, 1) == e.sm + e.eq))


def absent_contracts(kind):
    seen = {'lex': 0, 'lexs': 0}

    def once(nm, f):
        def g(e, st, a):
            # the outer call (of the wrapper) is executed; the call it makes is replaced by its contract
            d = getattr(st, 'depth_' + nm, None)
            if len(st.frames) <= 1:
                return None
            return f(e, st, a)
        return g

    def root(e, st, a):
        return [(st, Z0)]

    def only(e, st, a):
        e.oblige(st, 'one symbol only: the root is its leaf', 'precondition', z3.And(B(a[1], 64) == Z0, e.sg == 1))
        return [(st, ONLY)]

    def rank0(e, st, a):
        return [(st, Z0)]
    return [MemContract('wt_pc::lex_count', r'wt_pc<.*>::lex_count<', once('lex', _lexrec)), MemContract('wt_pc::lex_smaller_count', r'wt_pc<.*>::lex_smaller_count<', once('lexs', _lexsrec)), MemContract('wt_pc::rank', r'wt_pc<.*>::rank\(', rank0),
            MemContract('tree.root', r'^DTree<.*>::root\(', root), MemContract('tree.bv_pos_rank', r'^DTree<.*>::bv_pos_rank\(', only)] + [x for x in TREE if x.name == 'tree.bit_path']


# ---------------------------------------------------------------- expand
def _rank1(e, st, a):
    p = B(a[1], 64)
    e.oblige(st, 'precondition of rank: position <= size of the tree', 'precondition', U(p, e.ts))
    return [(st, getattr(e, 'rankmap', {}).get(z3.simplify(p).get_id(), RK(p)))]


def t_exp(c, kind):
    e = c.e
    n, ts, lvl, off, sz, sym, l, r = (c.bv(x) for x in ('n', 'tree_bits', 'level', 'offset', 'size', 'sym', 'l', 'r'))
    e.ts = ts
    Lv = c.bv('max_level', 32)
    c.assume(U(1, n), U(n, 1 << 52), U(1, Lv), U(Lv, 64), L(lvl, z64(Lv)), U(ts, 1 << 60), U(sz, n), U(off, ts), U(off + sz, ts), U(RK(off), off), U(RK(off), RK(off + sz)), U(RK(off + sz) - RK(off), sz))
    p = c.obj('wt', 256, {0: (8, n), 8: (8, c.bv('sigma')), 48: (4, Lv)})
    v = c.obj('v', 32, {0: (8, off), 8: (8, sz), 16: (8, lvl), 24: (8, sym)})
    o = out(c, 8)
    ones = RK(off + sz) - RK(off)
    if kind == 't':
        loff, roff = off + n, off + n + (sz - ones)
    else:
        absvec(c, 'zero_cnt', w.ZC, z64(Lv), at=p.addc(56))
        absvec(c, 'rank_level', w.RL, z64(Lv), at=p.addc(88))
        a, b = theory.mul(lvl, n), theory.mul(lvl + 1, n)
        c.assume(U(a, off), U(w.RL(lvl), RK(off)))
        before = RK(off) - w.RL(lvl)
        loff, roff = b + (off - a) - before, b + w.ZC(lvl) + before
    c.st.mem[p.r].s[72 if kind == 't' else 136] = (8, p.addc(48))
    for st, x in c.call(kind + 'exp', [p, v, o]):
        c.reach(st, 'expand')
        c.ensures(st, 'expand: the left child', z3.And(get(c, st, o, 0) == loff, get(c, st, o, 1) == sz - ones, get(c, st, o, 2) == lvl + 1, get(c, st, o, 3) == sym << 1))
        c.ensures(st, 'expand: the right child', z3.And(get(c, st, o, 4) == roff, get(c, st, o, 5) == ones, get(c, st, o, 6) == lvl + 1, get(c, st, o, 7) == (sym << 1) | 1))
    c.assume(U(l, r + 1), L(r, sz) if False else z3.Or(L(r, sz), r + 1 == l), U(l, sz))
    ranges(c, kind, [p, v, l, r], off, l, r)


def ranges(c, kind, args, off, l, r):
    o = out(c, 4)
    x, y = RK(off + l) - RK(off), RK(off + r + 1) - RK(off)
    c.assume(U(RK(off), RK(off + l)), U(RK(off + l), RK(off + r + 1)), U(y - x, r + 1 - l), U(x, l))
    for st, _ in c.call(kind + 'expr', args + [o]):
        c.reach(st, 'expand of a range')
        c.ensures(st, 'expand: the range in the left child', z3.And(get(c, st, o, 0) == l - x, get(c, st, o, 1) + 1 == (r + 1) - y))
        c.ensures(st, 'expand: the range in the right child', z3.And(get(c, st, o, 2) == x, get(c, st, o, 3) + 1 == y))


BVPV = z3.Function('BVPOS_OF', BV, BV)
CH0, CH1 = z3.Function('LEFT_CHILD', BV, BV), z3.Function('RIGHT_CHILD', BV, BV)


def t_pexp(c, kind):
    e = c.e
    e.ts = c.bv('tree_bits')
    v, l, r = c.bv('v'), c.bv('l'), c.bv('r')
    p = c.obj('wt', 128, {0: (8, c.bv('n')), 8: (8, c.bv('sigma'))})
    o = out(c, 2)
    off = BVPV(v)
    c.assume(U(e.ts, 1 << 60), U(off, e.ts), U(l, e.ts - off), z3.Or(L(r, e.ts - off), r + 1 == l), U(l, r + 1))
    for st, x in c.call('pexp', [p, v, o]):
        c.reach(st, 'expand')
        c.ensures(st, 'expand: left and right child', z3.And(get(c, st, o, 0) == CH0(v), get(c, st, o, 1) == CH1(v)))
    ranges(c, kind, [p, v, l, r], off, l, r)


def _pchild(e, st, a):
    b = B(a[2], 8)
    e.oblige(st, 'child 0 or 1', 'precondition', U(b, 1))
    return [(st, z3.If(b == 0, CH0(B(a[1], 64)), CH1(B(a[1], 64))))]


PTREE = [MemContract('tree.child', r'^DTree<.*>::child\(', _pchild), MemContract('tree.bv_pos', r'^DTree<.*>::bv_pos\(', lambda e, st, a: [(st, BVPV(B(a[1], 64)))]), MemContract('tree.bv_pos_rank', r'^DTree<.*>::bv_pos_rank\(', lambda e, st, a: [(st, RK(BVPV(B(a[1], 64))))]),
         MemContract('tree.root', r'^DTree<.*>::root\(', lambda e, st, a: [(st, e.root)]), MemContract('tree.is_leaf', r'^DTree<.*>::is_leaf\(', lambda e, st, a: [(st, LF(B(a[1], 64)))])]

# ---------------------------------------------------------------- algorithms over any tree with expand
# of the query range: first and one past last position in node v, symbols in leaves left of v, depth below v
VI, CN, BEF, HGT, SYM = (z3.Function(n, BV, BV) for n in ('RANGE_BEGIN', 'RANGE_SIZE', 'BEFORE_NODE', 'HEIGHT', 'SYMBOL'))
LF = z3.Function('IS_LEAF', BV, z3.BoolSort())


def node(e, v):
    a, b = CH0(v), CH1(v)
    return z3.And(U(VI(v), 1 << 52), U(CN(v), 1 << 52), U(BEF(v), 1 << 52), z3.Implies(z3.Not(LF(v)), z3.And(U(VI(a), 1 << 52), U(VI(b), 1 << 52), U(CN(a), CN(v)), CN(b) == CN(v) - CN(a), BEF(a) == BEF(v), BEF(b) == BEF(v) + CN(a), L(HGT(a), HGT(v)), L(HGT(b), HGT(v)))))


def deref(c, st, p):
    return B(c.e.load_raw(st, p, 8), 64)


def _expand(e, st, a):
    v = B(e.load_raw(st, a[1], 8), 64)
    e.oblige(st, 'expand: inner node', 'precondition', z3.Not(LF(v)))
    return [(st, (CH0(v), CH1(v)))]


def _expandr(e, st, a):
    v = B(e.load_raw(st, a[2], 8), 64)
    l, r = B(e.load_raw(st, a[3], 8), 64), B(e.load_raw(st, a[3].addc(8), 8), 64)
    e.oblige(st, 'expand: inner node', 'precondition', z3.Not(LF(v)))
    e.oblige(st, 'expand: the query range inside the node', 'precondition', z3.And(l == VI(v), r + 1 == VI(v) + CN(v)))
    st.use('node', v)
    st.use('inode', v)
    for k, x in ((0, CH0(v)), (1, CH1(v))):
        e.store_raw(st, a[0].addc(16 * k), 8, VI(x))
        e.store_raw(st, a[0].addc(16 * k + 8), 8, VI(x) + CN(x) - 1)
    return [(st, None)]


def _sym(e, st, a):
    v = B(e.load_raw(st, a[1], 8), 64)
    e.oblige(st, 'sym: leaf', 'precondition', LF(v))
    return [(st, SYM(v))]


DUCKW = [MemContract('tree.root', r'^DW::root\(', lambda e, st, a: [(st, e.root)]), MemContract('tree.is_leaf', r'^DW::is_leaf\(', lambda e, st, a: [(st, LF(B(e.load_raw(st, a[1], 8), 64)))]), MemContract('tree.sym', r'^DW::sym\(', _sym),
         MemContract('tree.expand(range)', r'^DW::expand\(.*,', _expandr), MemContract('tree.expand', r'^DW::expand\(', _expand)]


def dsetup(c):
    e = c.e
    e.loop_subst = True
    e.root = c.bv('root')
    i, j = c.bv('i'), c.bv('j')
    c.assume(U(i, j), U(j, 1 << 52), VI(e.root) == i, CN(e.root) == j - i, BEF(e.root) == 0)
    c.st.facts.append(Quant('node', lambda v: node(e, v)))
    c.st.use('node', e.root)
    return e, i, j


def t_quant(c, kind):
    e, i, j = dsetup(c)
    q = c.bv('q')
    c.assume(L(q, j - i))
    s, o = c.obj('wt', 8, {0: (8, c.bv('x'))}), out(c, 2)

    def inv(Lc):
        v = Lc.v('v')
        Lc.st.use('node', v)
        r = Lc.raw('r') if False else Lc.fr.loc['r']
        l, h = B(e.load_raw(Lc.st, r, 8), 64), B(e.load_raw(Lc.st, r.addc(8), 8), 64)
        return [('the range inside the node', z3.And(l == VI(v), h + 1 == VI(v) + CN(v), L(0, CN(v)))), ('the quantile lies in the node', z3.And(U(BEF(v), q), Lc.v('q') == q - BEF(v), L(q - BEF(v), CN(v))))]
    e.loopspecs = [LoopSpec(r'quantile_freq', 0, inv, variant=lambda Lc: HGT(Lc.v('v')))]
    for st, x in c.call('dquant', [s, i, j - 1, q, o]):
        c.reach(st, 'quantile_freq')
        # the answer is a leaf: the quantile lies between the symbols before the leaf and those up to it
        v = get(c, st, o, 0)
        v = v.arg(0) if v.decl().eq(SYM) else c.bv('no leaf')
        c.ensures(st, 'quantile_freq returns the symbol of the leaf that holds the quantile and its frequency', z3.And(LF(v), get(c, st, o, 0) == SYM(v), get(c, st, o, 1) == CN(v), U(BEF(v), q), L(q, BEF(v) + (CN(v)))))


# ---------------------------------------------------------------- interval_symbols
# distinct symbols of the range below a node; an arbitrary symbol of the range: is its leaf below the node, its index among them
DI, IDX, OFFN, SZN = (z3.Function(n, BV, BV) for n in ('DISTINCT', 'INDEX', 'OFFSET_OF_NODE', 'SIZE_OF_NODE'))
IN = z3.Function('BELOW', BV, z3.BoolSort())
NID = z3.Function('NODE_ID', BV, BV, BV)
LS, AT, RA = z3.BitVec('LEAF_OF_S', 64), z3.Function('SYMBOL_AT', BV, BV), z3.Function('RANK_AT', BV, BV)


def kid(e, v):
    D = [U(VI(v), 1 << 52), U(CN(v), 1 << 52), U(DI(v), 1 << 40), (DI(v) == 0) == (CN(v) == 0), z3.Implies(IN(v), z3.And(L(IDX(v), DI(v)))), z3.Implies(LF(v), z3.And(U(DI(v), 1), z3.Implies(IN(v), v == LS)))]
    return z3.And(D)


def inode(e, v, a, b):
    """node v with children a, b"""
    x = VI(v) + CN(v)
    I = [U(VI(a), 1 << 52), U(VI(b), 1 << 52), U(CN(a), CN(v)), CN(b) == CN(v) - CN(a), U(DI(a), DI(v)), DI(b) == DI(v) - DI(a), z3.Not(z3.And(IN(a), IN(b))), IN(v) == z3.Or(IN(a), IN(b)), z3.Implies(IN(a), z3.And(IDX(v) == IDX(a), L(IDX(a), DI(a)))), z3.Implies(IN(b), z3.And(IDX(v) == DI(a) + IDX(b), L(IDX(b), DI(b)))),
         (DI(a) == 0) == (CN(a) == 0), (DI(b) == 0) == (CN(b) == 0), L(HGT(a), HGT(v)), L(HGT(b), HGT(v))]
    if e.kind in 'tp':
        o = OFFN(v) if e.kind == 't' else BVPV(v)
        I += [U(o, e.ts), U(e.ts, 1 << 60), U(x, e.ts - o), U(o + VI(v), e.ts), U(o + x, e.ts), U(o + VI(v) + CN(v), e.ts), VI(b) == RK(o + VI(v)) - RK(o), VI(b) + CN(b) == RK(o + x) - RK(o), VI(a) == VI(v) - VI(b), U(VI(b), VI(v))]
    if e.kind == 't':
        ones = RK(o + SZN(v)) - RK(o)
        I += [U(x, SZN(v)), U(SZN(v), e.ts - o), OFFN(a) == o + e.n, OFFN(b) == o + (SZN(v) - ones) + e.n, SZN(a) == SZN(v) - ones, SZN(b) == ones]
    return z3.Implies(z3.Not(LF(v)), z3.And(I))


def ikids(e, v):
    if e.kind == 't':
        p, l = v.arg(0), v.arg(1)
        return NID(z3.simplify(p << 1), z3.simplify(l + 1)), NID(z3.simplify((p << 1) | 1), z3.simplify(l + 1))
    return CH0(v), CH1(v)


def iargs(e, st, a):
    """(node, i, j, k, vectors) of a call"""
    ld = lambda p: B(e.load_raw(st, p, 8), 64)
    if e.kind == 'd':
        return ld(a[7]), B(a[1], 64), B(a[2], 64) + 1, a[3], a[4:7]
    if e.kind == 'p':
        return B(a[7], 64), B(a[1], 64), B(a[2], 64), a[3], a[4:7]
    return NID(z3.simplify(B(a[8], 64)), z3.simplify(B(a[7], 64))), B(a[1], 64), B(a[2], 64), a[3], a[4:7]


def entry(c, st, vecs, x):
    """the three vectors at index x"""
    r = []
    for v in vecs:
        d = c.e.load_raw(st, v, 8)
        y = c.e.arr_of(st, d)[x]
        r.append(z64(y) if y.size() < 64 else y)
    return r


def sentry(e, vals):
    return z3.And(vals[0] == SYM(LS), vals[1] == VI(LS), vals[2] == VI(LS) + CN(LS))


def _isrec(e, st, a):
    v, i, j, kp, vecs = iargs(e, st, a)
    c = e.ctx
    k = B(e.load_raw(st, kp, 8), 64)
    st.use('kid', v)
    pre = [i == VI(v), j == VI(v) + CN(v), CN(v) != 0]
    if e.kind == 'd':
        pre = [i == VI(v), j == VI(v) + CN(v), CN(v) != 0]
    if e.kind == 't':
        pre += [B(a[9], 64) == SZN(v), B(a[10], 64) == OFFN(v), U(B(a[7], 64), e.L64)]
    if e.kind == 'p':
        pre += [z3.Not(LF(v))]
    e.oblige(st, '_interval_symbols: the nonempty range of the node', 'precondition', z3.And(pre))
    e.oblige(st, '_interval_symbols: room for the symbols below the node', 'precondition', z3.And(U(k, e.sz), U(DI(v), e.sz - k)))
    if e.body is not None:
        e.oblige(st, '_interval_symbols: the recursion descends', 'variant', L(HGT(v), HGT(e.body)))
    old = {x: entry(c, st, vecs, x) for x in e.watch}
    for q in vecs:
        n = e.mut(st, e.load_raw(st, q, 8).r)
        n.a = z3.Array(fresh_nm('rec'), n.a.sort().domain(), n.a.sort().range())
    e.store_raw(st, kp, 8, k + DI(v))
    st.assume(z3.Implies(IN(v), sentry(e, entry(c, st, vecs, k + IDX(v)))))
    for x, o in old.items():
        for y, z in zip(o, entry(c, st, vecs, x)):
            st.assume(z3.Implies(L(x, k), y == z))
        st.assume(z3.Implies(z3.And(IN(v), x == k + IDX(v)), sentry(e, entry(c, st, vecs, x))))
    return [(st, None)]


def fresh_nm(s):
    from engine.exec import fresh_name
    return fresh_name(s)


def isetup(c, kind):
    e = c.e
    e.ctx, e.kind, e.loop_subst, e.body = c, kind, True, None
    e.n, e.ts, e.sz, k = (c.bv(x) for x in ('n', 'tree_bits', 'vector_size', 'k'))
    e.Lv = c.bv('max_level', 32)
    e.L64 = z64(e.Lv)
    c.assume(U(1, e.n), U(e.n, 1 << 52), U(1, e.Lv), U(e.Lv, 64), U(e.sz, 1 << 40), U(VI(LS), 1 << 52), U(CN(LS), 1 << 52), LF(LS))
    if kind == 'p':
        c.assume(U(SYM(LS), 255))
    vecs = []
    for nm, es in (('cs', 1 if kind == 'p' else 8), ('rank_c_i', 8), ('rank_c_j', 8)):
        d = c.arr(nm, e.sz, es)
        vecs.append(c.obj(nm + '_vector', 24, {0: (8, d)}))
    p = c.obj('wt', 256, {0: (8, e.n), 8: (8, c.bv('sigma')), 48: (4, e.Lv)})
    if kind == 't':
        c.st.mem[p.r].s[72] = (8, p.addc(48))
    c.st.facts.append(Quant('inode', lambda v: inode(e, v, *ikids(e, v))))
    c.st.facts.append(Quant('kid', lambda v: kid(e, v)))
    kp = c.obj('k', 8, {0: (8, k)})
    return e, p, vecs, kp, k


RECNAME = {'t': r'wt_int<.*>::_interval_symbols\(', 'p': r'wt_pc<.*>::_interval_symbols\(', 'd': r'sdsl::_interval_symbols_rec<'}


def t_isrec(c, kind):
    e, p, vecs, kp, k = isetup(c, kind)
    w0 = c.bv('other')
    if kind == 't':
        path, level = c.bv('path'), c.bv('level')
        v = NID(path, level)
        c.assume(U(level, e.L64))
        lf = lambda v: LF(v) == z3.Not(L(v.arg(1), e.L64))
        c.st.facts.append(Quant('kid', lambda v: z3.And(lf(v), z3.Implies(LF(v), SYM(v) == v.arg(0)))))
    else:
        v = c.bv('v')
    e.body = v
    if kind in 'tp':
        # the ranks at both ends of the range: by definition those of the right child
        o, b = OFFN(v) if kind == 't' else BVPV(v), ikids(e, v)[1]
        e.keep = [z3.simplify(o + VI(v)), z3.simplify(o + VI(v) + CN(v))]
        e.rankmap = {e.keep[0].get_id(): RK(o) + VI(b), e.keep[1].get_id(): RK(o) + VI(b) + CN(b)}
    if kind == 'p':
        c.assume(z3.Not(LF(v)))
    c.assume(CN(v) != 0, U(k, e.sz), U(DI(v), e.sz - k), L(w0, k))
    e.watch = [k + IDX(v), w0]
    c.st.use('inode', v)
    for x in (v,) + ikids(e, v):
        c.st.use('kid', x)
    i, j = VI(v), VI(v) + CN(v)
    before = entry(c, c.st, vecs, w0)
    if kind == 't':
        args = [p, i, j, kp] + vecs + [level, path, SZN(v), OFFN(v)]
    elif kind == 'p':
        args = [p, i, j, kp] + vecs + [v]
    else:
        args = [p, i, j - 1, kp] + vecs + [c.obj('v', 8, {0: (8, v)})]
    for st, x in c.call(RECNAME[kind], args):
        c.reach(st, '_interval_symbols')
        c.ensures(st, '_interval_symbols: as many entries as distinct symbols below the node', B(c.ld(st, kp, 0, 8), 64) == k + DI(v))
        c.ensures(st, '_interval_symbols: every symbol of the range below the node is reported with its ranks, in the order of the leaves', z3.Implies(IN(v), sentry(e, entry(c, st, vecs, k + IDX(v)))))
        c.ensures(st, '_interval_symbols: earlier entries are kept', z3.And([y == z for y, z in zip(before, entry(c, st, vecs, w0))]))


def t_is(c, kind):
    e, p, vecs, kp, k = isetup(c, kind)
    i, j = c.bv('i'), c.bv('j')
    c.assume(U(i, j), U(j, e.n))
    e.root = v = NID(Z0, Z0) if kind == 't' else Z0
    sg = B(c.ld(c.st, p, 8, 8), 64)
    c.assume(VI(v) == i, CN(v) == j - i, U(DI(v), e.sz), L(1, e.sz))
    c.st.use('inode', v)
    c.st.use('kid', v)
    if kind == 't':
        c.assume(SZN(v) == e.n, OFFN(v) == 0, LF(v) == False)
    if kind == 'p':
        c.assume(LF(v) == (sg == 1), SYM(v) == z3.If(LF(v), AT(Z0), SYM(v)), BVPV(v) == 0, U(AT(i), 255), U(AT(i + 1), 255), U(AT(Z0), 255))
    one = CN(v) == 1
    here = lambda x, m: z3.And(SYM(LS) == AT(x), VI(LS) == RA(x), CN(LS) == m)
    # ranges of one and two positions: the symbols at these positions
    c.assume(U(RA(i), 1 << 52), U(RA(i + 1), 1 << 52), z3.Implies(one, z3.And(DI(v) == 1, z3.Implies(IN(v), z3.And(IDX(v) == 0, here(i, 1))))))
    if kind == 'p':
        eq, lt = AT(i) == AT(i + 1), L(AT(i), AT(i + 1))
        c.assume(z3.Implies(CN(v) == 2, z3.If(eq, z3.And(DI(v) == 1, RA(i + 1) == RA(i) + 1, z3.Implies(IN(v), z3.And(IDX(v) == 0, here(i, 2)))),
                                              z3.And(DI(v) == 2, z3.Implies(IN(v), z3.Or(z3.And(here(i, 1), IDX(v) == z3.If(lt, 0, z3.BitVecVal(1, 64))), z3.And(here(i + 1, 1), IDX(v) == z3.If(lt, z3.BitVecVal(1, 64), 0))))))))
    e.watch = [IDX(v)]
    for st, x in c.call(kind + 'is', [p, i, j, kp] + vecs):
        c.reach(st, 'interval_symbols')
        c.ensures(st, 'interval_symbols: the number of distinct symbols', B(c.ld(st, kp, 0, 8), 64) == DI(v))
        c.ensures(st, 'interval_symbols: every symbol of the range is reported with its ranks', z3.Implies(IN(v), sentry(e, entry(c, st, vecs, IDX(v)))))


def _invsel(e, st, a):
    x = B(a[1], 64)
    e.oblige(st, 'inverse_select: position of the sequence', 'precondition', L(x, e.n))
    s = AT(x)
    return [(st, (RA(x), z3.Extract(7, 0, s) if e.kind == 'p' else s))]


def _pleafrank(e, st, a):
    v = B(a[1], 64)
    if not e.feasible(st, [LF(v)]):
        return [(st, RK(BVPV(v)))]
    if not e.feasible(st, [z3.Not(LF(v))]):
        return [(st, SYM(v))]
    return [(st, z3.If(LF(v), SYM(v), RK(BVPV(v))))]


def is_contracts():
    return [MemContract('_interval_symbols (recursion)', '|'.join('(%s)' % x for x in RECNAME.values()), _isrec), MemContract('inverse_select', r'(wt_int<.*>|wt_pc<.*>|^DW)::inverse_select\(', _invsel),
            MemContract('tree.bv_pos_rank', r'^DTree<.*>::bv_pos_rank\(', _pleafrank), MemContract('tree_rank', r'^DR::(operator\(\)|rank)\(', _rank1)] + PTREE + DUCKW


def tasks(tier):
    return [('tlex_count', t_lex, ('t',), ''), ('tlex_smaller_count', t_lexs, ('t',), '')] + [(k + n, f, (k,), '') for n, f in (('lex_count', t_plex), ('lex_smaller_count', t_plexs), ('lex absent', t_pabs)) for k in 'pq'] + [('texpand', t_exp, ('t',), ''), ('mexpand', t_exp, ('m',), ''), ('pexpand', t_pexp, ('p',), ''), ('quantile_freq', t_quant, ('d',), '')] + [(n, f, (k,), '') for k in 'tpd' for n, f in ((k + '_interval_symbols', t_isrec), (k + 'interval_symbols', t_is))]


def config(name, fn, args, cfg):
    base = dict(tables=TABLES, mul_uf=True, externs=EXT)
    if fn is t_pabs:
        return dict(base, contracts=absent_contracts(args[0]))
    if fn is t_exp or fn is t_pexp:
        return dict(base, contracts=[MemContract('tree_rank', r'^DR::(operator\(\)|rank)\(', _rank1)] + AV + PTREE)
    if fn in (t_is, t_isrec):
        return dict(base, contracts=is_contracts())
    if fn is t_quant:
        return dict(base, contracts=DUCKW)
    return dict(base, contracts=BITS + DBV + [WTRANK] + TREE + AV + VNEW)
