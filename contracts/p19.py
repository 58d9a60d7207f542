"""P19: compressed suffix arrays answer like the suffix array of the text."""
from .common import *
from .p06 import EXT
from engine.exec import Arr, State

TITLE = 'compressed suffix arrays'
# the classes are templates over the wavelet tree / encoded vector, the samplings and the alphabet; the ones used here have
# no implementation: they are known by their contracts only, so the results hold for every one that fulfils them
UNIT = '''
#include <new>
#include <sdsl/suffix_arrays.hpp>
using namespace sdsl;
struct Cat {};
struct XComp { uint64_t operator[](uint64_t) const; }; template<class Ch> struct XChar { Ch operator[](uint64_t) const; }; struct XC { uint64_t operator[](uint64_t) const; };
struct XPsi { uint64_t operator[](uint64_t) const; }; struct XLf { uint64_t operator[](uint64_t) const; }; struct XIsa { uint64_t operator[](uint64_t) const; };
struct XS { std::tuple<uint64_t,uint64_t> sample_leq(uint64_t) const; std::tuple<uint64_t,uint64_t> sample_qeq(uint64_t) const; };
template<class Ch> struct XWT { typedef wt_tag index_category; typedef int_alphabet_tag alphabet_category; uint64_t x; XWT(); XWT(const XWT&); ~XWT(); std::pair<uint64_t,Ch> inverse_select(uint64_t) const; uint64_t select(uint64_t, Ch) const; uint64_t rank(uint64_t, Ch) const; Ch operator[](uint64_t) const; uint64_t size() const; bool empty() const; };
template<class Ch> struct DCsa {
    typedef uint64_t value_type; typedef uint64_t size_type; typedef uint64_t csa_size_type; typedef Ch char_type; typedef int64_t difference_type; typedef csa_tag index_category; typedef int_alphabet_tag alphabet_category; typedef std::basic_string<char> string_type;
    typedef uint64_t const_reference; typedef const uint64_t* const_iterator;
    XComp char2comp; XChar<Ch> comp2char; XC C; uint64_t sigma; XPsi psi; XLf lf; XIsa isa; XS isa_sample; XWT<Ch> wavelet_tree;
    struct XF { Ch operator[](uint64_t) const; } F;
    uint64_t operator[](uint64_t) const; uint64_t size() const; bool empty() const; };
struct DEnc { typedef Cat enc_vec_type; typedef uint64_t value_type; enum { sample_dens = 8 }; uint64_t x; DEnc(); DEnc(const DEnc&); ~DEnc(); uint64_t operator[](uint64_t) const; uint64_t size() const; bool empty() const; uint64_t sample(uint64_t) const; uint32_t get_sample_dens() const; void get_inter_sampled_values(uint64_t, uint64_t*) const; };
struct DEncB : DEnc { enum { sample_dens = 200000 }; };
template<class Ch> struct DAlpha { typedef int_alphabet_tag alphabet_category; typedef XComp char2comp_type; typedef XChar<Ch> comp2char_type; typedef XC C_type; typedef uint64_t sigma_type; typedef Ch char_type; typedef uint64_t comp_char_type; typedef std::basic_string<char> string_type; enum { int_width = 0 };
    uint64_t sigma; XComp char2comp; XChar<Ch> comp2char; XC C; DAlpha(); DAlpha(const DAlpha&); ~DAlpha(); };
template<class C> struct DSA { uint64_t x; DSA(); DSA(const DSA&); ~DSA(); bool is_sampled(uint64_t) const; uint64_t operator[](uint64_t) const; };
template<class C> struct DISA { uint64_t x; DISA(); DISA(const DISA&); ~DISA(); std::tuple<uint64_t,uint64_t> sample_leq(uint64_t) const; std::tuple<uint64_t,uint64_t> sample_qeq(uint64_t) const; };
struct DSAS { template<class C> using type = DSA<C>; using sampling_category = sa_sampling_tag; };
struct DISAS { template<class C> using type = DISA<C>; using sampling_category = isa_sampling_tag; };
template<class Ch> using CW = csa_wt<XWT<Ch>,4,4,DSAS,DISAS,DAlpha<Ch>>;
template<class Ch> using CS = csa_sada<DEnc,4,4,DSAS,DISAS,DAlpha<Ch>>;
template<class Ch> using CB = csa_sada<DEncB,4,4,DSAS,DISAS,DAlpha<Ch>>;
struct SBV; struct SR { uint64_t x; SR(); SR(const SR&); SR& operator=(const SR&); ~SR(); uint64_t operator()(uint64_t) const; void set_vector(const SBV*); void swap(SR&); };
struct SS { uint64_t x; SS(); SS(const SBV*); SS(const SS&); SS& operator=(const SS&); ~SS(); uint64_t operator()(uint64_t) const; void set_vector(const SBV*); void swap(SS&); };
struct SBV { typedef SR rank_1_type; typedef SS select_1_type; uint64_t x; SBV(); SBV(const SBV&); SBV& operator=(const SBV&); ~SBV(); bool operator[](uint64_t) const; };
struct SPerm { uint64_t x; SPerm(); SPerm(const int_vector<>*); SPerm(const SPerm&); SPerm& operator=(const SPerm&); ~SPerm(); uint64_t operator[](uint64_t) const; uint64_t size() const; void set_vector(const int_vector<>*); void swap(SPerm&); };
template<uint32_t D> struct DDens { typedef int sa_sample_type; enum { sa_sample_dens = D, isa_sample_dens = D }; typedef byte_alphabet alphabet_type; typedef uint64_t size_type; typedef uint64_t value_type; };
template<uint32_t D> struct TCsa { enum { sa_sample_dens = D, isa_sample_dens = D }; typedef _text_order_sampling<TCsa,SBV,SR> sa_sample_type; };
template<uint32_t D> struct FCsa { enum { sa_sample_dens = D, isa_sample_dens = D }; typedef _fuzzy_sa_sampling<FCsa,SBV,SBV,SR,SS> sa_sample_type; };
extern "C" {
''' + ''.join('''
uint64_t frs%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ return first_row_symbol(i, s); }
uint64_t row%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ first_row_of_csa<DCsa<uint%(w)d_t>> f(s); return f[i]; }
uint64_t txt%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ text_of_csa<DCsa<uint%(w)d_t>> f(s); return f[i]; }
uint64_t tpt%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ traverse_csa_psi<DCsa<uint%(w)d_t>,true> f(s); return f[i]; }
uint64_t tpf%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ traverse_csa_psi<DCsa<uint%(w)d_t>,false> f(s); return f[i]; }
uint64_t tst%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ traverse_csa_saisa<DCsa<uint%(w)d_t>,true> f(s); return f[i]; }
uint64_t tsf%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ traverse_csa_saisa<DCsa<uint%(w)d_t>,false> f(s); return f[i]; }
uint64_t twt%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ traverse_csa_wt<DCsa<uint%(w)d_t>,true> f(s); return f[i]; }
uint64_t twf%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ traverse_csa_wt<DCsa<uint%(w)d_t>,false> f(s); return f[i]; }
uint64_t bwp%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ bwt_of_csa_psi<DCsa<uint%(w)d_t>> f(s); return f[i]; }
uint64_t bww%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ bwt_of_csa_wt<DCsa<uint%(w)d_t>> f(s); return f[i]; }
uint64_t isw%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ isa_of_csa_wt<DCsa<uint%(w)d_t>> f(s); return f[i]; }
uint64_t isp%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t i){ isa_of_csa_psi<DCsa<uint%(w)d_t>> f(s); return f[i]; }
uint64_t exl%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t b, uint64_t e, uint%(w)d_t* t){ return extract(s, b, e, t, lf_tag()); }
uint64_t exp%(w)d(const DCsa<uint%(w)d_t>& s, uint64_t b, uint64_t e, uint%(w)d_t* t){ return extract(s, b, e, t, psi_tag()); }
''' % {'w': w} for w in (8, 64)) + ''.join('''
uint64_t %(k)snew%(w)d(){ return sizeof(%(T)s<uint%(w)d_t>); }
void %(k)sctor%(w)d(void* p){ new(p) %(T)s<uint%(w)d_t>; }
uint64_t %(k)sat%(w)d(const %(T)s<uint%(w)d_t>& s, uint64_t i){ return s[i]; }
uint64_t %(k)srank%(w)d(const %(T)s<uint%(w)d_t>& s, uint64_t i, uint%(w)d_t c){ return s.bwt.rank(i,c); }
uint64_t %(k)ssel%(w)d(const %(T)s<uint%(w)d_t>& s, uint64_t i, uint%(w)d_t c){ return s.bwt.select(i,c); }
uint64_t %(k)ssize%(w)d(const %(T)s<uint%(w)d_t>& s){ return s.size(); }
''' % {'k': k, 'T': T, 'w': w} for k, T in (('w', 'CW'), ('s', 'CS'), ('b', 'CB')) for w in (8, 64)) + ''.join('''
bool so%(D)d(const _sa_order_sampling<DDens<%(D)d>>& s, uint64_t i){ return s.is_sampled(i); }
uint64_t sov%(D)d(const _sa_order_sampling<DDens<%(D)d>>& s, uint64_t i){ return s[i]; }
void isl%(D)d(const _isa_sampling<DDens<%(D)d>>& s, uint64_t i, uint64_t& a, uint64_t& b){ auto t = s.sample_leq(i); a = std::get<0>(t); b = std::get<1>(t); }
void isq%(D)d(const _isa_sampling<DDens<%(D)d>>& s, uint64_t i, uint64_t& a, uint64_t& b){ auto t = s.sample_qeq(i); a = std::get<0>(t); b = std::get<1>(t); }
bool to%(D)d(const TCsa<%(D)d>::sa_sample_type& s, uint64_t i){ return s.is_sampled(i); }
uint64_t tov%(D)d(const TCsa<%(D)d>::sa_sample_type& s, uint64_t i){ return s[i]; }
void til%(D)d(const _text_order_isa_sampling_support<TCsa<%(D)d>,SPerm,SS>& s, uint64_t i, uint64_t& a, uint64_t& b){ auto t = s.sample_leq(i); a = std::get<0>(t); b = std::get<1>(t); }
void tiq%(D)d(const _text_order_isa_sampling_support<TCsa<%(D)d>,SPerm,SS>& s, uint64_t i, uint64_t& a, uint64_t& b){ auto t = s.sample_qeq(i); a = std::get<0>(t); b = std::get<1>(t); }
uint64_t tiv%(D)d(const _text_order_isa_sampling_support<TCsa<%(D)d>,SPerm,SS>& s, uint64_t i){ return s[i]; }
''' % {'D': D} for D in (1, 5, 32)) + '}\n'
LIBS = ['bits.cpp']
DRIVER_LIBS, DRIVER_SECS = ALL_LIBS, 12.0
DRIVER_FLAGS = list(SORT) + (['-DDEEP'] if os.environ.get('VERIF_TIER') == 'thorough' else [])
ASSUMPTIONS = ['texts of at most 2^52 symbols', 'bwt.select is asked for occurrences 1..count']
TRUSTED = ['wavelet tree, encoded psi, alphabet and bit vectors: assumed contracts (P13, P14, P31, P06..P11)', 'what the samplings store (class invariants): constructors, copies, moves, serialization and the fuzzy and BWT samplings are only covered by the bounded native driver',
           'every row reaches a sampled one after less than n steps']
SHARDS = {'srank|brank': 3}
HARD = ('srank', 'brank', 'sat', 'wat')
BV = z3.BitVecSort(64)
COMP, CHR, CC, FC, SA, ISA, LF, PSI, DIST = (z3.Function(n, BV, BV) for n in ('COMP', 'CHR', 'CUM', 'ROWCODE', 'SA', 'ISA', 'LF', 'PSI', 'DIST'))
STEP = z3.Function('STEPS', BV, BV)
RK, SL = z3.Function('BWTRANK', BV, BV, BV), z3.Function('BWTSEL', BV, BV, BV)
Z0 = z3.BitVecVal(0, 64)


def pred(e, p):
    return z3.If(p == 0, e.n - 1, p - 1)


def succ(e, p):
    return z3.If(p + 1 == e.n, Z0, p + 1)


def T(p):
    return CHR(FC(ISA(p)))


def BW(i):
    return CHR(FC(LF(i)))


def f_sa(e, i):
    return z3.Implies(L(i, e.n), z3.And(L(SA(i), e.n), ISA(SA(i)) == i))


def f_isa(e, p):
    return z3.Implies(L(p, e.n), z3.And(L(ISA(p), e.n), SA(ISA(p)) == p))


def f_lf(e, i):
    return z3.Implies(L(i, e.n), z3.And(L(LF(i), e.n), SA(LF(i)) == pred(e, SA(i)), f_sa(e, i), f_sa(e, LF(i))))


def f_psi(e, i):
    return z3.Implies(L(i, e.n), z3.And(L(PSI(i), e.n), SA(PSI(i)) == succ(e, SA(i)), f_sa(e, i), f_sa(e, PSI(i))))


def f_code(e, k):
    return z3.Implies(L(k, e.sg), z3.And(L(CC(k), CC(k + 1)), U(CC(k + 1), e.n), COMP(CHR(k)) == k, *([U(CHR(k), 255)] if e.w == 8 else [])))


def f_row(e, i):
    return z3.Implies(L(i, e.n), z3.And(L(FC(i), e.sg), U(CC(FC(i)), i), L(i, CC(FC(i) + 1)), f_code(e, FC(i))))


def f_cum(e, k, i):
    """C is increasing: code k against the code of row i"""
    return z3.Implies(U(k, e.sg), z3.And(U(CC(k), e.n), z3.Implies(U(k, FC(i)), U(CC(k), CC(FC(i)))), z3.Implies(L(FC(i), k), U(CC(FC(i) + 1), CC(k))), z3.Implies(k == 0, CC(k) == 0), z3.Implies(k == e.sg, CC(k) == e.n)))


def need(e, st, what, cond):
    e.oblige(st, what, 'precondition', cond)


def _comp(e, st, a):
    c = B(a[1], 64)
    if getattr(e, 'K', None) is not None:
        need(e, st, 'char2comp: the symbol', c == e.cc)
        return [(st, e.K)]
    k = COMP(c)
    st.assume(z3.And(L(k, e.sg), f_code(e, k), z3.Implies(c == 0, k == 0), CC(Z0) == 0))
    return [(st, k)]


def chv(e, x):
    return z3.Extract(7, 0, x) if e.w == 8 else x


def cha(e, a):
    return z64(B(a, 8)) if e.w == 8 else B(a, 64)


def _char(e, st, a):
    k = B(a[1], 64)
    need(e, st, 'comp2char is asked for a code below sigma', L(k, e.sg))
    st.assume(f_code(e, k))
    return [(st, chv(e, CHR(k)))]


def _c(e, st, a):
    k = B(a[1], 64)
    need(e, st, 'C is only asked for 0..sigma', U(k, e.sg))
    if getattr(e, 'K', None) is not None:
        v = {z3.simplify(e.K).get_id(): e.lo, z3.simplify(e.K + 1).get_id(): e.hi}.get(z3.simplify(k).get_id())
        if v is not None:
            return [(st, v)]
    st.use('cum', k)
    st.assume(U(CC(k), e.n))
    return [(st, CC(k))]


def at(fn, fact, what):
    def f(e, st, a):
        i = B(a[1], 64)
        need(e, st, '%s: position < size' % what, L(i, e.n))
        st.assume(fact(e, i))
        st.use('at' + what, i)
        return [(st, fn(i))]
    return f


def _f(e, st, a):
    i = B(a[1], 64)
    need(e, st, 'F: position < size', L(i, e.n))
    st.assume(f_row(e, i))
    return [(st, chv(e, CHR(FC(i))))]


def pair(e, st, a, x, y, w=8):
    e.store_raw(st, a[0], 8, x)
    e.store_raw(st, a[0].addc(8), w, y)


def _inv(e, st, a):
    """inverse_select: number of equal symbols before, the symbol"""
    i = B(a[-1], 64)
    need(e, st, 'inverse_select: position < size', L(i, e.n))
    st.assume(z3.And(f_lf(e, i), f_row(e, LF(i)), CC(COMP(BW(i))) + RK(i, BW(i)) == LF(i)))
    r = RK(i, BW(i))
    return [(st, (r, chv(e, BW(i))))]


def _wsel(e, st, a):
    q, c = B(a[1], 64), cha(e, a[2])
    k = COMP(c)
    need(e, st, 'select: an occurrence of a symbol of the text', z3.And(U(1, q), U(q, CC(k + 1) - CC(k))))
    i = CC(k) + q - 1
    st.assume(z3.Implies(CHR(FC(i)) == c, SL(q, c) == PSI(i)))
    st.assume(z3.And(L(SL(q, c), e.n), f_row(e, i), f_code(e, k)))
    st.assume(z3.Implies(L(i, CC(k + 1)), FC(i) == k))
    return [(st, SL(q, c))]


def _wrank(e, st, a):
    i, c = B(a[1], 64), cha(e, a[2])
    need(e, st, 'rank: position <= size', U(i, e.n))
    return [(st, RK(i, c))]


def _wat(e, st, a):
    i = B(a[1], 64)
    need(e, st, 'wavelet tree: position < size', L(i, e.n))
    return [(st, chv(e, BW(i)))]


def _sample(e, st, a):
    """the inverse suffix array at some position"""
    i = B(a[-1], 64)
    need(e, st, 'sample: position < size', L(i, e.n))
    j = e.j = e.fresh('sampled', 64) if hasattr(e, 'fresh') else z3.BitVec('sampled_pos', 64)
    st.assume(z3.And(L(j, e.n), f_isa(e, j)))
    pair(e, st, a, j, ISA(j))
    return [(st, None)]


def _issampled(e, st, a):
    i = B(a[1], 64)
    need(e, st, 'is_sampled: position < size', L(i, e.n))
    return [(st, DIST(i) == 0)]


def _sasample(e, st, a):
    i = B(a[1], 64)
    need(e, st, 'SA sample: a sampled position', z3.And(L(i, e.n), DIST(i) == 0))
    st.assume(f_sa(e, i))
    return [(st, SA(i))]


def noop(e, st, a):
    return [(st, None)]


def _alpha(e, st, a):
    e.store_raw(st, a[0], 8, e.sg)
    return [(st, None)]


def mc(n, x, f):
    return MemContract(n, x, f)


DC = [mc('csa[]', r'^DCsa<[^<>]*>::operator\[\]', at(SA, f_sa, 'SA')), mc('csa.size', r'^DCsa<[^<>]*>::size\(\)', lambda e, st, a: [(st, e.n)]), mc('char2comp', r'^XComp::operator\[\]', _comp), mc('comp2char', r'^XChar<.*>::operator\[\]', _char), mc('C', r'^XC::operator\[\]', _c),
      mc('psi', r'^XPsi::operator\[\]', at(PSI, f_psi, 'PSI')), mc('lf', r'^XLf::operator\[\]', at(LF, f_lf, 'LF')), mc('isa', r'^XIsa::operator\[\]', at(ISA, f_isa, 'ISA')), mc('F', r'^DCsa<[^<>]*>::XF::operator\[\]', _f),
      mc('wavelet_tree.inverse_select', r'^XWT<.*>::inverse_select', _inv), mc('wavelet_tree.select', r'^XWT<.*>::select', _wsel), mc('wavelet_tree.rank', r'^XWT<.*>::rank', _wrank), mc('wavelet_tree[]', r'^XWT<.*>::operator\[\]', _wat),
      mc('wavelet_tree.size', r'^XWT<.*>::size', lambda e, st, a: [(st, e.n)]), mc('isa_sample', r'^(XS|DISA<.*>)::sample_[lq]eq', _sample),
      mc('is_sampled', r'^DSA<.*>::is_sampled', _issampled), mc('sa_sample[]', r'^DSA<.*>::operator\[\]', _sasample), mc('members: constructor', r'^(XWT<.*>::XWT|DEncB?::DEnc|DSA<.*>::DSA|DISA<.*>::DISA)\(\)$', noop), mc('alphabet: constructor', r'^DAlpha<.*>::DAlpha\(\)$', _alpha)]
FRS = mc('first_row_symbol', r'first_row_symbol<', lambda e, st, a: (need(e, st, 'first_row_symbol: position < size', L(B(a[0], 64), e.n)), st.assume(f_row(e, B(a[0], 64))), [(st, chv(e, CHR(FC(B(a[0], 64)))))])[-1])


def base(c, w):
    e = c.e
    e.w, e.n, e.sg = w, c.bv('n'), c.bv('sigma')
    c.assume(U(1, e.n), U(e.n, 1 << 52), U(1, e.sg), U(e.sg, e.n))
    if w == 8:
        c.assume(U(e.sg, 256))
    return e, c.obj('csa', 64, {0: (8, c.bv('unused0')), 8: (8, e.sg)}, ro=True)


def t_frs(c, w, small):
    e, s = base(c, w)
    i = c.bv('i')
    c.assume(L(i, e.n), f_row(e, i), L(e.sg, 16) if small else U(16, e.sg))
    c.st.facts.append(Quant('cum', lambda k: f_cum(e, k, i)))
    for k in (Z0, e.sg, FC(i), FC(i) + 1):
        c.st.use('cum', k)

    def lin(Lc):
        r = Lc.v('res')
        return [('the codes before res-1 end before the row', z3.And(U(1, r), U(r, e.sg), U(r - 1, FC(i))))]

    def bis(Lc):
        lo_, up = Lc.v('lower_c'), Lc.v('upper_c')
        return [('the code of the row lies between the bounds', z3.And(U(lo_, FC(i)), L(FC(i), up), U(up, e.sg)))]
    e.loopspecs = [LoopSpec(r'first_row_symbol<', 1, lin, variant=lambda Lc: e.sg - Lc.v('res')), LoopSpec(r'first_row_symbol<', 0, bis, variant=lambda Lc: Lc.v('upper_c') - Lc.v('lower_c'))]
    for f in ('frs', 'row'):
        for st, r in c.call('%s%d' % (f, w), [s, i]):
            c.reach(st, 'row')
            c.ensures(st, 'the symbol of the row', B(r, 64) == CHR(FC(i)))


def t_members(c, w):
    e, s = base(c, w)
    i = c.bv('i')
    c.assume(L(i, e.n), f_sa(e, i), f_isa(e, i), f_lf(e, i), f_psi(e, i), f_row(e, i), f_isa(e, pred(e, SA(i))), f_isa(e, succ(e, SA(i))), f_row(e, LF(i)))
    for f, v, what in (('txt', T(i), 'text[i]'), ('tpt', PSI(i), 'psi[i] (psi based)'), ('tpf', LF(i), 'lf[i] (psi based)'), ('tst', PSI(i), 'psi[i] (SA and ISA)'), ('tsf', LF(i), 'lf[i] (SA and ISA)'),
                       ('twt', PSI(i), 'psi[i] (wavelet tree)'), ('twf', LF(i), 'lf[i] (wavelet tree)'), ('bwp', BW(i), 'bwt[i] (psi based)'), ('bww', BW(i), 'bwt[i] (wavelet tree)')):
        for st, r in c.call('%s%d' % (f, w), [s, i]):
            c.reach(st, what)
            c.ensures(st, what, B(r, 64) == v)


def t_isa(c, w, k):
    e, s = base(c, w)
    i = c.bv('i')
    c.assume(L(i, e.n), f_isa(e, i))
    d = c.bv('steps0')

    def inv(Lc):
        r, left = Lc.v('result'), Lc.v('i')
        Lc.st.assume(f_sa(e, r))
        if k == 'isw':
            ok = z3.Or(SA(r) == i + left, SA(r) + e.n == i + left)
        else:
            ok = z3.Or(SA(r) + left == i, SA(r) + left == i + e.n)
        return [('a row', z3.And(L(r, e.n), L(left, e.n))), ('the steps left lead to the suffix i', ok)]
    e.loopspecs = [LoopSpec(r'isa_of_csa_(wt|psi)<.*>::operator\[\]', 0, inv, variant=lambda Lc: Lc.v('i'))]
    for st, r in c.call('%s%d' % (k, w), [s, i]):
        c.reach(st, 'isa')
        st.assume(f_sa(e, B(r, 64)))
        c.ensures(st, 'isa[i] is the inverse suffix array', B(r, 64) == ISA(i))


def t_ext(c, w, k):
    e, s = base(c, w)
    b, en, x = c.bv('begin'), c.bv('end'), c.bv('x')
    m = en - b + 1
    c.assume(U(b, en), L(en, e.n), L(x, m), f_isa(e, b), f_isa(e, en), f_isa(e, b + x))
    o = c.arr('text', m, es=w // 8)
    cell = lambda st: z64(c.A(st, o)[x]) if w == 8 else c.A(st, o)[x]

    def inv(Lc):
        s_, r = Lc.v('steps'), Lc.v('order')
        Lc.st.assume(f_sa(e, r))
        if k == 'exl':
            Lc.st.assume(z3.And(f_isa(e, b + s_), f_isa(e, b + s_ - 1)))
            return [('order is the row of text position begin+steps', z3.And(L(r, e.n), SA(r) == b + s_, L(s_, m))), ('written so far', z3.Implies(U(s_, x), cell(Lc.st) == T(b + x)))]
        i = Lc.v('i')
        Lc.st.assume(z3.And(f_isa(e, b + i), f_isa(e, b + i + 1)))
        return [('order is the row of text position begin+i', z3.And(L(r, e.n), i + s_ == m, U(i, m), SA(r) == z3.If(b + i == e.n, Z0, b + i))), ('written so far', z3.Implies(L(x, i), cell(Lc.st) == T(b + x)))]
    e.loopspecs = [LoopSpec(r'extract<DCsa', 0, inv, variant=lambda Lc: Lc.v('steps'))]
    for st, r in c.call('%s%d' % (k, w), [s, b, en, o]):
        c.reach(st, 'extract')
        c.ensures(st, 'extract writes text[begin..end]', cell(st) == T(b + x))
        c.ensures(st, 'extract returns the length', B(r, 64) == m)


def _psi_of(e, st, i):
    if not e.light:
        st.assume(f_psi(e, i))
    st.use('psi', i)
    return PSI(i)


def _encat(e, st, a):
    i = B(a[1], 64)
    need(e, st, 'psi: position < size', L(i, e.n))
    return [(st, _psi_of(e, st, i))]


def _encsample(e, st, a):
    k = B(a[1], 64)
    need(e, st, 'psi sample: position < size', z3.And(L(k, 1 << 52), L(k * e.sd, e.n)))
    return [(st, _psi_of(e, st, k * e.sd))]


def _encinter(e, st, a):
    k, p = B(a[1], 64), a[2]
    i = k * e.sd
    need(e, st, 'inter sampled values: a sample', z3.And(L(k, 1 << 52), L(i, e.n)))
    r = st.mem.get(p.r) if isinstance(p, Ptr) and p.o.const() and p.o.c == 0 else None
    sz = getattr(r, 'size', None) or (r.n * r.es if r is not None and not hasattr(r, 'size') else None)
    if r is None:
        raise Undecided('buffer')
    cnt = z3.If(U(i + e.sd, e.n), z3.BitVecVal(e.sd, 64), e.n - i)
    words = B(sz if hasattr(r, 'size') else r.n, 64)
    words = z3.LShR(words, 3) if hasattr(r, 'size') else words
    need(e, st, 'inter sampled values: the buffer is large enough', U(cnt, words))
    e.nb += 1
    na = z3.Array('psi_block_%d' % e.nb, BV, BV)
    e.buf = (p, na, i, k)
    st.mem[p.r] = Arr('psi_block', 8, na, z3.simplify(words))
    st.facts.append(Quant('buf', lambda j: z3.Implies(L(j, cnt), na[j] == PSI(i + j) - PSI(i))))
    return [(st, None)]


ENC = [mc('psi.sample', r'^DEncB?::sample\(', _encsample), mc('psi[]', r'^DEncB?::operator\[\]', _encat), mc('psi.size', r'^DEncB?::size', lambda e, st, a: [(st, e.n)]), mc('psi.get_sample_dens', r'^DEncB?::get_sample_dens', lambda e, st, a: [(st, e.sd)]),
       mc('psi.get_inter_sampled_values', r'^DEncB?::get_inter_sampled_values', _encinter)]


def make(c, k, w):
    """an index: what its default constructor builds, its members being known by contract"""
    e, _ = base(c, w)
    e.nb = 0
    e.light = False
    e.sd = 8
    p = c.obj('index', 512, {})
    sts = list(c.call('%sctor%d' % (k, w), [p]))
    assert len(sts) == 1
    return e, p, sts[0][0]


def t_at(c, k, w):
    e, p, st0 = make(c, k, w)
    i = c.bv('i')
    c.st = st0
    step = (lambda j: LF(j)) if k == 'w' else (lambda j: PSI(j))
    fact = f_lf if k == 'w' else f_psi
    st0.assume(z3.And(L(i, e.n), f_sa(e, i)))
    dist = lambda j: z3.And(L(DIST(j), e.n), fact(e, j), z3.Implies(DIST(j) != 0, DIST(step(j)) == DIST(j) - 1))
    st0.assume(dist(i))
    st0.facts.append(Quant('atLF', dist))
    st0.facts.append(Quant('atPSI', dist))

    # text position after q steps: defined step by step, closed form by induction
    closed = lambda q: STEP(q) == (z3.If(U(q, SA(i)), SA(i) - q, SA(i) + e.n - q) if k == 'w' else z3.If(L(SA(i) + q, e.n), SA(i) + q, SA(i) + q - e.n))
    defn = lambda q: z3.And(STEP(Z0) == SA(i), STEP(q + 1) == (pred if k == 'w' else succ)(e, STEP(q)))
    g, q0 = State(), c.bv('q')
    g.assume(z3.And(L(SA(i), e.n), U(e.n, 1 << 52), L(q0 + 1, e.n), L(q0, e.n), defn(q0)))
    c.ensures(g, 'induction: no step', z3.substitute(closed(q0), (q0, Z0)))
    g.assume(closed(q0))
    c.ensures(g, 'induction: one more step', closed(q0 + 1))
    st0.facts.append(Quant('steps', lambda q: z3.Implies(L(q, e.n), z3.And(closed(q), defn(q)))))

    def inv(Lc):
        j, off = Lc.v('i'), Lc.v('off')
        Lc.st.assume(dist(j))
        Lc.st.use('steps', off)
        ok = SA(j) == STEP(off)
        return [('a row, off steps away from i', z3.And(L(j, e.n), off + DIST(j) == DIST(i), U(off, DIST(i)))), ('its suffix', ok)]
    e.loopspecs = [LoopSpec(r'csa_(wt|sada)<.*>::operator\[\]', 0, inv, variant=lambda Lc: DIST(Lc.v('i')))]
    for st, r in c.call('%sat%d' % (k, w), [p, i]):
        c.reach(st, 'SA')
        st.assume(f_sa(e, i))
        c.ensures(st, 'csa[i] is the suffix array', B(r, 64) == SA(i))
    for st, r in c.call('%ssize%d' % (k, w), [p]):
        c.ensures(st, 'size', B(r, 64) == e.n)


def t_rank(c, k, w):
    e, p, st0 = make(c, k, w)
    c.st = st0
    e.light = True
    e.loop_subst = True
    i, ch, x = c.bv('i'), c.bv('c', w), c.bv('x')
    cc = z64(ch)
    K = e.K = c.bv('code')
    e.cc = cc
    lo_, hi_ = e.lo, e.hi = c.bv('C_code'), c.bv('C_next')
    absent = z3.And(K == 0, cc != 0)
    st0.assume(z3.And(U(i, e.n), L(K, e.sg), L(lo_, hi_), U(hi_, e.n), z3.Implies(K == 0, lo_ == 0), z3.Implies(cc == 0, K == 0), U(lo_, x), L(x, hi_)))
    if k == 'w':
        for st, r in c.call('wrank%d' % w, [p, i, ch]):
            c.reach(st, 'rank')
            c.ensures(st, 'bwt.rank is the rank of the wavelet tree', B(r, 64) == RK(i, cc))
        return
    # psi increases within the rows of one symbol
    mono = lambda j: z3.Implies(z3.And(U(lo_, j), L(j, hi_)), z3.And(L(PSI(j), e.n), z3.Implies(U(j, x), U(PSI(j), PSI(x))), z3.Implies(U(x, j), U(PSI(x), PSI(j)))))
    st0.facts.append(Quant('psi', mono))
    st0.assume(L(PSI(x), e.n))
    sd = e.sd
    fl, fu = z3.UDiv(lo_ + (sd - 1), z3.BitVecVal(sd, 64)), z3.UDiv(hi_ + (sd - 1), z3.BitVecVal(sd, 64))

    low, high = L(PSI(x), i), U(i, PSI(x))

    def sb(Lc):
        l, u = Lc.v('lower_sb'), Lc.v('upper_sb')
        return [('between the first and the last sample of the symbol', z3.And(U(fl, l), U(l, u), U(u, fu))), ('rows up to the lower sample are below i', z3.Or(l == fl, z3.Implies(U(x, l * sd), low))),
                ('rows from the upper sample on are not', z3.Or(u == fu, z3.Implies(U(u * sd, x), high)))]

    def blk(Lc):
        q = Lc.raw('p')
        if not (isinstance(q, Ptr) and q.r == e.buf[0].r):
            raise Undecided('buffer pointer')
        j = B(q.o.div(8), 64)
        lb = e.buf[2]
        Lc.st.use('buf', j)
        Lc.st.use('psi', lb + j)
        lim = z3.If(U(hi_, lb + sd), hi_ - lb, z3.BitVecVal(sd, 64))
        return [('inside the block', U(j, lim)), ('rows before are below i', z3.Implies(L(x, lb + j), low))]

    def fin(Lc):
        l, u = Lc.v('lower_b'), Lc.v('upper_b')
        return [('inside the rows of the symbol', z3.And(U(lo_, l), L(l, u), U(u, hi_))), ('rows up to the lower bound are below i', z3.Or(l == lo_, z3.Implies(U(x, l), low))),
                ('rows from the upper bound on are not', z3.Implies(U(u, x), high))]
    R = r'csa_sada<.*>::rank_bwt'
    e.loopspecs = [LoopSpec(R, 0, sb, variant=lambda Lc: Lc.v('upper_sb') - Lc.v('lower_sb')), LoopSpec(R, 1, blk, variant=lambda Lc: z3.BitVecVal(sd + 1, 64) - B(Lc.raw('p').o.div(8), 64)),
                   LoopSpec(R, 2, fin, variant=lambda Lc: Lc.v('upper_b') - Lc.v('lower_b'))]
    for st, r in c.call('%srank%d' % (k, w), [p, i, ch]):
        c.reach(st, 'rank')
        g = B(r, 64)
        c.ensures(st, 'bwt.rank of an absent symbol is 0', z3.Implies(absent, g == 0))
        c.ensures(st, 'bwt.rank(i,c) counts the rows of c whose psi is below i', z3.Implies(z3.Not(absent), z3.And(U(g, hi_ - lo_), L(PSI(x), i) == L(x, lo_ + g))))


def t_sel(c, k, w):
    e, p, st0 = make(c, k, w)
    c.st = st0
    i, ch = c.bv('i'), c.bv('c', w)
    cc = z64(ch)
    K = COMP(cc)
    absent = z3.And(K == 0, cc != 0)
    st0.assume(z3.And(U(1, i), U(i, e.n), L(K, e.sg), f_code(e, K), CC(Z0) == 0, z3.Implies(cc == 0, K == 0), z3.Implies(z3.Not(absent), CHR(K) == cc)))
    for st, r in c.call('%ssel%d' % (k, w), [p, i, ch]):
        c.reach(st, 'select')
        inside = z3.And(z3.Not(absent), L(CC(K) + i - 1, CC(K + 1)))
        c.ensures(st, 'bwt.select(i,c): psi of the i-th row of c, size() if there is none', B(r, 64) == z3.If(inside, PSI(CC(K) + i - 1), e.n))


# ---------------------------------------------------------------- samplings
SV, IPM, RKS, SLS = (z3.Function(n, BV, BV) for n in ('SAMPLES', 'INVPERM', 'MARKRANK', 'MARKSEL'))


def t_order(c, D):
    e = c.e
    n, i = c.bv('n'), c.bv('i')
    e.n = n
    d = z3.BitVecVal(D, 64)
    c.assume(U(1, n), U(n, 1 << 52), L(i, n))
    p = absvec(c, 'samples', SV, z3.UDiv(n + (D - 1), d))
    q = z3.UDiv(i, d)
    for st, r in c.call('so%d' % D, [p, i]):
        c.reach(st, 'sampled')
        c.ensures(st, 'sampled: multiples of the density', (B(r, 1) == 1) == (z3.URem(i, d) == 0))
    # the constructor stores SA[k*density] as k-th sample
    c.assume(z3.URem(i, d) == 0, SV(q) == SA(i))
    for st, r in c.call('sov%d' % D, [p, i]):
        c.reach(st, 'value')
        c.ensures(st, 'the sample is the suffix array value', B(r, 64) == SA(i))


def outs(c):
    return c.obj('a', 8, {0: (8, c.bv('a0'))}), c.obj('b', 8, {0: (8, c.bv('b0'))})


def t_isas(c, D):
    e = c.e
    n, i = c.bv('n'), c.bv('i')
    e.n = n
    d = z3.BitVecVal(D, 64)
    m = z3.UDiv(n - 1, d) + 1
    c.assume(U(1, n), U(n, 1 << 52), L(i, n))
    p = absvec(c, 'samples', SV, m)
    a, b = outs(c)
    # the constructor stores ISA[k*density] as k-th sample
    fact = lambda k: z3.Implies(L(k, m), z3.And(SV(k) == ISA(k * D), L(k * D, n)))
    q = z3.UDiv(i, d)
    c.assume(fact(q), fact(z3.If(q + 1 == m, Z0, q + 1)), U(q * D, i), L(i, q * D + D), L(q, m))
    c.assume(z3.URem(q + 1, m) == z3.If(q + 1 == m, Z0, q + 1))
    for f in ('isl', 'isq'):
        for st, _ in c.call('%s%d' % (f, D), [p, i, a, b]):
            c.reach(st, f)
            x, y = B(c.ld(st, a, 0, 8), 64), B(c.ld(st, b, 0, 8), 64)
            c.ensures(st, '%s: ISA value of the position returned' % f, z3.And(L(y, n), x == ISA(y)))
            if f == 'isl':
                c.ensures(st, 'sample_leq: the last sampled position up to i', z3.And(U(y, i), L(i, y + D)))
            else:
                c.ensures(st, 'sample_qeq: the next sampled position, or position 0', z3.Or(y == 0, z3.And(L(i, y), U(y, i + D))))


def _tmark(e, st, a):
    i = B(a[1], 64)
    need(e, st, 'marked: position < size', L(i, e.n))
    return [(st, z3.URem(SA(i), z3.BitVecVal(e.D, 64)) == 0)]


def _trk(e, st, a):
    i = B(a[1], 64)
    need(e, st, 'rank of the marks: position <= size', U(i, e.n))
    st.assume(U(RKS(i), e.m))
    st.use('mark', i)
    return [(st, RKS(i))]


def _tsel(e, st, a):
    j = B(a[1], 64)
    need(e, st, 'select of the marks: 1..number of marks', z3.And(U(1, j), U(j, e.m)))
    return [(st, SLS(j))]


def _perm(e, st, a):
    k = B(a[1], 64)
    need(e, st, 'inverse permutation: position < size', L(k, e.m))
    st.use('perm', k)
    st.assume(L(IPM(k), e.m))
    return [(st, IPM(k))]


MARK = [mc('marked[]', r'^SBV::operator\[\]', _tmark), mc('rank_marked', r'^SR::operator\(\)', _trk), mc('select_marked', r'^SS::operator\(\)', _tsel), mc('inv_perm[]', r'^SPerm::operator\[\]', _perm), mc('inv_perm.size', r'^SPerm::size', lambda e, st, a: [(st, e.m)])]


def t_text(c, D):
    e = c.e
    n, i = c.bv('n'), c.bv('i')
    e.n, e.D = n, D
    d = z3.BitVecVal(D, 64)
    e.m = m = z3.UDiv(n - 1, d) + 1
    c.assume(U(1, n), U(n, 1 << 52), L(i, n), f_sa(e, i))
    p = c.obj('sampling', 128, {})
    absvec(c, 'samples', SV, m, at=p)
    for st, r in c.call('to%d' % D, [p, i]):
        c.reach(st, 'sampled')
        c.ensures(st, 'sampled: rows whose suffix starts at a multiple of the density', (B(r, 1) == 1) == (z3.URem(SA(i), d) == 0))
    c.st.facts.append(Quant('mark', lambda j: z3.Implies(z3.And(L(j, n), z3.URem(SA(j), d) == 0), z3.And(L(RKS(j), m), SV(RKS(j)) * D == SA(j)))))
    c.assume(z3.URem(SA(i), d) == 0)
    for st, r in c.call('tov%d' % D, [p, i]):
        c.reach(st, 'value')
        c.ensures(st, 'the sample is the suffix array value', B(r, 64) == SA(i))


def t_texti(c, D):
    e = c.e
    n, i = c.bv('n'), c.bv('i')
    e.n, e.D = n, D
    d = z3.BitVecVal(D, 64)
    e.m = m = z3.UDiv(n - 1, d) + 1
    c.assume(U(1, n), U(n, 1 << 52), L(i, n))
    q = z3.UDiv(i, d)
    # row of text position k*density: the (invperm(k)+1)-th marked row
    fact = lambda k: z3.Implies(L(k, m), z3.And(L(IPM(k), m), SLS(IPM(k) + 1) == ISA(k * D), L(k * D, n)))
    c.st.facts.append(Quant('perm', fact))
    c.assume(U(q * D, i), L(i, q * D + D), L(q, m), fact(q), fact(z3.If(q + 1 == m, Z0, q + 1)))
    c.assume(z3.URem(q + 1, m) == z3.If(q + 1 == m, Z0, q + 1))
    p = c.obj('isasampling', 128, {})
    a, b = outs(c)
    for f in ('til', 'tiq'):
        for st, _ in c.call('%s%d' % (f, D), [p, i, a, b]):
            c.reach(st, f)
            x, y = B(c.ld(st, a, 0, 8), 64), B(c.ld(st, b, 0, 8), 64)
            c.ensures(st, '%s: ISA value of the position returned' % f, z3.And(L(y, n), x == ISA(y)))
            if f == 'til':
                c.ensures(st, 'sample_leq: the last sampled position up to i', z3.And(U(y, i), L(i, y + D)))
            else:
                c.ensures(st, 'sample_qeq: the next sampled position, or position 0', z3.Or(y == 0, z3.And(L(i, y), U(y, i + D))))
    for st, r in c.call('tiv%d' % D, [p, i]):
        c.ensures(st, '[i]: ISA value of the sampled position up to i', B(r, 64) == ISA(q * D))


def tasks(tier):
    r = []
    for w in (8, 64):
        r += [('row-small%d' % w, t_frs, (w, True), ''), ('row-large%d' % w, t_frs, (w, False), ''), ('members%d' % w, t_members, (w,), '')]
        r += [('%s%d' % (k, w), t_isa, (w, k), '') for k in ('isw', 'isp')] + [('%s%d' % (k, w), t_ext, (w, k), '') for k in ('exl', 'exp')]
        r += [('%sat%d' % (k, w), t_at, (k, w), '') for k in ('w', 's')] + [('%srank%d' % (k, w), t_rank, (k, w), '') for k in ('w', 's', 'b') if tier == 'thorough' or k == 'w' or (k, w) in (('s', 8), ('s', 64), ('b', 64))] + [('%ssel%d' % (k, w), t_sel, (k, w), '') for k in ('w', 's')]
    for D in (1, 5, 32) if tier == 'thorough' else (1, 32):
        r += [('saorder%d' % D, t_order, (D,), ''), ('isasampling%d' % D, t_isas, (D,), ''), ('textorder%d' % D, t_text, (D,), ''), ('textorderisa%d' % D, t_texti, (D,), '')]
    if tier != 'thorough':
        r = [t for t in r if t[0] not in ('row-small8', 'isw8', 'isp8', 'exl8', 'exp8', 'brank64', 'ssel8', 'srank64')]
    return r


def config(name, fn, args, cfg):
    k = DC + ENC + MARK + AV + BITS
    if not name.startswith('row'):
        k = [FRS] + k
    return dict(tables=TABLES, contracts=k, externs=EXT)
