"""P31: alphabet structures: the mappings between symbols and their compact codes."""
from .common import *
from .p06 import EXT

TITLE = 'alphabets'
# the bit vector, rank and select structures of the alphabets have no implementation here: they are known by their contracts
UNIT = '''
#include <sdsl/csa_alphabet_strategy.hpp>
#include <new>
using namespace sdsl;
struct BVe { uint64_t size() const; bool operator[](uint64_t) const; };
struct RKe { uint64_t operator()(uint64_t) const; uint64_t rank(uint64_t) const; };
struct SLe { uint64_t operator()(uint64_t) const; uint64_t select(uint64_t) const; };
typedef succinct_byte_alphabet<BVe,RKe,SLe,int_vector<64>> SB; typedef int_alphabet<BVe,RKe,SLe,int_vector<>> IA;
extern "C" {
uint64_t sb_c2c(const SB& a, uint8_t c){ return a.char2comp[c]; }
uint64_t sb_comp(const SB& a, uint8_t k){ return a.comp2char[k]; }
uint64_t ia_c2c(const IA& a, uint64_t c){ return a.char2comp[c]; }
uint64_t ia_comp(const IA& a, uint64_t k){ return a.comp2char[k]; }
void sb_new(SB* a){ new (a) SB(); }
void ia_new(IA* a){ new (a) IA(); }
const void* sb_sigma(const SB& a){ return &a.sigma; }
const void* ia_sigma(const IA& a){ return &a.sigma; }
const void* ia_C(const IA& a){ return &a.C; }
uint64_t sb_size(){ return sizeof(SB); }
uint64_t ia_size(){ return sizeof(IA); }
void ba_new(byte_alphabet* a, int_vector_buffer<8>& b, uint64_t n){ new (a) byte_alphabet(b, n); }
}
'''
LIBS = ['bits.cpp', 'memory_management.cpp', 'csa_alphabet_strategy.cpp']
DRIVER_LIBS, DRIVER_SECS = ALL_LIBS[:13], 12.0
ASSUMPTIONS = ['bit vectors of at most 2^62 bits', 'comp2char is asked for codes below sigma']
TRUSTED = ['rank, select, size and access of the bit vector of the alphabet: contracts proved by P03, P06, P07, P10',
           'copies, moves, swap, serialize and load, and the constructors of succinct_byte_alphabet and int_alphabet are only covered by the bounded native driver']
BV = z3.BitVecSort(64)
CH, RKF, SELF = (z3.Function(n, BV, BV) for n in ('CHAR', 'CHARRANK', 'CHARSEL'))


def _acc(e, st, a):
    i = B(a[1], 64)
    e.oblige(st, 'precondition of the mark: position below the size', 'precondition', L(i, e.n))
    return [(st, norm(z3.Extract(0, 0, CH(i)) == 1) if False else z3.Extract(7, 0, CH(i)))]


def _rk(e, st, a):
    i = B(a[1], 64)
    e.oblige(st, 'precondition of rank: position at most the size', 'precondition', U(i, e.n))
    st.assume(z3.And(U(RKF(i), i), U(RKF(i), e.sg)))
    return [(st, RKF(i))]


def _sl(e, st, a):
    i = B(a[1], 64)
    e.oblige(st, 'precondition of select: 1 <= i <= sigma', 'precondition', z3.And(U(1, i), U(i, e.sg)))
    return [(st, SELF(i))]


def _size(e, st, a):
    return [(st, e.n)]


def _acc1(e, st, a):
    i = B(a[1], 64)
    e.oblige(st, 'precondition of the mark: position below the size', 'precondition', L(i, e.n))
    return [(st, CH(i) != 0)]


ABS = [MemContract('bit vector access', r'^BVe::operator\[\]', _acc1), MemContract('bit vector size', r'^BVe::size', _size),
       MemContract('rank', r'^RKe::', _rk), MemContract('select', r'^SLe::', _sl)]


def t_map(c, nm):
    e = c.e
    n, sg = e.n, e.sg = c.bv('n'), c.bv('sigma')
    cw = 8 if nm == 'sb' else 64
    x, k = c.bv('c', cw), c.bv('k', cw)
    c.assume(U(n, 1 << 62), U(1, sg))
    if nm == 'sb':
        c.assume(n == 256, U(sg, 256))
    else:
        c.assume(U(sg, 1 << 62), z3.Implies(n != 0, U(sg, n)))
    sz = [r for _, r in c.call(nm + '_size', [])][0]
    p = c.obj('alphabet', sz if isinstance(sz, int) else z3.simplify(sz).as_long(), {})
    outs = c.call(nm + '_new', [p])
    assert len(outs) == 1
    st = outs[0][0]
    q = [r for _, r in c.call(nm + '_sigma', [p], st=st)][0]
    e.store_raw(st, q, 2 if nm == 'sb' else 8, z3.Extract(15, 0, sg) if nm == 'sb' else sg)
    X, K = z64(x), z64(k)
    occ = z3.And(L(X, n), CH(X) != 0)
    # marks, ranks and selects belong together (for the symbol c and the code k)
    st.assume(z3.And(z3.Implies(occ, z3.And(L(RKF(X), sg), SELF(RKF(X) + 1) == X)), z3.Implies(L(K, sg), z3.And(L(SELF(K + 1), n), CH(SELF(K + 1)) == 1, RKF(SELF(K + 1)) == K))))
    cont = n == 0
    for s, r in c.call(nm + '_c2c', [p, x], st=st):
        c.reach(s, 'char2comp')
        r = B(r, 64)
        c.ensures(s, 'char2comp[c] is the number of smaller symbols of the text, 0 for absent ones', z3.If(cont, r == z3.If(L(X, sg), X, 0), r == z3.If(occ, RKF(X), 0)))
    s0 = st.copy()
    s0.assume(L(K, sg))
    for s, r in c.call(nm + '_comp', [p, k], st=s0):
        c.reach(s, 'comp2char')
        r = B(r, 64)
        c.ensures(s, 'comp2char[k] is the k-th smallest symbol', r == z3.If(cont, K, SELF(K + 1)))
        s2 = s.copy()
        for s3, r3 in c.call(nm + '_c2c', [p, norm(z3.Extract(cw - 1, 0, r))], st=s2):
            c.ensures(s3, 'char2comp[comp2char[k]] is k', B(r3, 64) == K)


# ---- constructor of byte_alphabet
OCC, SMB = z3.Function('OCC', BV, BV, BV), z3.Function('SMALLER', BV, BV)   # occurrences of c in text[0..i); positions with a symbol below c
NZ, SYMI, TXT, CUM = (z3.Function(n, BV, BV) for n in ('NONZERO', 'SYMBOL', 'TEXT', 'CUMUL'))


def _read(e, st, a):
    i = B(a[1], 64)
    e.oblige(st, 'precondition of text_buf[i]: i < size', 'precondition', L(i, e.bn))
    st.assume(L(TXT(i), 256))
    return [(st, TXT(i))]


def _v8ctor(e, st, a):
    n = norm(B(a[1], 64))
    if not isinstance(n, int) or norm(B(a[2], 64)) != 0:
        return None
    q = e.new_arr(st, fresh_name('bytes'), 1, z3.BitVecVal(n, 64), z3.K(BV, z3.BitVecVal(0, 8)))
    set_vec(e, st, a[0], z3.BitVecVal(8 * n, 64), q, 8)
    return [(st, None)]


def _vcopy(e, st, a):
    """copy of a vector (P04): same size, width and words"""
    q = e.load_raw(st, a[1].addc(8), 8)
    r = e.region(st, q)
    if isinstance(r, Raw):
        r = e.settle(st, q, 8)
    if not isinstance(r, Arr) or r.fam:
        return None
    p = e.new_arr(st, fresh_name('copy'), r.es, r.n, r.a)
    set_vec(e, st, a[0], B(e.load_raw(st, a[1], 8), 64), p, e.load_raw(st, a[1].addc(16), 1))
    return [(st, None)]


def _v8at(e, st, a):
    q = e.load_raw(st, a[0].addc(8), 8)
    if not isinstance(q, Ptr) or q.r is None or getattr(e.region(st, q), 'es', 0) != 1:
        return None
    i = B(e.load_raw(st, a[1], 8), 64)
    st.use(e.region(st, q).name, i)
    return [(st, Ptr(q.r, Lin(0, ((1, i),))))]


def _v8resize(e, st, a):
    q = e.load_raw(st, a[0].addc(8), 8)
    r = e.region(st, q)
    if getattr(r, 'es', 0) != 1:
        return None
    m = B(a[1], 64)
    e.oblige(st, 'comp2char shrinks', 'precondition', U(m, B(r.n, 64)))
    p = e.new_arr(st, fresh_name('bytes'), 1, m, r.a)
    e.mut(st, q.r).live = False
    set_vec(e, st, a[0], m << 3, p, 8)
    return [(st, None)]


V8 = [MemContract('int_vector_buffer<8>::read', r'^sdsl::int_vector_buffer<\(unsigned char\)8>::read\(unsigned long\)$', _read),
      MemContract('int_vector_buffer<8>::size', r'^sdsl::int_vector_buffer<\(unsigned char\)8>::size\(\) const$', lambda e, st, a: [(st, e.bn)]),
      MemContract('int_vector<8>(n,0)', r'^sdsl::int_vector<\(unsigned char\)8>::int_vector\(unsigned long, unsigned (char|long), unsigned char\)$', _v8ctor),
      MemContract('int_vector(const int_vector&)', r'^sdsl::int_vector<\(unsigned char\)\d+>::int_vector\(sdsl::int_vector<\(unsigned char\)\d+> const&\)$', _vcopy),
      MemContract('int_vector<8>::operator[]', r'^sdsl::int_vector<\(unsigned char\)8>::operator\[\]\(unsigned long const&\)$', _v8at),
      MemContract('int_vector<8>::resize', r'^sdsl::int_vector<\(unsigned char\)8>::resize\(unsigned long\)$', _v8resize)]


def t_byte(c):
    e = c.e
    n, e.bn = c.bv('len'), c.bv('bufsize')
    c.assume(U(n, e.bn), U(e.bn, 1 << 52), U(1, n))
    buf = c.obj('text_buf', 600, {}, ro=True)
    p = c.obj('alphabet', 136, {})
    zero = z3.BitVecVal(0, 64)
    occ = lambda k: OCC(k, n) != 0
    x = c.bv('symbol')

    def vec(st, off):
        q = c.ld(st, p, off + 8, 8)
        r = c.e.region(st, q)
        if isinstance(r, Raw):
            r = c.e.settle(st, q, 8)
        return r.name, r.a
    # NONZERO(k) = number of occurring symbols below k, SYMBOL(j) = j-th occurring symbol, CUMUL(j) = occurrences of the first j of them
    nzdef = lambda k: z3.And(NZ(k + 1) == NZ(k) + z3.If(occ(k), z3.BitVecVal(1, 64), 0), U(NZ(k), k), SMB(k + 1) == SMB(k) + OCC(k, n))
    symdef = lambda k: z3.Implies(z3.And(L(k, 256), occ(k)), SYMI(NZ(k)) == k)
    nzmono = lambda a, b: z3.Implies(z3.And(L(a, b), U(b, 256)), U(NZ(a) + z3.If(occ(a), z3.BitVecVal(1, 64), 0), NZ(b)))
    invdef = lambda j: z3.Implies(L(j, NZ(z3.BitVecVal(256, 64))), z3.And(L(SYMI(j), 256), occ(SYMI(j)), NZ(SYMI(j)) == j))
    cumdef = lambda j: CUM(j + 1) == CUM(j) + OCC(SYMI(j), n)
    c.assume(NZ(zero) == 0, SMB(zero) == 0, CUM(zero) == 0, nzmono(x, z3.BitVecVal(256, 64)), symdef(x), nzdef(x), L(x, 256))
    # the properties of these functions, by induction
    k, m = c.bv('k'), c.bv('m')
    b = c.st.copy()
    for f in (nzdef(k), L(k, 256), L(m, k), U(NZ(m) + z3.If(occ(m), z3.BitVecVal(1, 64), 0), NZ(k)), U(NZ(k), k)):
        b.assume(f)
    c.ensures(b, 'induction: NONZERO grows', z3.And(U(NZ(m) + z3.If(occ(m), z3.BitVecVal(1, 64), 0), NZ(k + 1)), U(NZ(k) + z3.If(occ(k), z3.BitVecVal(1, 64), 0), NZ(k + 1)), U(NZ(k + 1), k + 1)))
    b = c.st.copy()
    for f in (nzdef(k), L(k, 256), symdef(k), cumdef(NZ(k)), CUM(NZ(k)) == SMB(k)):
        b.assume(f)
    c.ensures(b, 'induction: C of the code of a symbol counts the smaller symbols', CUM(NZ(k + 1)) == SMB(k + 1))
    c.assume(CUM(NZ(x)) == SMB(x), CUM(NZ(z3.BitVecVal(256, 64))) == SMB(z3.BitVecVal(256, 64)))

    def inv1(Lc):
        nm, a = vec(Lc.st, 64)
        i = Lc.v('i')
        Lc.st.facts.append(Quant(nm, lambda k: z3.And(OCC(k, i + 1) == OCC(k, i) + z3.If(TXT(i) == k, z3.BitVecVal(1, 64), 0), OCC(k, zero) == 0)))
        return [('position', U(i, n)), ('C counts the symbols so far', Quant(nm, lambda k: z3.Implies(L(k, 256), a[k] == OCC(k, i))))]

    def inv2(Lc):
        (n1, a1), (n2, a2), (n3, a3) = vec(Lc.st, 0), vec(Lc.st, 32), vec(Lc.st, 64)
        e.oldC = (n1, n2, n3)
        i, sg = Lc.v(nth_var(Lc, 'i', 1)), z64(B(c.ld(Lc.st, p, 96, 2), 16))
        Lc.st.assume(z3.And(nzdef(i), symdef(i), U(NZ(i), i)))
        Lc.st.facts.append(Quant((n1, n2, n3), lambda k: z3.And(nzmono(k, i), nzmono(i, k))))
        return [('position', U(i, 256)), ('sigma is the number of occurring symbols so far', sg == NZ(i)),
                ('char2comp so far', Quant((n1, n2, n3), lambda k: z3.Implies(L(k, 256), z64(a1[k]) == z3.If(z3.And(L(k, i), occ(k)), NZ(k), zero)))),
                ('comp2char so far', Quant((n1, n2, n3), lambda j: z3.Implies(L(j, NZ(i)), z64(a2[j]) == SYMI(j)))),
                ('compacted counts', Quant((n1, n2, n3), lambda j: z3.And(z3.Implies(L(j, NZ(i)), a3[j] == OCC(SYMI(j), n)), z3.Implies(z3.And(U(i, j), L(j, 256)), a3[j] == OCC(j, n)))))]

    def inv3(Lc):
        (n3, a3) = vec(Lc.st, 64)
        i, sg = Lc.v(nth_var(Lc, 'i', 2)), z64(B(c.ld(Lc.st, p, 96, 2), 16))
        return [('position', z3.And(U(i, sg), sg == NZ(z3.BitVecVal(256, 64)), U(sg, 256))), ('counts moved up', Quant((n3,) + e.oldC, lambda j: z3.And(z3.Implies(z3.And(L(i, j), U(j, sg)), a3[j] == OCC(SYMI(j - 1), n)), z3.Implies(z3.And(L(j, i)), a3[j] == OCC(SYMI(j), n)))))]

    def inv4(Lc):
        (n3, a3) = vec(Lc.st, 64)
        i, sg = Lc.v(nth_var(Lc, 'i', 3)), z64(B(c.ld(Lc.st, p, 96, 2), 16))
        Lc.st.assume(z3.And(cumdef(i - 1)))
        return [('position', z3.And(U(1, i), U(i, sg + 1), sg == NZ(z3.BitVecVal(256, 64)), U(sg, 256))), ('cumulative counts', Quant(n3, lambda j: z3.And(z3.Implies(L(j, i), a3[j] == CUM(j)), z3.Implies(z3.And(U(i, j), U(j, sg)), a3[j] == OCC(SYMI(j - 1), n)))))]
    R = r'^sdsl::byte_alphabet::byte_alphabet\(sdsl::int_vector_buffer'
    e.loopspecs = [LoopSpec(R, q, f, variant=v) for q, (f, v) in enumerate(((inv1, lambda Lc: n - Lc.v('i')), (inv2, lambda Lc: 256 - Lc.v(nth_var(Lc, 'i', 1))), (inv3, lambda Lc: Lc.v(nth_var(Lc, 'i', 2))), (inv4, lambda Lc: 300 - Lc.v(nth_var(Lc, 'i', 3)))))]
    for st, _ in c.call('ba_new', [p, buf, n]):
        c.reach(st, 'constructed')
        (n1, a1), (n2, a2), (n3, a3) = vec(st, 0), vec(st, 32), vec(st, 64)
        sg = z64(B(c.ld(st, p, 96, 2), 16))
        for nm in (n1, n2, n3):
            for t in (x, NZ(x), sg):
                st.use(nm, t)
        c.ensures(st, 'sigma is the number of symbols of the text', sg == NZ(z3.BitVecVal(256, 64)))
        c.ensures(st, 'char2comp[c]: number of smaller symbols of the text, 0 for absent symbols', z64(a1[x]) == z3.If(occ(x), NZ(x), zero))
        c.ensures(st, 'comp2char[char2comp[c]] is c', z3.Implies(occ(x), z64(a2[NZ(x)]) == x))
        c.ensures(st, 'C[char2comp[c]] is the number of positions with a smaller symbol', z3.Implies(occ(x), a3[NZ(x)] == SMB(x)))
        c.ensures(st, 'C[sigma] counts all positions', a3[sg] == SMB(z3.BitVecVal(256, 64)))
        for off, w in ((0, 256 * 8), (32, None), (64, None)):
            c.ensures(st, 'sizes of the tables', B(c.ld(st, p, off, 8), 64) == (w if w else (sg << 3 if off == 32 else (sg + 1) << 6)))


def tasks(tier):
    return [('map-sb', t_map, ('sb',), ''), ('map-int', t_map, ('ia',), ''), ('byte', t_byte, (), '')]


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + ABS + V8 + VNEW, externs=EXT)
