"""P04: whole-vector operations: resize, fill, copy, move, swap, flip, &=, |=, ^=, comparisons."""
from .common import *
from math import gcd
from engine import theory as th

TITLE = 'int_vector whole-vector operations'
WID = tuple(range(1, 65))
UNIT = '''
#include <sdsl/int_vector.hpp>
#include <new>
using namespace sdsl;
typedef int_vector<0> V; typedef bit_vector B; typedef int_vector<8> V8; typedef int_vector<64> V64;
extern "C" {
void v_bits(V& v, uint64_t s){ v.bit_resize(s); }
void v_resize(V& v, uint64_t n){ v.resize(n); }
void b_resize(B& v, uint64_t n){ v.resize(n); }
void v8_resize(V8& v, uint64_t n){ v.resize(n); }
void v64_resize(V64& v, uint64_t n){ v.resize(n); }
void v_copy(V* r, const V& v){ new (r) V(v); }
void v_move(V* r, V& v){ new (r) V(std::move(v)); }
void v_asg(V& r, const V& v){ r=v; }
void v_masg(V& r, V& v){ r=std::move(v); }
void v_swap(V& r, V& v){ r.swap(v); }
void b_copy(B* r, const B& v){ new (r) B(v); }
void b_asg(B& r, const B& v){ r=v; }
void v_set(V& v, uint64_t x){ util::set_to_value(v,x); }
void v_ctor(V* v, uint64_t n, uint64_t x, uint8_t w){ new (v) V(n,x,w); }
void b_ctor(B* v, uint64_t n, uint64_t x, uint8_t w){ new (v) B(n,x); }
void v8_ctor(V8* v, uint64_t n, uint64_t x, uint8_t w){ new (v) V8(n,x); }
void v64_ctor(V64* v, uint64_t n, uint64_t x, uint8_t w){ new (v) V64(n,x); }
void b_flip(B& v){ v.flip(); }
void v_and(V& a, const V& b){ a&=b; }
void v_or(V& a, const V& b){ a|=b; }
void v_xor(V& a, const V& b){ a^=b; }
bool v_eq(const V& a, const V& b){ return a==b; }
bool v_ne(const V& a, const V& b){ return a!=b; }
bool v_lt(const V& a, const V& b){ return a<b; }
bool v_gt(const V& a, const V& b){ return a>b; }
bool v_le(const V& a, const V& b){ return a<=b; }
bool v_ge(const V& a, const V& b){ return a>=b; }
void v_zero(V& v){ util::_set_zero_bits(v); }
void v_one(V& v){ util::_set_one_bits(v); }
}
'''
LIBS = ['bits.cpp']
DRIVER_LIBS = ['bits.cpp', 'util.cpp', 'memory_management.cpp', 'ram_fs.cpp', 'ram_filebuf.cpp', 'structure_tree.cpp', 'sfstream.cpp', 'io.cpp', 'config.cpp']
ASSUMPTIONS = ['vectors hold at most 2^52 elements', 'memory_monitor records nothing the vectors depend on', 'no hugepage allocator in use']
Z = lambda v, w=64: z3.BitVecVal(v, w)


def nat(c, v, st):
    """class invariant of a vector: size, data words of the state"""
    q = c.ld(st, v, 8, 8)
    return B(c.ld(st, v, 0, 8), 64), q, B(c.ld(st, v, 16, 1), 8)


def words_of(c, st, q):
    """(array term, number of words) behind a data pointer"""
    if not isinstance(q, Ptr) or q.r is None:
        raise Undecided('vector without data')
    r = c.e.region(st, q)
    if isinstance(r, Raw) or not isinstance(r, Arr):
        c.e.settle(st, q, 8) if isinstance(r, Raw) else c.e.to_arr(st, q, 8)
        r = c.e.region(st, q)
    if not (q.o.const() and q.o.c == 0) or not isinstance(r, Arr) or r.es != 8:
        raise Undecided('data pointer is not the start of an array of words')
    return r.a, B(r.n, 64), r.name


def prefix(A, A2, m):
    """the m lowest bits agree (k-th word)"""
    def f(k):
        return z3.And(z3.Implies(L(k, z3.LShR(m, 6)), A2[k] == A[k]),
                      z3.Implies(k == z3.LShR(m, 6), (A2[k] ^ A[k]) & lo(m & 63) == 0))
    return f


def inv_post(c, st, v, size, w8, what):
    s, q, w = nat(c, v, st)
    c.ensures(st, what + ': size', s == size)
    if w8 is not None:
        c.ensures(st, what + ': width', w == w8)
    a, n, name = words_of(c, st, q)
    c.ensures(st, what + ': all words of the vector and one padding word are allocated', U(z3.LShR(size, 6) + 1, n))
    return a, name


def t_resize(c, f):
    null = f.endswith('0')
    f = f.rstrip('0')
    w = {'b_resize': 1, 'v8_resize': 8, 'v64_resize': 64}.get(f)
    if null:
        w8 = c.bv('w', 8) if w is None else Z(w, 8)
        c.assume(U(1, z64(w8)), U(z64(w8), 64)) if w is None else None
        v = c.obj('v', 32, {0: (8, 0), 8: (8, NULL), 16: (1, norm(w8))})
        old, W = Z(0), z64(w8)
    else:
        x = IV(c, 'v', width=w, size=c.bv('bits'))
        c.assume(U(x.size, 1 << 58))
        v, w8, old, A, W = x.p, x.w8, x.size, x.A(), x.w
    s = c.bv('s')
    if f == 'v_bits':
        c.assume(U(s, 1 << 58))
        want = s
    else:
        c.assume(U(s, th.NMAX))
        want = th.MUL(s, W) if w is None else s << {1: 0, 8: 3, 64: 6}[w]
        if w is None:
            c.assume(th.mul_bound(s, W))
    for st, r in c.call(f, [v, s]):
        c.reach(st, f)
        a2, name = inv_post(c, st, v, want, w8, f)
        if not null:
            m = z3.If(L(old, want), old, want)
            st.use('v_data', z3.LShR(m, 6))
            c.ensures(st, f + ': keeps every bit below the smaller size', Quant(('v_data', name), prefix(A, a2, m)))


def src(c, name='v', w=None, ro=True):
    v = IV(c, name, width=w, size=c.bv(name + '_bits'), ro=ro)
    c.assume(U(v.size, 1 << 58))
    return v


def t_copy(c, f):
    w = 1 if f[0] == 'b' else None
    v = src(c, w=w)
    if f.endswith('asg'):
        r0 = IV(c, 'r', width=w, size=c.bv('r_bits'))
        c.assume(U(r0.size, 1 << 58))
        r = r0.p
    else:
        r = c.obj('r', 32)
    for st, _ in c.call(f, [r, v.p]):
        c.reach(st, f)
        a2, name = inv_post(c, st, r, v.size, v.w8, f)
        c.ensures(st, f + ': all bits copied', Quant((name, 'v_data'), prefix(v.A(), a2, v.size)))
        c.ensures(st, f + ': the source is unchanged', v.same(st))
        c.ensures(st, f + ': the copy has its own memory', z3.BoolVal(not ptr_is(c.ld(st, r, 8, 8), v.data)))


def is_vec(c, st, r, v):
    """object r has size, data and width of v"""
    s, q, w = nat(c, r, st)
    return z3.And(s == v.size, w == v.w8, z3.BoolVal(ptr_is(q, v.data, 0)))


def t_move(c, f):
    v = src(c, ro=False)
    if f == 'v_move':
        r = c.obj('r', 32)
    else:
        r0 = src(c, 'r', ro=False)
        r = r0.p
    for st, _ in c.call(f, [r, v.p]):
        c.reach(st, f)
        c.ensures(st, f + ': target has the source contents', is_vec(c, st, r, v))
        c.ensures(st, f + ': contents not modified', Quant('v_data', lambda k: v.A(st)[k] == v.A()[k]))
        if f == 'v_swap':
            c.ensures(st, 'swap: source has the target contents', is_vec(c, st, v.p, r0))
        elif f == 'v_move':
            s, q, w = nat(c, v.p, st)
            c.ensures(st, 'move: source is empty', s == 0)
            c.ensures(st, 'move: source does not own the memory', z3.BoolVal(isinstance(q, Ptr) and q.r is None))
        else:
            s, q, w = nat(c, v.p, st)
            c.ensures(st, 'move assignment: source does not own the memory', z3.BoolVal(isinstance(q, Ptr) and q.r != v.data.r))
    if f == 'v_swap':
        for st, _ in c.call(f, [v.p, v.p]):
            c.ensures(st, 'self swap changes nothing', is_vec(c, st, v.p, v))


# ---- fill: word k of the vector is pattern word k mod n
RM = z3.Function('RM', z3.BitVecSort(64), z3.BitVecSort(64))


def pattern(x, w):
    """words of w copies of 64 bits.. element t of the period at bit t*w"""
    n = w // gcd(w, 64)
    out = []
    for r in range(n):
        v = Z(0)
        for t in range(64 * n // w):
            p = t * w
            if p < 64 * r + 64 and p + w > 64 * r:
                d = p - 64 * r
                y = x & Z((1 << w) - 1)
                v = v | (y << d if d >= 0 else z3.LShR(y, -d))
        out.append(v)
    return out


def fill_specs(c, w, x, data):
    n = w // gcd(w, 64)
    pat = pattern(x, w)

    def word(r):
        t = pat[-1]
        for i in range(n - 2, -1, -1):
            t = z3.If(r == i, pat[i], t)
        return t

    def rm(i):
        return z3.And(RM(i + 1) == z3.If(RM(i) + 1 == n, Z(0), RM(i) + 1), L(RM(i), n))

    def at(Lc):
        q = Lc.raw('data')
        if not isinstance(q, Ptr):
            raise Undecided('data')
        return q

    def filled(Lc, i):
        a = Lc.arr(at(Lc))
        return Quant(Lc.st.mem[at(Lc).r].name, lambda k: z3.Implies(L(k, i), a[k] == word(RM(k))))

    def inv(inner):
        def f(Lc):
            i = Lc.v('i')
            n64 = z3.LShR(B(c.ld(Lc.st, data, 0, 8), 64) + 63, 6)
            r = [('words before i hold the repeated value', filled(Lc, i)), ('position', z3.And(U(i, n64), Lc.v('n64') == n64, idx(at(Lc)) == i)), ('n', Lc.v('n') == n)]
            if inner:
                ii = Lc.v('ii')
                r.append(('phase', z3.And(U(ii, n), RM(i) == z3.If(ii == n, Z(0), ii))))
            else:
                r.append(('phase', z3.Or(i == n64, RM(i) == 0)))
            return r
        return f

    def outer_rm(Lc):
        return Lc.v('n64') - Lc.v('i')
    F = r'util::set_to_value<'
    # RM is total: its recursion holds for all numbers
    c.st.facts.append(Quant('RM', rm))
    return [LoopSpec(F, 2, lambda Lc: (inv(True)(Lc) + [('rm', rmuse(Lc))]), None, vars=('data', 'n64', 'ii'), hint='words'),
            LoopSpec(F, 1, inv(False), None, vars=('data', 'n64'), hint='periods')], word, rm


def rmuse(Lc):
    Lc.st.use('RM', Lc.v('i'))
    return z3.BoolVal(True)


def idx(p):
    q = p.o.div(8)
    if q is None:
        raise Undecided('pointer not on an element')
    return B(q, 64)


def t_fill(c, f, w, special=None):
    """special: None (0 < x, x not all ones), 0 or 'ones'"""
    x = {None: c.bv('x'), 0: Z(0), 'ones': Z((1 << w) - 1)}[special]
    if special is None:
        c.assume(x != 0, x != Z((1 << w) - 1))
    if f[:3] == 'v8_':
        c.assume(L(x, 256))
    if f == 'v_set':
        v = IV(c, 'v', width=w, n=c.bv('n'))
        c.assume(th.udiv_mul(v.n, v.w))
        p, args, n, size = v.p, [v.p, norm(x)], v.n, v.size
    else:
        p = c.obj('v', 32)
        n = c.bv('n')
        c.assume(U(n, th.NMAX), th.mul_bound(n, Z(w)))
        size = th.MUL(n, Z(w)) if w & (w - 1) else n << (w.bit_length() - 1)
        args = [p, n, norm(x), w]
    c.assume(RM(Z(0)) == 0)
    period = w // gcd(w, 64)
    # loops of set_to_value: do-while (unrolled), periods, words
    specs, word, rm = fill_specs(c, w, x, p)
    fn = c.mod.funcs.get(c.find(r'^void sdsl::util::set_to_value<'))
    c.e.loopspecs = list(specs)
    cst = (lambda k: Z(0)) if special == 0 else (lambda k: Z(M64))
    if special is not None:
        def inv0(Lc):
            q, i = Lc.raw('data'), Lc.v('i')
            a = Lc.arr(q)
            return [('words so far', Quant(Lc.st.mem[q.r].name, lambda k: z3.Implies(L(k, i), a[k] == cst(k)))),
                    ('position', z3.And(idx(q) == Lc.v('i') - 1, U(1, Lc.v('i')), U(Lc.v('i'), z3.LShR(B(c.ld(Lc.st, p, 0, 8), 64) + 63, 6))))]
        c.e.loopspecs = [LoopSpec(r'util::_set_(zero|one)_bits<', 0, inv0)]
    j = c.bv('j')
    pj = th.MUL(j, Z(w)) if w & (w - 1) else j << (w.bit_length() - 1)
    o, q = pj & 63, z3.LShR(pj, 6)
    # element j starts at one of the 64n/w positions of the period (arithmetic, over the integers)
    J, Q, O, R = z3.Ints('J Q O R')
    cases = [((t * w) // 64, (t * w) % 64) for t in range(64 * period // w)]
    T, S = z3.Ints('T S')
    per = 64 * period // w
    c.ensures(State(), 'element positions repeat with the period of the pattern',
              z3.Implies(z3.And(J == S * per + T, S >= 0, T >= 0, T < per, Q * 64 + O == J * w, O >= 0, O < 64, Q == R + period * S, ),
                         z3.And(R >= 0, R < period, R * 64 + O == T * w)))
    for st, r in c.call(f, args):
        c.reach(st, '%s width %d' % (f, w))
        a2, name = inv_post(c, st, p, size, Z(w, 8), f)
        s2 = st.copy()
        s2.assume(L(j, n))
        s2.assume(th.mul_mono(j, n, Z(w)) if w & (w - 1) else z3.BoolVal(True))
        s2.assume(z3.Or([z3.And(RM(q) == rr, o == oo) for rr, oo in cases]))
        for t in (q, q + 1):
            s2.use(name, t)
            s2.use('v_data', t)
        s2.use('RM', q)
        c.ensures(s2, 'every element is the value modulo 2^width', field(a2, pj, w if isinstance(w, z3.ExprRef) else Z(w)) == x & Z((1 << w) - 1))


def t_setbits(c, f):
    v = src(c, ro=False)
    val = Z(0) if f == 'v_zero' else Z(M64)

    def inv(Lc):
        q, i = Lc.raw('data'), Lc.v('i')
        a = Lc.arr(q)
        return [('words so far', Quant('v_data', lambda k: z3.Implies(L(k, i), a[k] == val))),
                ('position', z3.And(idx(q) == Lc.v('i') - 1, U(1, Lc.v('i')), U(Lc.v('i'), z3.LShR(v.size + 63, 6))))]
    c.e.loopspecs = [LoopSpec(r'util::_set_(zero|one)_bits<', 0, inv)]
    for st, r in c.call(f, [v.p]):
        c.reach(st, f)
        A2 = v.A(st)
        c.ensures(st, f + ': all words set', Quant('v_data', lambda k: z3.Implies(L(k << 6, v.size), z3.Implies(U(k, 1 << 52), A2[k] == val))))
        c.ensures(st, f + ': size and width unchanged', v.same(st))


def t_words(c, f):
    """flip and the bitwise assignments"""
    w = 1 if f == 'b_flip' else None
    a = src(c, 'a', w=w, ro=False)
    op = {'b_flip': lambda x, y: ~x, 'v_and': lambda x, y: x & y, 'v_or': lambda x, y: x | y, 'v_xor': lambda x, y: x ^ y}[f]
    args = [a.p]
    A = a.A()
    if f != 'b_flip':
        b = IV(c, 'b', size=a.size, ro=True)
        args.append(b.p)
        Bb = b.A()
    else:
        Bb = A

    def inv(Lc):
        i = Lc.v('i')
        A2 = a.A(Lc.st)
        return [('words before i are updated, the others are not', Quant(('a_data', 'b_data'), lambda k: A2[k] == z3.If(L(k, i), op(A[k], Bb[k]), A[k]))),
                ('i in range', U(i, z3.LShR(a.size + 63, 6)))]
    c.e.loopspecs = [LoopSpec(r'int_vector<.*>::(flip|operator&=|operator\|=|operator\^=)', 0, inv, variant=lambda Lc: z3.LShR(a.size + 63, 6) - Lc.v('i'))]
    for st, r in c.call(f, args):
        c.reach(st, f)
        A2 = a.A(st)

        def post(k):
            return z3.And(z3.Implies(L(k, z3.LShR(a.size, 6)), A2[k] == op(A[k], Bb[k])),
                          z3.Implies(k == z3.LShR(a.size, 6), (A2[k] ^ op(A[k], Bb[k])) & lo(a.size & 63) == 0))
        c.ensures(st, f + ': every bit below the size', Quant(('a_data', 'b_data'), post))
        c.ensures(st, f + ': size and width unchanged', a.same(st))


def eq_ctx(c):
    a, b = src(c, 'a'), src(c, 'b')
    nw = z3.LShR(a.size + 63, 6)

    def inv(Lc):
        i = Lc.v('i')
        A, D = a.A(), b.A()
        return [('words before i agree', Quant(('a_data', 'b_data'), lambda k: z3.Implies(L(k, i), A[k] == D[k]))),
                ('positions', z3.And(idx(Lc.raw('data1')) == i, idx(Lc.raw('data2')) == i, L(i, nw)))]
    c.e.loopspecs = [LoopSpec(r'int_vector<.*>::operator==\(', 0, inv, variant=lambda Lc: nw - Lc.v('i'))]
    return a, b


def t_eq(c, f):
    ne = f == 'v_ne'
    a, b = eq_ctx(c)
    same = prefix(a.A(), b.A(), a.size)
    for st, r in c.call(f, [a.p, b.p]):
        t, fl = st.copy(), st
        t.assume(z3.Not(Bo(r)) if ne else Bo(r))
        c.reach(t, f + ' equal')
        c.ensures(t, f + ': equal implies same size and width', z3.And(a.size == b.size, a.w8 == b.w8))
        t.assume(a.size == b.size)
        c.ensures(t, f + ': equal implies that all bits agree', Quant(('a_data', 'b_data'), same))
        t = st.copy()
        t.assume(z3.And(a.size == b.size, a.w8 == b.w8))
        t.facts.append(Quant(('a_data', 'b_data'), same))
        t.use('a_data', z3.LShR(a.size, 6))
        t.use('a_data', z3.LShR(a.size, 6) - 1)
        c.ensures(t, f + ': vectors with the same size, width and bits are equal', z3.Not(Bo(r)) if ne else Bo(r))


def bpos(c, st, v, it):
    q = c.ld(st, it, 8, 8)
    if not ptr_is(q, v.data):
        raise Undecided('iterator left its vector')
    return idx(q), z64(B(c.ld(st, it, 0, 1), 8))


def at_pos(x, p):
    return z3.And((x[0] << 6) + x[1] == p, L(x[0], 1 << 53), L(x[1], 64))


def t_ord(c, f):
    """P: first index where the vectors differ (any index such that all elements below agree)"""
    a, b = IV(c, 'a', ro=True), IV(c, 'b', ro=True)
    P = c.bv('P')
    mn = z3.If(L(a.n, b.n), a.n, b.n)
    # the elements are read-only: FIELD_x(p) names field(x, p, width of x)
    for v in (a, b):
        NAMED[v.name + '_data'] = F = z3.Function('FIELD_' + v.name, z3.BitVecSort(64), z3.BitVecSort(64))
        v.at = lambda i, st=None, A=None, v=v, F=F: F(v.bitpos(i))

    def eqat(k):
        return z3.Implies(L(k, P), a.at(k) == b.at(k))
    c.st.facts.append(Quant('elem', eqat))
    dif = a.at(P) != b.at(P)
    c.assume(U(P, mn), z3.Implies(L(P, mn), dif), th.udiv_mul(a.n, a.w), th.udiv_mul(b.n, b.w))
    for v in (a, b):
        c.assume(th.mul_mono(P, v.n, v.w), th.mul_mono(mn, v.n, v.w), th.mul_bound(mn, v.w), th.mul_mono(P, mn, v.w))
    for t in (mn, P):
        c.assume(th.mul_bound(t, a.w))

    def inv(Lc):
        it, itv = Lc.local('it'), Lc.local('it_v')
        p, pv = bpos(c, Lc.st, a, it), bpos(c, Lc.st, b, itv)
        pe = bpos(c, Lc.st, a, Lc.local('end'))
        k = th.UDV((p[0] << 6) + p[1], a.w)
        Lc.st.use('elem', k)
        lem = [th.mul_step(k, v.w) for v in (a, b)] + [th.mul_mono(k, v.n, v.w) for v in (a, b)] + [th.udiv_mul(k, a.w), th.udiv_mul(k + 1, a.w), th.udiv_mul(Z(0), a.w)]
        lem += [th.mul_mono(k, mn, a.w), th.mul_mono(mn, k, a.w), th.mul_mono(Z(0), mn, a.w), th.mul_bound(k, a.w)]
        lem += [th.pos_split(*p), th.pos_split(*pv), th.pos_split(*pe)]
        for l in lem:
            Lc.st.assume(l)
        # the end iterator is not changed by the loop, and both iterators are at element k
        return [('k in range', z3.And(U(k, P), U(k, mn))), ('iterator at element k', at_pos(p, a.bitpos(k))), ('second iterator at element k', at_pos(pv, b.bitpos(k))),
                ('end at the common length', at_pos(pe, a.bitpos(mn))),
                ('offsets', z3.And(L(z64(B(Lc.field(it, 0, 1), 8)), 64), L(z64(B(Lc.field(itv, 0, 1), 8)), 64),
                                   B(Lc.field(it, 1, 1), 8) == a.w8, B(Lc.field(itv, 1, 1), 8) == b.w8))]
    c.assume(th.MUL(Z(0), a.w) == 0, th.MUL(Z(0), b.w) == 0)
    c.e.loopspecs = [LoopSpec(r'int_vector<.*>::operator[<>]\(', 0, inv)]
    lt = z3.If(L(P, mn), L(a.at(P), b.at(P)), L(a.n, b.n))
    gt = z3.If(L(P, mn), L(b.at(P), a.at(P)), L(b.n, a.n))
    for st, r in c.call(f, [a.p, b.p]):
        c.reach(st, f)
        c.ensures(st, {'v_lt': 'lexicographically smaller', 'v_gt': 'lexicographically larger'}[f], Bo(r) == (lt if f == 'v_lt' else gt))


def t_leq(c, f):
    """<= and >= over the contracts of ==, < and >"""
    a, b = src(c, 'a'), src(c, 'b')
    E_, LT, GT = z3.Bools('EQ LT GT')
    # contracts replace the bodies
    c.e.contracts = [MemContract('int_vector::operator==', r'int_vector<.*>::operator==\(', lambda e, st, ar: [(st, swapd(ar, E_, E_))]),
                     MemContract('int_vector::operator<', r'int_vector<.*>::operator<\(', lambda e, st, ar: [(st, swapd(ar, LT, GT))]),
                     MemContract('int_vector::operator>', r'int_vector<.*>::operator>\(', lambda e, st, ar: [(st, swapd(ar, GT, LT))])]

    def swapd(ar, x, y):
        if ar[0].r == a.p.r and ar[1].r == b.p.r:
            return x
        if ar[0].r == b.p.r and ar[1].r == a.p.r:
            return y
        raise Undecided('comparison of other objects')
    for st, r in c.call(f, [a.p, b.p]):
        c.reach(st, f)
        # exactly one of the three holds for vectors of equal width
        st.assume(z3.Or(z3.And(E_, z3.Not(LT), z3.Not(GT)), z3.And(z3.Not(E_), LT != GT)))
        c.ensures(st, f, Bo(r) == (z3.Or(E_, LT) if f == 'v_le' else z3.Or(E_, GT)))


def tasks(tier):
    r = []
    for f in ('v_bits', 'v_resize', 'b_resize', 'v8_resize', 'v64_resize'):
        r += [(f, t_resize, (f,), ''), (f + '-null', t_resize, (f + '0',), '')]
    r += [(f, t_copy, (f,), '') for f in ('v_copy', 'v_asg', 'b_copy', 'b_asg')]
    r += [(f, t_move, (f,), '') for f in ('v_move', 'v_masg', 'v_swap')]
    r += [(f, t_setbits, (f,), '') for f in ('v_zero', 'v_one')]
    r += [(f, t_words, (f,), '') for f in ('b_flip', 'v_and', 'v_or', 'v_xor')]
    r += [(f, t_eq, (f,), '') for f in ('v_eq', 'v_ne')] + [(f, t_ord, (f,), '') for f in ('v_lt', 'v_gt')] + [(f, t_leq, (f,), '') for f in ('v_le', 'v_ge')]
    r += [('fill-w%d' % w, t_fill, ('v_set', w), '') for w in WID]
    r += [('fill-w%d-%s' % (w, s), t_fill, ('v_set', w, s), '') for w in (1, 5, 8, 64) for s in (0, 'ones')]
    r += [('ctor-w%d' % w, t_fill, ('v_ctor', w), '') for w in (1, 7, 24, 64)] + [('ctor-w7-%s' % s, t_fill, ('v_ctor', 7, s), '') for s in (0, 'ones')]
    r += [('b_ctor', t_fill, ('b_ctor', 1, 'ones'), ''), ('b_ctor0', t_fill, ('b_ctor', 1, 0), ''), ('v8_ctor', t_fill, ('v8_ctor', 8), ''), ('v64_ctor', t_fill, ('v64_ctor', 64), '')]
    return r


NULL = Ptr(None)
EXT = {'fns': [(r'memory_monitor::record\(', lambda e, st, a: [(st, None)])],
       'globals': [(r'the_managerEvE1m', lambda e, st, name, t: Obj('manager', 8, {0: (1, 0)}))]}


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=RW + [HI, LO] + (ITERS if name in ('v_lt', 'v_gt') else []), mul_uf='width', externs=EXT)
