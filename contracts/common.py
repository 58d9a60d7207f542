"""Specifications shared by the contract modules: constant tables, scalar contracts of sdsl::bits,
layouts of the basic classes."""
import z3
from engine.task import *
from engine.exec import Raw, FamObj
from engine.vals import *
from engine import theory
from engine.theory import POP, b64, bit, lo, pre, popdef

U, L = z3.ULE, z3.ULT


def sel8(j, b):
    n = 0
    for k in range(8):
        if b >> k & 1:
            if n == j:
                return k
            n += 1
    return 0


def sel8_term(st, i):
    """entry 256*j + b of lt_sel"""
    by = z3.Extract(7, 0, i)
    j = z3.Extract(10, 8, i)
    r = z3.BitVecVal(0, 8)
    pre_ = []
    c = z3.BitVecVal(0, 4)
    for k in range(8):
        pre_.append(c)
        c = c + z3.ZeroExt(3, z3.Extract(k, k, by))
    j4 = z3.ZeroExt(1, j)
    for k in range(7, -1, -1):
        r = z3.If(z3.And(z3.Extract(k, k, by) == 1, pre_[k] == j4), z3.BitVecVal(k, 8), r)
    return r


def cnt8_term(st, i):
    r = z3.BitVecVal(0, 8)
    for k in range(8):
        r = r + z3.ZeroExt(7, z3.Extract(k, k, i))
    return r


def lo_term(st, i):
    return (z3.BitVecVal(1, 64) << i) - 1


TABLES = [
    (r'4bits6lt_selE', lambda k: sel8(k >> 8, k & 255), sel8_term),
    (r'4bits6lt_cntE', lambda k: bin(k).count('1'), cnt8_term),
    (r'4bits6lo_setE', lambda k: (1 << k) - 1, lo_term),
    (r'4bits8lo_unsetE', lambda k: ((1 << 64) - (1 << k)) & M64, lambda st, i: ~lo_term(st, i)),
    (r'4bits11ps_overflowE', lambda k: 0x0101010101010101 * (128 - k) & M64,
     lambda st, i: (z3.BitVecVal(128, 64) - i) * z3.BitVecVal(0x0101010101010101, 64)),
]


# ---------------------------------------------------------------- contracts of sdsl::bits used by callers
def z64(x, w=64):
    if isinstance(x, int):
        return z3.BitVecVal(x, 64)
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def cnt_post(r, x):
    return [('counts the set bits', B(r, 64) == POP(B(x, 64)))]


def sel_pre(x, i):
    i = z64(i)
    return [('1 <= i <= cnt(x)', z3.And(i != 0, U(i, POP(B(x, 64)))))]


def sel_post(r, x, i):
    x, r, i = B(x, 64), z64(r), z64(i)
    return [('is a position', L(r, 64)), ('a set bit', bit(x, r) == 1), ('with i-1 set bits below', pre(x, r) == i - 1)]


def hi_post(r, x):
    x, r = B(x, 64), z64(r)
    return [('position', L(r, 64)), ('0 for x=0', z3.Implies(x == 0, r == 0)),
            ('highest set bit', z3.Implies(x != 0, z3.LShR(x, r) == 1))]


def lo_post(r, x):
    x, r = B(x, 64), z64(r)
    return [('position', L(r, 64)), ('0 for x=0', z3.Implies(x == 0, r == 0)),
            ('lowest set bit', z3.Implies(x != 0, x & (lo(r + 1)) == z3.BitVecVal(1, 64) << r))]


CNT = Contract('bits::cnt', r'^sdsl::bits::cnt\(unsigned long\)$', 64, None, cnt_post)
SEL = Contract('bits::sel', r'^sdsl::bits::sel\(unsigned long, unsigned int\)$', 32, sel_pre, sel_post)
HI = Contract('bits::hi', r'^sdsl::bits::hi\(unsigned long\)$', 32, None, hi_post)
LO = Contract('bits::lo', r'^sdsl::bits::lo\(unsigned long\)$', 32, None, lo_post)
BITS = [CNT, SEL, HI, LO]


# ---------------------------------------------------------------- int_vector representation
def wd(x, w=64):
    return z3.ZeroExt(w - x.size(), x) if x.size() < w else x


class IV:
    """int_vector object in a context: bit size `size`, data words A (length (size>>6)+1: one padding word).
    w: the element width as a 64-bit term or int; n elements"""

    def __init__(self, c, name, width=None, n=None, size=None, ro=False, st=None):
        self.c, self.name = c, name
        if width is None:
            self.w8 = c.bv(name + '_w', 8)
            self.w = z3.ZeroExt(56, self.w8)
            c.assume(U(z3.BitVecVal(1, 64), self.w), U(self.w, 64))
        else:
            self.w8 = z3.BitVecVal(width, 8)
            self.w = z3.BitVecVal(width, 64)
        self.n = None
        if size is None:
            self.n = n if n is not None else c.bv(name + '_n')
            c.assume(U(self.n, theory.NMAX), theory.mul_bound(self.n, self.w))
            size = self.bitpos(self.n)
        self.size = size
        self.words = z3.LShR(size, 6) + 1
        self.data = c.arr(name + '_data', self.words, ro=ro, st=st)
        w8 = norm(self.w8)
        self.p = c.obj(name, 32, {0: (8, size), 8: (8, self.data), 16: (1, w8)}, ro=ro, st=st)

    def bitpos(self, i):
        """first bit of element i"""
        wv = norm(self.w)
        if isinstance(wv, int) and wv & (wv - 1) == 0:
            return i << (wv.bit_length() - 1) if wv > 1 else i
        return theory.MUL(i, self.w)

    def inb(self, i, n=None):
        """lemma instance: element i lies inside"""
        wv = norm(self.w)
        if isinstance(wv, int) and wv & (wv - 1) == 0:
            return z3.BoolVal(True)
        return theory.mul_mono(i, self.n if n is None else n, self.w)

    def A(self, st=None):
        return self.c.A(st or self.c.st, self.data)

    def at(self, i, st=None, A=None):
        return field(self.A(st) if A is None else A, self.bitpos(i), self.w)

    def same(self, st):
        """size, data pointer and width are unchanged"""
        c = self.c
        q = c.ld(st, self.p, 8, 8)
        return z3.And(B(c.ld(st, self.p, 0, 8), 64) == self.size, z3.BoolVal(isinstance(q, Ptr) and q.r == self.data.r and q.o.const() and q.o.c == 0),
                      B(c.ld(st, self.p, 16, 1), 8) == self.w8)


def field(A, p, w):
    """the w bits at bit position p of the words A"""
    k, o = z3.LShR(p, 6), p & 63
    a = A[k]
    return (z3.LShR(a, o) | z3.If(z3.UGT(o + w, 64), A[k + 1] << (64 - o), z3.BitVecVal(0, 64))) & lo(w)


def write_spec(A, A2, p, w, x):
    """A2 = A with the w bits at p replaced by x (k-th word)"""
    k0, o = z3.LShR(p, 6), p & 63
    two = z3.UGT(o + w, 64)
    m, v = lo(w), x & lo(w)

    def f(k):
        return A2[k] == z3.If(k == k0, (A[k] & ~(m << o)) | (v << o),
                              z3.If(z3.And(two, k == k0 + 1), (A[k] & ~z3.LShR(m, 64 - o)) | z3.LShR(v, 64 - o), A[k]))
    return f


def wterm(A, p, w, x):
    """the words A after writing x to the w bits at p"""
    k, o = z3.LShR(p, 6), p & 63
    v = x & lo(w)
    a = z3.Store(A, k, (A[k] & ~(lo(w) << o)) | (v << o))
    b = z3.Store(a, k + 1, (A[k + 1] & ~z3.LShR(lo(w), 64 - o)) | z3.LShR(v, 64 - o))
    return z3.If(z3.UGT(o + w, 64), b, a)


def ptr_is(q, r, off=None):
    """q points into the region of r (byte offset off)"""
    return isinstance(q, Ptr) and q.r == r.r and (off is None or (q.o.const() and q.o.c == off))


# contracts of bits::read_int / bits::write_int (proved by P02), for pointers into arrays of words
def _word_access(e, st, p, o, l, what, write):
    if not isinstance(p, Ptr) or p.r is None:
        return None
    r = e.region(st, p)
    if isinstance(r, Raw):
        r = e.settle(st, p, 8)
    q = p.o.div(8)
    if not isinstance(r, Arr) or r.es != 8 or r.fam or q is None:
        return None
    if write and r.ro:
        return None
    o, l = z64(o if not isinstance(o, int) else z3.BitVecVal(o, 64)), z64(l if not isinstance(l, int) else z3.BitVecVal(l, 64))
    k = B(q, 64)
    g = z3.simplify(z3.And(L(o, 64), U(l, 64)))
    if not z3.is_true(g):
        e.oblige(st, 'precondition of bits::%s: offset below 64, len at most 64' % what, 'precondition', g)
        st.assume(g)
    two = z3.simplify(z3.UGT(o + l, 64))
    n = B(r.n, 64)
    e.safety_check(st, '%s: words of the field in bounds: %s' % (what, r.name), z3.simplify(z3.And(L(k, n), z3.Implies(two, L(k + 1, n)))))
    st.use(r.name, k)
    if not z3.is_false(two):
        st.use(r.name, z3.simplify(k + 1))
    return r, k, o, l, two


def _read_int(e, st, args):
    x = _word_access(e, st, args[0], args[1], args[2], 'read_int', False)
    if x is None:
        return None
    r, k, o, l, two = x
    return [(st, (z3.LShR(r.a[k], o) | z3.If(two, r.a[k + 1] << (64 - o), z3.BitVecVal(0, 64))) & lo(l))]


def _write_int(e, st, args):
    x = _word_access(e, st, args[0], args[2], args[3], 'write_int', True)
    if x is None:
        return None
    r, k, o, l, two = x
    v = B(args[1], 64) & lo(l)
    m = e.mut(st, args[0].r)
    e.wlog(args[0].r, None)
    a = r.a
    m.a = z3.Store(a, k, (a[k] & ~(lo(l) << o)) | (v << o))
    if not z3.is_false(two):
        hi = z3.Store(m.a, k + 1, (a[k + 1] & ~z3.LShR(lo(l), 64 - o)) | z3.LShR(v, 64 - o))
        m.a = hi if z3.is_true(two) else z3.If(two, hi, m.a)
    return [(st, None)]


READ_INT = MemContract('bits::read_int', r'^sdsl::bits::read_int\(unsigned long const\*, unsigned char, unsigned char\)$', _read_int)
WRITE_INT = MemContract('bits::write_int', r'^sdsl::bits::write_int\(unsigned long\*, unsigned long, unsigned char, unsigned char\)$', _write_int)
RW = [READ_INT, WRITE_INT]


# contracts of int_vector_const_iterator (proved by P03): the object is (m_offset u8 @0, m_len u8 @1, m_word @8)
def it_state(e, st, it):
    q = e.load_raw(st, it.addc(8), 8)
    if not isinstance(q, Ptr) or q.r is None:
        return None
    r = e.region(st, q)
    if isinstance(r, Raw):
        r = e.settle(st, q, 8)
    d = q.o.div(8)
    if not isinstance(r, Arr) or r.es != 8 or r.fam or d is None:
        return None
    o, l = z64(B(e.load_raw(st, it, 1), 8)), z64(B(e.load_raw(st, it.addc(1), 1), 8))
    return q, r, B(d, 64), o, l


def _it_deref(e, st, args):
    x = it_state(e, st, args[0])
    if x is None:
        return None
    q, r, d, o, l = x
    e.oblige(st, 'precondition of *iterator: offset below 64', 'precondition', L(o, 64))
    n = B(r.n, 64)
    two = z3.UGT(o + l, 64)
    e.safety_check(st, '*iterator in bounds: ' + r.name, z3.simplify(z3.And(L(d, n), z3.Implies(two, L(d + 1, n)))))
    st.use(r.name, d)
    st.use(r.name, z3.simplify(d + 1))
    if NAMED:
        return [(st, NAMED[r.name]((d << 6) + o))]
    return [(st, (z3.LShR(r.a[d], o) | z3.If(two, r.a[d + 1] << (64 - o), z3.BitVecVal(0, 64))) & lo(l))]


NAMED = {}      # region name -> function naming "the field of the vector's width at bit position p" of a read-only vector


def _it_inc(e, st, args):
    x = it_state(e, st, args[0])
    if x is None:
        return None
    q, r, d, o, l = x
    e.oblige(st, 'precondition of ++iterator: offset below 64, length 1..64', 'precondition', z3.And(L(o, 64), U(l, 64)))
    o2, d2 = fresh('off', 8), fresh('word', 64)
    st.assume(z3.And(L(o2, 64), d2 == d + z3.LShR(o + l, 6), z64(o2) == (o + l) & 63, (d2 << 6) + z64(o2) == (d << 6) + o + l))
    theory.pos_inc(d, o + l)
    e.store_raw(st, args[0], 1, o2)
    e.store_raw(st, args[0].addc(8), 8, Ptr(q.r, Lin(0, ((8, d2),))))
    return [(st, args[0])]


IT_DEREF = MemContract('const_iterator::operator*', r'^sdsl::int_vector_const_iterator<.*>::operator\*\(\) const$', _it_deref)
IT_INC = MemContract('const_iterator::operator++', r'^sdsl::int_vector_const_iterator<.*>::operator\+\+\(\)$', _it_inc)
ITERS = [IT_DEREF, IT_INC]


# ---------------------------------------------------------------- vectors that are only read, by their elements
# absvec(...) makes a vector object (or a family of them, `stride` bytes apart) whose representation is hidden: callers
# may only use size(), empty() and operator[] const, whose contracts (proved by P03) are phrased over elem / n.
def absvec(c, name, elem, n, stride=None, count=None, at=None):
    """elem(i) or elem(j, i): element terms; n or n(j): number of elements; at: register inside an existing object"""
    if at is None:
        p = c.e.new_obj(c.st, name, 32, {}, True) if stride is None else c.e.new_region(c.st, FamObj(name, stride, count, {}))
    else:
        p = at
    off = p.o.c if at is not None else None
    c.e.absvec = getattr(c.e, 'absvec', {})
    c.e.absvec[(p.r, off)] = (name, elem, n, stride, count)
    return p


def _absvec_of(e, st, p):
    t = getattr(e, 'absvec', {})
    if not isinstance(p, Ptr):
        return None
    if (p.r, None) in t:
        name, elem, n, stride, count = t[(p.r, None)]
        if stride is None:
            return name, elem, n
        j = p.o.div(stride)
        if j is None:
            raise Undecided('object inside ' + name)
        j = B(j, 64)
        e.safety_check(st, 'object %s[j] exists' % name, z3.simplify(L(j, B(count, 64))))
        return name, (lambda i: elem(j, i)), (n(j) if callable(n) else n)
    if p.o.const() and (p.r, p.o.c) in t:
        name, elem, n, stride, count = t[(p.r, p.o.c)]
        return name, elem, n
    return None


def _av_at(e, st, args):
    x = _absvec_of(e, st, args[0])
    if x is None:
        return None
    name, elem, n = x
    i = B(e.load_raw(st, args[1], 8) if isinstance(args[1], Ptr) else args[1], 64)
    e.safety_check(st, 'index of %s in bounds' % name, z3.simplify(L(i, B(n, 64))))
    st.use(name, i)
    return [(st, elem(i))]


def _av_ref(e, st, args):
    """reference to a read-only element: reads as its value"""
    r = _av_at(e, st, args)
    if r is None:
        return None
    v = r[0][1]
    p = e.new_arr(st, 'element', 8, z3.BitVecVal(2, 64), z3.Store(z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 64)), z3.BitVecVal(0, 64), v), ro=True)
    return [(st, (p, 64 << 8))]


def _av_size(e, st, args):
    x = _absvec_of(e, st, args[0])
    return None if x is None else [(st, B(x[2], 64))]


def _av_empty(e, st, args):
    x = _absvec_of(e, st, args[0])
    return None if x is None else [(st, B(x[2], 64) == 0)]


AV = [MemContract('int_vector::operator[] const', r'^sdsl::int_vector<.*>::operator\[\]\(unsigned long const&\) const$', _av_at),
      MemContract('int_vector::operator[]', r'^sdsl::int_vector<.*>::operator\[\]\(unsigned long const&\)$', _av_ref),
      MemContract('int_vector::size', r'^sdsl::int_vector<.*>::size\(\) const$', _av_size),
      MemContract('int_vector::empty', r'^sdsl::int_vector<.*>::empty\(\) const$', _av_empty)]


# ---------------------------------------------------------------- creating vectors: contracts proved by P04
def _bits_of(n, w):
    wv = norm(w)
    if isinstance(wv, int):
        return n << (wv.bit_length() - 1) if wv & (wv - 1) == 0 else theory.MUL(n, z3.BitVecVal(wv, 64))
    return theory.MUL(n, w)


def fresh_words(e, st, name, size, zero=True):
    """data words of a new vector of `size` bits; zero: the words of the vector are 0 (the padding word is arbitrary)"""
    p = e.new_arr(st, fresh_name(name), 8, z3.simplify(z3.LShR(size, 6) + 1))
    if zero:
        r = e.mut(st, p.r)
        k0 = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 64))
        r.a = z3.If(size & 63 == 0, z3.Store(k0, z3.LShR(size, 6), fresh('pad', 64)), k0)
    return p


def set_vec(e, st, obj, size, data, w8):
    e.store_raw(st, obj, 8, size)
    e.store_raw(st, obj.addc(8), 8, data)
    e.store_raw(st, obj.addc(16), 1, w8)


def _vctor(W):
    def f(e, st, args):
        n, x = B(args[1], 64), norm(B(args[2], 64))
        if not (isinstance(x, int) and x == 0):
            return None
        w = z64(args[3]) if W == 0 else z3.BitVecVal(W, 64)
        if W == 0 and isinstance(norm(z3.simplify(w)), int) and norm(z3.simplify(w)) == 0:
            w = z3.BitVecVal(64, 64)        # width 0 stands for 64
        e.oblige(st, 'precondition of int_vector(n,0,w): at most 2^52 elements, width 1..64', 'precondition', z3.And(U(n, 1 << 52), U(1, w), U(w, 64)))
        if W == 0 and not isinstance(norm(w), int):
            st.assume(theory.mul_bound(n, w))
        size = z3.simplify(_bits_of(n, w))
        set_vec(e, st, args[0], size, fresh_words(e, st, 'vec', size), norm(z3.Extract(7, 0, z3.simplify(w))))
        return [(st, None)]
    return MemContract('int_vector<%d>::int_vector(n,0,w)' % W, r'^sdsl::int_vector<\(unsigned char\)%d>::int_vector\(unsigned long, unsigned long, unsigned char\)$' % W, f)


def _resize(e, st, args):
    n = B(args[1], 64)
    w = z64(B(e.load_raw(st, args[0].addc(16), 1), 8))
    q = e.load_raw(st, args[0].addc(8), 8)
    wv = norm(z3.simplify(w))
    if not isinstance(wv, int):
        return None
    e.oblige(st, 'precondition of resize: at most 2^52 elements', 'precondition', U(n, 1 << 52))
    size = z3.simplify(_bits_of(n, z3.BitVecVal(wv, 64)))
    p = fresh_words(e, st, 'vec', size, False)
    if isinstance(q, Ptr) and q.r is not None:
        old = e.region(st, q)
        if not isinstance(old, Arr):
            return None
        na, oa, on = st.mem[p.r].a, old.a, B(old.n, 64)
        m = B(st.mem[p.r].n, 64) - 1
        st.facts.append(Quant((st.mem[p.r].name, old.name), lambda k: z3.Implies(z3.And(L(k, on - 1), L(k, m)), na[k] == oa[k])))
        e.mut(st, q.r).live = False
    set_vec(e, st, args[0], size, p, wv)
    return [(st, None)]


VCTORS = [_vctor(W) for W in (0, 1, 8, 16, 32, 64)]
VRESIZE = MemContract('int_vector::resize', r'^sdsl::int_vector<.*>::resize\(unsigned long\)$', _resize)
VNEW = VCTORS + [VRESIZE]


def local(c, name, n, f, width=64):
    """lemma over n words, proved once on fresh constants as an obligation of the task; returns the instantiation"""
    xs = [fresh('lv', width) for _ in range(n)]
    c.ensures(State(), 'lemma: ' + name, f(*xs))
    return lambda *a: f(*a)


def nth_var(Lc, name, k):
    """name of the k-th local variable called `name` of the function (clang numbers the ones in later scopes)"""
    import re
    l = sorted((x for x in Lc.fr.loc if re.match(name + r'\d*$', x)), key=lambda x: int(x[len(name):] or 0))
    return l[k]


ALL_LIBS = ['bits.cpp', 'util.cpp', 'memory_management.cpp', 'ram_fs.cpp', 'ram_filebuf.cpp', 'structure_tree.cpp', 'sfstream.cpp', 'io.cpp', 'config.cpp',
            'rrr_vector_15.cpp', 'uint128_t.cpp', 'uint256_t.cpp', 'bp_support_algorithm.cpp', 'coder_elias_delta.cpp', 'coder_elias_gamma.cpp', 'coder_fibonacci.cpp',
            'construct_config.cpp', 'construct_isa.cpp', 'construct_lcp.cpp', 'construct_lcp_helper.cpp', 'construct_sa.cpp', 'construct_sa_se.cpp', 'csa_alphabet_strategy.cpp',
            'lcp_support_tree.cpp', 'louds_tree.cpp', 'nn_dict_dynamic.cpp', 'sd_vector.cpp', 'wt_helper.cpp']
SORT = ('-ldivsufsort', '-ldivsufsort64')
