"""P03: element access of int_vector for every width: references, get_int/set_int, iterators."""
from .common import *
from engine import theory as th

TITLE = 'int_vector elements'

BV, Z1 = z3.BitVecSort(64), z3.BitVecVal(1, 64)
FIX = (1, 3, 13, 33, 63)
PRE = '''
#include <sdsl/int_vector.hpp>
using namespace sdsl;
typedef int_vector<0> V; typedef V::iterator I; typedef V::const_iterator C;
extern "C" {
uint64_t g_get(const V& v, uint64_t i){ return v[i]; }
uint64_t g_ref(V& v, uint64_t i){ return v[i]; }
void g_set(V& v, uint64_t i, uint64_t x){ v[i]=x; }
void g_inc(V& v, uint64_t i){ ++v[i]; }
uint64_t g_incp(V& v, uint64_t i){ return v[i]++; }
void g_dec(V& v, uint64_t i){ --v[i]; }
uint64_t g_decp(V& v, uint64_t i){ return v[i]--; }
void g_add(V& v, uint64_t i, uint64_t x){ v[i]+=x; }
void g_sub(V& v, uint64_t i, uint64_t x){ v[i]-=x; }
void g_asg(V& v, uint64_t i, uint64_t j){ v[i]=v[j]; }
void g_swap(V& v, uint64_t i, uint64_t j){ swap(v[i],v[j]); }
void g_swap1(V& v, uint64_t i, uint64_t& x){ swap(v[i],x); }
void g_swap2(V& v, uint64_t i, uint64_t& x){ swap(x,v[i]); }
bool g_eq(V& v, uint64_t i, uint64_t j){ return v[i]==v[j]; }
bool g_lt(V& v, uint64_t i, uint64_t j){ return v[i]<v[j]; }
uint64_t g_gi(const V& v, uint64_t p, uint8_t l){ return v.get_int(p,l); }
void g_si(V& v, uint64_t p, uint64_t x, uint8_t l){ v.set_int(p,x,l); }
uint64_t g_size(const V& v){ return v.size(); }
uint64_t g_bits(const V& v){ return v.bit_size(); }
uint64_t g_cap(const V& v){ return v.capacity(); }
bool g_empty(const V& v){ return v.empty(); }
uint8_t g_width(const V& v){ return v.width(); }
void g_wset(V& v, uint8_t w){ v.width(w); }
void g_begin(V& v, I* r){ *r=v.begin(); }
void g_end(V& v, I* r){ *r=v.end(); }
void c_begin(const V& v, C* r){ *r=v.begin(); }
void c_end(const V& v, C* r){ *r=v.end(); }
'''
IT = '''
uint64_t @_get(T& i){ return *i; }
uint64_t @_idx(T& i, int64_t d){ return i[d]; }
void @_inc(T& i){ ++i; }
void @_dec(T& i){ --i; }
void @_incp(T& i, T* r){ *r=i++; }
void @_decp(T& i, T* r){ *r=i--; }
void @_adv(T& i, int64_t d){ i+=d; }
void @_ret(T& i, int64_t d){ i-=d; }
void @_plus(const T& i, int64_t d, T* r){ *r=i+d; }
void @_plusl(const T& i, int64_t d, T* r){ *r=d+i; }
void @_minus(const T& i, int64_t d, T* r){ *r=i-d; }
int64_t @_diff(T& a, T& b){ return a-b; }
bool @_eq(const T& a, const T& b){ return a==b; }
bool @_ne(const T& a, const T& b){ return a!=b; }
bool @_lt(const T& a, const T& b){ return a<b; }
bool @_gt(const T& a, const T& b){ return a>b; }
bool @_le(const T& a, const T& b){ return a<=b; }
bool @_ge(const T& a, const T& b){ return a>=b; }
'''
UNIT = PRE + ''.join(IT.replace('@', n).replace('T&', t + '&').replace('T*', t + '*') for n, t in (('i', 'I'), ('c', 'C'))) + '''
void i_setv(I& i, uint64_t x){ *i=x; }
void i_conv(const I& i, C* r){ *r=C(i); }
''' + ''.join('''
typedef int_vector<%(w)d> V%(w)d;
uint64_t f%(w)d_get(const V%(w)d& v, uint64_t i){ return v[i]; }
uint64_t f%(w)d_ref(V%(w)d& v, uint64_t i){ return v[i]; }
void f%(w)d_set(V%(w)d& v, uint64_t i, uint64_t x){ v[i]=x; }
uint64_t f%(w)d_size(const V%(w)d& v){ return v.size(); }
uint64_t f%(w)d_it(const V%(w)d& v, uint64_t i){ return *(v.begin()+i); }
void f%(w)d_its(V%(w)d& v, uint64_t i, uint64_t x){ *(v.begin()+i)=x; }
int64_t f%(w)d_len(const V%(w)d& v){ return v.end()-v.begin(); }
void f%(w)d_asg(V%(w)d& v, uint64_t i, uint64_t j){ v[i]=v[j]; }
void f%(w)d_swap(V%(w)d& v, uint64_t i, uint64_t j){ using std::swap; swap(v[i],v[j]); }
bool f%(w)d_eq(V%(w)d& v, uint64_t i, uint64_t j){ return v[i]==v[j]; }
bool f%(w)d_lt(V%(w)d& v, uint64_t i, uint64_t j){ return v[i]<v[j]; }
''' % dict(w=w) for w in FIX + (8, 16, 32, 64)) + '''
void b_swap1(bit_vector& v, uint64_t i, bool& x){ swap(v[i],x); }
void b_swap2(bit_vector& v, uint64_t i, bool& x){ swap(x,v[i]); }
}
'''
LIBS = ['bits.cpp']
DRIVER_LIBS = ['bits.cpp', 'util.cpp', 'memory_management.cpp', 'ram_fs.cpp', 'ram_filebuf.cpp', 'structure_tree.cpp', 'sfstream.cpp', 'io.cpp', 'config.cpp']
ASSUMPTIONS = ['vectors hold at most 2^52 elements', 'fixed-width instantiations checked: 1,3,8,13,16,32,33,63,64 and the run-time width vector for all widths 1..64']


def vec(c, ro=False, width=None):
    v = IV(c, 'v', ro=ro, width=width)
    i = c.bv('i')
    c.assume(L(i, v.n), v.inb(i))
    return v, i


def upd(c, v, st, i, x, what):
    """post: element i is x (mod 2^w), every other bit of the vector is unchanged"""
    A, A2 = v.A(), v.A(st)
    c.ensures(st, what + ': stores the element and changes no other bit', Quant('v_data', write_spec(A, A2, v.bitpos(i), v.w, x)))
    c.ensures(st, what + ': size and width unchanged', v.same(st))


def t_read(c, pre, width=None):
    v, i = vec(c, ro=True, width=width)
    for f in ('get', 'ref'):
        for st, r in c.call(pre + f, [v.p, i]):
            c.reach(st, f)
            c.ensures(st, '[] returns element i', B(r, 64) == v.at(i))


def t_set(c, pre, width=None):
    v, i = vec(c, width=width)
    x = c.bv('x')
    xs = z3.If(x != 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if width == 1 else x
    for st, r in c.call(pre + 'set', [v.p, i, x]):
        c.reach(st, 'set')
        upd(c, v, st, i, xs, '[]=')


def t_rmw(c, op):
    v, i = vec(c)
    x = c.bv('x')
    a = v.at(i)
    args = [v.p, i] + ([x] if op in ('add', 'sub') else [])
    new = {'inc': a + 1, 'incp': a + 1, 'dec': a - 1, 'decp': a - 1, 'add': a + x, 'sub': a - x}[op]
    for st, r in c.call('g_' + op, args):
        c.reach(st, op)
        upd(c, v, st, i, new, op)
        if op.endswith('p'):
            c.ensures(st, op + ' returns the old value', B(r, 64) == a)


def t_two(c, op, pre='g_', width=None):
    v, i = vec(c, width=width)
    j = c.bv('j')
    c.assume(L(j, v.n), v.inb(j), v.inb(j, i), v.inb(i, j))
    a, b = v.at(i), v.at(j)
    for st, r in c.call(pre + op, [v.p, i, j]):
        c.reach(st, op)
        if op == 'asg':
            upd(c, v, st, i, b, 'assignment between references')
        elif op == 'swap':
            want, A2 = wterm(wterm(v.A(), v.bitpos(i), v.w, b), v.bitpos(j), v.w, a), v.A(st)
            c.ensures(st, 'swap writes v[j] to element i, then the old v[i] to element j, and changes no other bit',
                      Quant('v_data', lambda k: A2[k] == want[k]))
            c.ensures(st, 'swap keeps size and width', v.same(st))
        elif op == 'eq':
            c.ensures(st, 'reference ==', Bo(r) == (a == b))
        else:
            c.ensures(st, 'reference <', Bo(r) == L(a, b))


def t_swapv(c):
    for f in ('g_swap1', 'g_swap2'):
        v, i = vec(c)
        x = c.bv('x')
        q = c.obj('x', 8, {0: (8, x)})
        for st, r in c.call(f, [v.p, i, q] if f[-1] == '1' else [v.p, i, q]):
            c.reach(st, f)
            upd(c, v, st, i, x, 'swap with a value')
            c.ensures(st, 'swap with a value: value gets the element', B(c.ld(st, q, 0, 8), 64) == v.at(i))


def t_bswap(c):
    for f in ('b_swap1', 'b_swap2'):
        v, i = vec(c, width=1)
        x = c.bv('x', 8)
        c.assume(U(x, 1))
        q = c.obj('x', 1, {0: (1, x)})
        for st, r in c.call(f, [v.p, i, q]):
            c.reach(st, f)
            upd(c, v, st, i, wd(x), 'swap with a bool')
            c.ensures(st, 'swap with a bool: bool gets the bit', z64(B(c.ld(st, q, 0, 1), 8)) == v.at(i))


def t_getint(c):
    v = IV(c, 'v', size=c.bv('bits'))
    c.assume(U(v.size, 1 << 58))
    p, l, x = c.bv('p'), c.bv('len', 8), c.bv('x')
    c.assume(U(z3.BitVecVal(1, 8), l), U(l, 64), U(p, v.size), U(z64(l), v.size - p))
    for st, r in c.call('g_gi', [v.p, p, l]):
        c.reach(st, 'get_int')
        c.ensures(st, 'get_int returns the field', B(r, 64) == field(v.A(), p, z64(l)))
    for st, r in c.call('g_si', [v.p, p, x, l]):
        c.reach(st, 'set_int')
        c.ensures(st, 'set_int stores the field and changes no other bit', Quant('v_data', write_spec(v.A(), v.A(st), p, z64(l), x)))
        c.ensures(st, 'set_int keeps size and width', v.same(st))


def t_meta(c):
    v = IV(c, 'v', ro=True)
    c.assume(th.udiv_mul(v.n, v.w))
    for f, want in (('size', v.n), ('bits', v.size), ('cap', (z3.LShR(v.size + 63, 6)) << 6), ('empty', v.size == 0), ('width', v.w8)):
        for st, r in c.call('g_' + f, [v.p]):
            c.reach(st, f)
            c.ensures(st, f + '()', (Bo(r) == want) if z3.is_bool(want) else B(r, want.size()) == want)
    v = IV(c, 'u')
    w = c.bv('w', 8)
    for st, r in c.call('g_wset', [v.p, w]):
        c.ensures(st, 'width(w) sets the width, 64 for w outside 1..64',
                  B(c.ld(st, v.p, 16, 1), 8) == z3.If(z3.And(U(z3.BitVecVal(1, 8), w), U(w, 64)), w, z3.BitVecVal(64, 8)))
        c.ensures(st, 'width(w) keeps the bits', z3.And(B(c.ld(st, v.p, 0, 8), 64) == v.size, z3.BoolVal(ptr_is(c.ld(st, v.p, 8, 8), v.data, 0))))


# ---- iterators: position in bits = 64*(m_word - m_data) + m_offset
def iter_at(c, v, i, name):
    p = v.bitpos(i)
    return c.obj(name, 16, {0: (1, z3.Extract(7, 0, p & 63)), 1: (1, v.w8), 8: (8, v.data.add(Lin(0, ((8, z3.LShR(p, 6)),))))})


def is_at(c, v, st, it, p):
    """iterator object `it` denotes bit position p of v"""
    q = c.ld(st, it, 8, 8)
    if not ptr_is(q, v.data):
        return z3.BoolVal(False)
    d = q.o.div(8)
    if d is None:
        raise Undecided('iterator not on a word')
    o = z64(B(c.ld(st, it, 0, 1), 8))
    return z3.And(L(o, 64), B(d, 64) == z3.LShR(p, 6), o == p & 63, B(c.ld(st, it, 1, 1), 8) == v.w8)


def t_iget(c, k):
    v, i = vec(c, ro=True)
    it = iter_at(c, v, i, 'it')
    for st, r in c.call(k + '_get', [it]):
        c.reach(st, '*it')
        c.ensures(st, '*it is the element', B(r, 64) == v.at(i))


def t_iset(c):
    v, i = vec(c)
    it = iter_at(c, v, i, 'it')
    x = c.bv('x')
    for st, r in c.call('i_setv', [it, x]):
        c.reach(st, '*it=')
        upd(c, v, st, i, x, '*it=')


def t_iends(c):
    v = IV(c, 'v', ro=True)
    c.assume(th.udiv_mul(v.n, v.w))
    for k in 'gc':
        for f, p in (('begin', z3.BitVecVal(0, 64)), ('end', v.size)):
            r = c.obj('res', 16)
            for st, _ in c.call('%s_%s' % (k, f), [v.p, r]):
                c.reach(st, f)
                c.ensures(st, f + '() position', is_at(c, v, st, r, p))


def t_istep(c, k):
    v = IV(c, 'v', ro=True)
    i = c.bv('i')
    c.assume(U(i, v.n), v.inb(i), th.mul_step(i, v.w), th.mul_step(i - 1, v.w), th.mul_bound(i, v.w), th.mul_bound(i - 1, v.w))
    p = v.bitpos(i)
    for f in ('inc', 'incp', 'dec', 'decp'):
        inc = f.startswith('inc')
        st0 = c.st.copy()
        st0.assume(L(i, v.n) if inc else i != 0)
        it = iter_at(c, v, i, 'it')
        st0.mem[it.r] = c.st.mem[it.r]
        res = c.obj('res', 16)
        st0.mem[res.r] = c.st.mem[res.r]
        for st, _ in c.call('%s_%s' % (k, f), [it, res] if f.endswith('p') else [it], st0):
            c.reach(st, f)
            c.ensures(st, f + ' moves by one element', is_at(c, v, st, it, v.bitpos(i + 1 if inc else i - 1)))
            if f.endswith('p'):
                c.ensures(st, f + ' returns the old position', is_at(c, v, st, res, p))


def t_iadv(c, k, f):
    v = IV(c, 'v', ro=True)
    i, d = c.bv('i'), c.bv('d')
    t = (i + d) if f in ('adv', 'plus', 'plusl', 'idx') else (i - d)
    dd = d if t.decl().kind() == z3.Z3_OP_BADD else -d
    c.assume(U(i, v.n), U(t, v.n), v.inb(i), v.inb(t), th.mul_dist(i, dd, v.w), th.mul_neg(d, v.w), th.mul_bound(i, v.w), th.mul_bound(t, v.w),
             th.mul_neg(-d, v.w), th.mul_bound(d, v.w), th.mul_bound(-d, v.w), t == i + dd, v.bitpos(t) == v.bitpos(i + dd))
    if f == 'idx':
        c.assume(L(t, v.n))
    it = iter_at(c, v, i, 'it')
    res = c.obj('res', 16)
    args = [it, d] + ([res] if f in ('plus', 'plusl', 'minus') else [])
    for st, r in c.call('%s_%s' % (k, f), args):
        c.reach(st, f)
        if f == 'idx':
            c.ensures(st, 'it[d]', B(r, 64) == v.at(t))
        else:
            c.ensures(st, f + ' moves by d elements', is_at(c, v, st, res if len(args) > 2 else it, v.bitpos(t)))


def t_icmp(c, k):
    v = IV(c, 'v', ro=True)
    i, j = c.bv('i'), c.bv('j')
    c.assume(U(i, v.n), U(j, v.n), v.inb(i), v.inb(j), v.inb(i, j), v.inb(j, i), th.mul_bound(i, v.w), th.mul_bound(j, v.w))
    a, b = iter_at(c, v, i, 'a'), iter_at(c, v, j, 'b')
    for f, g in (('eq', i == j), ('ne', i != j), ('lt', L(i, j)), ('gt', L(j, i)), ('le', U(i, j)), ('ge', U(j, i))):
        for st, r in c.call('%s_%s' % (k, f), [a, b]):
            c.reach(st, f)
            c.ensures(st, 'iterator ' + f, Bo(r) == g)


def t_idiff(c, k):
    v = IV(c, 'v', ro=True)
    i, j = c.bv('i'), c.bv('j')
    c.assume(U(i, v.n), U(j, v.n), v.inb(i), v.inb(j), th.mul_bound(i, v.w), th.mul_bound(j, v.w),
             th.mul_dist(i - j, j, v.w), th.sdiv_mul(i - j, v.w), v.bitpos(i) == v.bitpos((i - j) + j))
    a, b = iter_at(c, v, i, 'a'), iter_at(c, v, j, 'b')
    for st, r in c.call(k + '_diff', [a, b]):
        c.reach(st, 'difference')
        c.ensures(st, 'iterator difference', B(r, 64) == i - j)


def t_iconv(c):
    v, i = vec(c, ro=True)
    it, res = iter_at(c, v, i, 'it'), c.obj('res', 16)
    for st, r in c.call('i_conv', [it, res]):
        c.ensures(st, 'const_iterator(iterator) keeps the position', is_at(c, v, st, res, v.bitpos(i)))


def t_fix(c, w, f):
    pre = 'f%d_' % w
    if f == 'read':
        return t_read(c, pre, w)
    if f == 'set':
        return t_set(c, pre, w)
    if f in ('asg', 'eq', 'lt', 'swap'):
        return t_two(c, f, pre, w)
    v = IV(c, 'v', width=w, ro=f != 'its')
    if f == 'len':
        c.assume(th.udiv_mul(v.n, v.w), th.sdiv_mul(v.n, v.w))
        for g in ('size', 'len'):
            for st, r in c.call(pre + g, [v.p]):
                c.reach(st, g)
                c.ensures(st, g, B(r, 64) == v.n)
        return
    i, x = c.bv('i'), c.bv('x')
    c.assume(L(i, v.n), v.inb(i), th.mul_bound(i, v.w), th.udiv_mul(v.n, v.w))
    if f == 'it':
        for st, r in c.call(pre + f, [v.p, i]):
            c.reach(st, f)
            c.ensures(st, '*(begin()+i)', B(r, 64) == v.at(i))
    else:
        xs = z3.If(x != 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if w == 1 else x
        for st, r in c.call(pre + f, [v.p, i, x]):
            c.reach(st, f)
            upd(c, v, st, i, xs, '*(begin()+i)=')


def t_lemma(c):
    """a field write, as specified, changes the element and no other element (pure specification)"""
    A, A2 = z3.Array('A', BV, BV), z3.Array('A2', BV, BV)
    p, q, w, x = c.bv('p'), c.bv('q'), c.bv('w'), c.bv('x')
    f = write_spec(A, A2, p, w, x)
    c.assume(U(Z1, w), U(w, 64), L(p, 1 << 60), L(q, 1 << 60))
    for t in (p, q):
        c.assume(f(z3.LShR(t, 6)), f(z3.LShR(t, 6) + 1))
    c.ensures(c.st, 'a written field reads back', field(A2, p, w) == x & lo(w))
    s2 = c.st.copy()
    s2.assume(U(q + w, p))
    c.ensures(s2, 'fields below a written field are unchanged', field(A2, q, w) == field(A, q, w))
    s3 = c.st.copy()
    s3.assume(U(p + w, q))
    c.ensures(s3, 'fields above a written field are unchanged', field(A2, q, w) == field(A, q, w))
    W, k = wterm(A, p, w, x), c.bv('k')
    c.ensures(c.st, 'both forms of the specification of a write agree', z3.Implies(A2[k] == W[k], f(k)), [])


# 8, 16, 32 bits: the same memory is read through a narrower pointer
def tasks(tier):
    r = [('write-spec', t_lemma, (), ''), ('read', t_read, ('g_',), ''), ('set', t_set, ('g_',), ''), ('swapv', t_swapv, (), ''), ('bswap', t_bswap, (), ''),
         ('get_int', t_getint, (), ''), ('meta', t_meta, (), ''), ('iset', t_iset, (), ''), ('iends', t_iends, (), ''), ('iconv', t_iconv, (), '')]
    r += [(o, t_rmw, (o,), '') for o in ('inc', 'incp', 'dec', 'decp', 'add', 'sub')]
    r += [(o, t_two, (o,), '') for o in ('asg', 'swap', 'eq', 'lt')]
    for k in 'ic':
        r += [(k + 'get', t_iget, (k,), ''), (k + 'step', t_istep, (k,), ''), (k + 'cmp', t_icmp, (k,), ''), (k + 'diff', t_idiff, (k,), '')]
        r += [(k + f, t_iadv, (k, f), '') for f in ('adv', 'ret', 'plus', 'plusl', 'minus', 'idx')]
    for w in FIX + (8, 16, 32, 64):
        r += [('w%d-%s' % (w, f), t_fix, (w, f), '') for f in ('read', 'set', 'len', 'it', 'its', 'asg', 'swap', 'eq', 'lt')]
    return r


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=RW + [HI, LO], mul_uf='width')
