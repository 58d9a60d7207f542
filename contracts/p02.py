"""P02: packed bit-field reads and writes, bit-pointer moves, unary reads, next / prev."""
from .common import *

TITLE = 'packed bit fields'
UNIT = '''
#include <sdsl/bits.hpp>
using namespace sdsl;
extern "C" {
uint64_t w_read(const uint64_t* w, uint8_t o, uint8_t l){ return bits::read_int(w,o,l); }
void w_write(uint64_t* w, uint64_t x, uint8_t o, uint8_t l){ bits::write_int(w,x,o,l); }
uint64_t w_readm(const uint64_t*& w, uint8_t& o, uint8_t l){ return bits::read_int_and_move(w,o,l); }
void w_writem(uint64_t*& w, uint64_t x, uint8_t& o, uint8_t l){ bits::write_int_and_move(w,x,o,l); }
uint64_t w_readu(const uint64_t* w, uint8_t o){ return bits::read_unary(w,o); }
uint64_t w_readum(const uint64_t*& w, uint8_t& o){ return bits::read_unary_and_move(w,o); }
void w_right(const uint64_t*& w, uint8_t& o, uint8_t l){ bits::move_right(w,o,l); }
void w_left(const uint64_t*& w, uint8_t& o, uint8_t l){ bits::move_left(w,o,l); }
uint64_t w_next(const uint64_t* w, uint64_t i){ return bits::next(w,i); }
uint64_t w_prev(const uint64_t* w, uint64_t i){ return bits::prev(w,i); }
}
'''
LIBS = ['bits.cpp']
Z = z3.BitVecVal


def field_setup(c, lo_len=0):
    """a word array that holds exactly the words with bits of the field, in the middle of a larger memory"""
    o, l, k = c.bv('offset', 8), c.bv('len', 8), c.bv('k')
    c.assume(L(o, 64), U(l, 64), U(Z(lo_len, 8), l), L(k, 1 << 40))
    two = U(Z(65, 64), z64(o) + z64(l))
    n = k + z3.If(two, Z(2, 64), Z(1, 64))
    a = c.arr('word', n)
    return o, l, k, two, a, a.add(Lin(0, ((8, k),)))


def W(A, k, two):
    """the one or two words of the field as a 128-bit number"""
    return z3.Concat(z3.If(two, A[k + 1], Z(0, 64)), A[k])


def z128(x):
    return z3.ZeroExt(128 - x.size(), x)


def fld(w, o, l):
    return z3.Extract(63, 0, z3.LShR(w, z128(o))) & lo(z64(l))


def t_read(c):
    o, l, k, two, a, p = field_setup(c)
    A = c.A(c.st, a)
    for st, r in c.call('w_read', [p, o, l]):
        c.reach(st, 'read_int')
        c.ensures(st, 'read_int returns the field', B(r, 64) == fld(W(A, k, two), o, l))


def frame(A, A2, k, two):
    j = z3.BitVec(fresh_name('j'), 64)
    return z3.Implies(z3.And(j != k, z3.Not(z3.And(two, j == k + 1))), A2[j] == A[j])


def written(A, A2, k, two, o, l, x):
    m = z128(lo(z64(l))) << z128(o)
    want = (W(A, k, two) & ~m) | (z128(x & lo(z64(l))) << z128(o))
    return W(A2, k, two) == z3.If(two, want, z128(z3.Extract(63, 0, want)))


def t_write(c):
    o, l, k, two, a, p = field_setup(c)
    x = c.bv('x')
    A = c.A(c.st, a)
    for st, r in c.call('w_write', [p, x, o, l]):
        c.reach(st, 'write_int')
        A2 = c.A(st, a)
        c.ensures(st, 'write_int stores the field and keeps all other bits of its words', written(A, A2, k, two, o, l, x))
        c.ensures(st, 'write_int touches no other word', frame(A, A2, k, two))


def moved(c, st, wp, op, a, k, o, l):
    q = c.ld(st, wp, 0, 8)
    ok = isinstance(q, Ptr) and q.r == a.r and q.o.div(8) is not None
    if not ok:
        return False
    idx = B(q.o.div(8), 64)
    no = z64(B(c.ld(st, op, 0, 1), 8))
    return z3.And(L(no, 64), (idx << 6) + no == (k << 6) + z64(o) + l)


def mv_setup(c, a_p, o):
    return c.obj('wordptr', 8, {0: (8, a_p)}), c.obj('offset', 1, {0: (1, o)})


def t_readm(c):
    o, l, k, two, a, p = field_setup(c)
    A = c.A(c.st, a)
    wp, op = mv_setup(c, p, o)
    for st, r in c.call('w_readm', [wp, op, l]):
        c.reach(st, 'read_int_and_move')
        c.ensures(st, 'read_int_and_move returns the field', B(r, 64) == fld(W(A, k, two), o, l))
        c.ensures(st, 'read_int_and_move advances by len', moved(c, st, wp, op, a, k, o, z64(l)))


def t_writem(c):
    o, l, k, two, a, p = field_setup(c)
    x = c.bv('x')
    A = c.A(c.st, a)
    wp, op = mv_setup(c, p, o)
    for st, r in c.call('w_writem', [wp, x, op, l]):
        c.reach(st, 'write_int_and_move')
        A2 = c.A(st, a)
        c.ensures(st, 'write_int_and_move stores the field and keeps all other bits', written(A, A2, k, two, o, l, x))
        c.ensures(st, 'write_int_and_move touches no other word', frame(A, A2, k, two))
        c.ensures(st, 'write_int_and_move advances by len', moved(c, st, wp, op, a, k, o, z64(l)))


def t_move(c):
    o, l, k = c.bv('offset', 8), c.bv('len', 8), c.bv('k')
    c.assume(L(o, 64), U(l, 64), L(k, 1 << 40))
    a = c.arr('word', k + 4)
    wp, op = mv_setup(c, a.add(Lin(0, ((8, k),))), o)
    for st, r in c.call('w_right', [wp, op, l]):
        c.reach(st, 'move_right')
        c.ensures(st, 'move_right advances by len', moved(c, st, wp, op, a, k, o, z64(l)))
    for st, r in c.call('w_left', [wp, op, l]):
        c.reach(st, 'move_left')
        c.ensures(st, 'move_left goes back by len', moved(c, st, wp, op, a, k, o, -z64(l)))


def zeros(A, s, P, base):
    """bits s..P-1 of the words from `base` on are zero and bit P is one (k indexes words)"""
    s6, P6 = z3.LShR(s, 6), z3.LShR(P, 6)

    def f(k):
        w = A[k + base]
        return z3.And(z3.Implies(z3.And(U(s6, k), L(k, P6)), z3.If(k == s6, z3.LShR(w, s & 63) == 0, w == 0)),
                      z3.Implies(k == P6, z3.And(bit(w, P & 63) == 1,
                                                 w & lo(P & 63) & z3.If(k == s6, ~lo(s & 63), Z(M64, 64)) == 0)))
    return f


def unary_setup(c):
    o, P = c.bv('offset', 8), c.bv('P')
    c.assume(L(o, 64), U(z64(o), P), L(P, 1 << 45))
    a = c.arr('word', z3.LShR(P, 6) + 1)
    A = c.A(c.st, a)
    f = zeros(A, z64(o), P, Z(0, 64))
    c.st.facts.append(Quant('word', f))
    c.st.use('word', Z(0, 64))
    c.st.use('word', z3.LShR(P, 6))
    c.assume(f(z3.LShR(P, 6)))
    return o, P, a


def idx(p):
    q = p.o.div(8)
    if q is None:
        raise Undecided('pointer not on an element')
    return B(q, 64)


def t_readu(c):
    o, P, a = unary_setup(c)
    c.e.loopspecs = [LoopSpec(r'bits::read_unary\(', 0, lambda L_: [
        ('words read so far are zero', z3.And(idx(L_.raw('word')) == L_.v('cnt') - 1, U(L_.v('cnt'), z3.LShR(P, 6)), U(Z(2, 64), L_.v('cnt'))))],
        variant=lambda L_: z3.LShR(P, 6) - L_.v('cnt'))]
    for st, r in c.call('w_readu', [a, o]):
        c.reach(st, 'read_unary')
        c.ensures(st, 'read_unary returns the number of zeros before the next one', B(r, 64) == P - z64(o))


def t_readum(c):
    o, P, a = unary_setup(c)
    wp, op = mv_setup(c, a, o)
    # the move writes through the reference parameter, the loop therefore works on the caller's slot
    c.e.loopspecs = [LoopSpec(r'bits::read_unary_and_move\(', 0, lambda L_: [
        ('words read so far are zero', z3.And(idx(c.ld(L_.st, wp, 0, 8)) == L_.v('cnt_1'), L(L_.v('cnt_1'), z3.LShR(P, 6)), U(Z(1, 64), L_.v('cnt_1'))))],
        variant=lambda L_: z3.LShR(P, 6) - L_.v('cnt_1'))]
    for st, r in c.call('w_readum', [wp, op]):
        c.reach(st, 'read_unary_and_move')
        c.ensures(st, 'read_unary_and_move returns the number of zeros', B(r, 64) == P - z64(o))
        c.ensures(st, 'read_unary_and_move moves behind the one', moved(c, st, wp, op, a, Z(0, 64), o, P - z64(o) + 1))


def t_next(c):
    i, P = c.bv('idx'), c.bv('P')
    c.assume(U(i, P), L(P, 1 << 45))
    a = c.arr('word', z3.LShR(P, 6) + 1)
    A = c.A(c.st, a)
    f = zeros(A, i, P, Z(0, 64))
    c.st.facts.append(Quant('word', f))
    c.st.use('word', z3.LShR(P, 6))
    c.st.use('word', z3.LShR(i, 6))
    c.e.loopspecs = [LoopSpec(r'bits::next\(', 0, lambda L_: [
        ('words passed are zero', z3.And(idx(L_.raw('word')) == z3.LShR(L_.v('idx'), 6), L_.v('idx') & 63 == 0,
                                         L(z3.LShR(i, 6), z3.LShR(L_.v('idx'), 6)), U(z3.LShR(L_.v('idx'), 6), z3.LShR(P, 6))))],
        variant=lambda L_: P - (L_.v('idx') & ~Z(63, 64)) + 64)]
    for st, r in c.call('w_next', [a, i]):
        c.reach(st, 'next')
        c.ensures(st, 'next returns the first one at or after idx', B(r, 64) == P)


def t_prev(c):
    i, P = c.bv('idx'), c.bv('P')
    c.assume(U(P, i), L(i, 1 << 45))
    a = c.arr('word', z3.LShR(i, 6) + 1)
    A = c.A(c.st, a)
    i6, P6 = z3.LShR(i, 6), z3.LShR(P, 6)

    def f(k):
        w = A[k]
        return z3.And(z3.Implies(z3.And(U(k, i6), L(P6, k)), z3.If(k == i6, w & lo((i & 63) + 1) == 0, w == 0)),
                      z3.Implies(k == P6, z3.And(bit(w, P & 63) == 1,
                                                 w & ~lo((P & 63) + 1) & z3.If(k == i6, lo((i & 63) + 1), Z(M64, 64)) == 0)))
    c.st.facts.append(Quant('word', f))
    c.st.use('word', P6)
    c.st.use('word', i6)
    c.e.loopspecs = [LoopSpec(r'bits::prev\(', 0, lambda L_: [
        ('words passed are zero', z3.And(idx(L_.raw('word')) == z3.LShR(L_.v('idx'), 6), L_.v('idx') & 63 == 0,
                                         L(z3.LShR(L_.v('idx'), 6), i6), U(P6, z3.LShR(L_.v('idx'), 6))))],
        variant=lambda L_: z3.LShR(L_.v('idx'), 6))]
    for st, r in c.call('w_prev', [a, i]):
        c.reach(st, 'prev')
        c.ensures(st, 'prev returns the last one at or before idx', B(r, 64) == P)


def tasks(tier):
    return [(f.__name__[2:], f, (), '') for f in (t_read, t_write, t_readm, t_writem, t_move, t_readu, t_readum, t_next, t_prev)]


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=[HI, LO])
