"""P01: word primitives of sdsl::bits."""
from .common import *

TITLE = 'word primitives'
UNIT = '''
#include <sdsl/bits.hpp>
using namespace sdsl;
extern "C" {
uint64_t w_cnt(uint64_t x){ return bits::cnt(x); }
uint32_t w_cnt32(uint32_t x){ return bits::cnt32(x); }
uint32_t w_sel(uint64_t x, uint32_t i){ return bits::sel(x,i); }
uint32_t w__sel(uint64_t x, uint32_t i){ return bits::_sel(x,i); }
uint32_t w_hi(uint64_t x){ return bits::hi(x); }
uint32_t w_lo(uint64_t x){ return bits::lo(x); }
uint64_t w_rev(uint64_t x){ return bits::rev(x); }
uint64_t w_map10(uint64_t x, uint64_t c){ return bits::map10(x,c); }
uint64_t w_map01(uint64_t x, uint64_t c){ return bits::map01(x,c); }
uint64_t w_map10d(uint64_t x){ return bits::map10(x); }
uint64_t w_map01d(uint64_t x){ return bits::map01(x); }
uint32_t w_cnt10(uint64_t x, uint64_t& c){ return bits::cnt10(x,c); }
uint32_t w_cnt01(uint64_t x, uint64_t& c){ return bits::cnt01(x,c); }
uint32_t w_cnt11c(uint64_t x, uint64_t& c){ return bits::cnt11(x,c); }
uint32_t w_cnt11(uint64_t x){ return bits::cnt11(x); }
uint32_t w_sel11(uint64_t x, uint32_t i, uint32_t c){ return bits::sel11(x,i,c); }
uint32_t w_hi11(uint64_t x){ return bits::hi11(x); }
}
'''
LIBS = ['bits.cpp']
CONFIGS = {'': [], '_sse': ['-msse4.2', '-mpopcnt']}


def t_cnt(c):
    x = c.bv('x')
    for st, r in c.call('w_cnt', [x]):
        c.reach(st, 'cnt')
        c.ensures(st, 'cnt(x) is the number of set bits', theory.inst_pop(B(r, 64)) == popdef(x))


def t_cnt32(c):
    x = c.bv('x', 32)
    for st, r in c.call('w_cnt32', [x]):
        c.ensures(st, 'cnt32(x) is the number of set bits', z64(B(r, 32)) == popdef(z64(x)))


def swar(x):
    """byte k holds the set bits of bytes 0..k (a fixed mathematical expression)"""
    k = lambda v: z3.BitVecVal(v, 64)
    s = x - (z3.LShR(x, 1) & k(0x5555555555555555))
    s = (s & k(0x3333333333333333)) + (z3.LShR(s, 2) & k(0x3333333333333333))
    s = (s + z3.LShR(s, 4)) & k(0x0f0f0f0f0f0f0f0f)
    return s * k(0x0101010101010101)


def swar_lemma(x):
    s = swar(x)
    return z3.And([z3.Extract(8 * k + 7, 8 * k, s) == z3.Extract(7, 0, popdef(x & z3.BitVecVal((1 << (8 * k + 8)) - 1, 64)))
                   for k in range(8)])


def t_swar(c):
    x = c.bv('x')
    c.ensures(c.st, 'lemma: SWAR byte sums are prefix counts', [swar_lemma(x).arg(k) for k in range(8)])


def t_sel(c, fn, part, parts):
    x, i = c.bv('x'), c.bv('i', 32)
    iz = z64(i)
    c.assume(iz != 0, U(iz, popdef(x)), swar_lemma(x))
    for k, (st, r) in enumerate(c.call(fn, [x, i])):
        if k % parts != part:
            continue
        c.reach(st, '%s path %d' % (fn, k))
        rz = z64(B(r, 32))
        c.ensures(st, '%s(x,i) is a position' % fn, L(rz, 64))
        c.ensures(st, '%s(x,i) is a set bit' % fn, bit(x, rz) == 1)
        c.ensures(st, '%s(x,i) has i-1 set bits below' % fn, popdef(x & lo(rz)) == iz - 1)


def t_hi(c):
    x = c.bv('x')
    for k, (st, r) in enumerate(c.call('w_hi', [x])):
        c.reach(st, 'hi path %d' % k)
        for nm, g in hi_post(r, x):
            c.ensures(st, 'hi: ' + nm, g)


def t_lo(c):
    x = c.bv('x')
    for k, (st, r) in enumerate(c.call('w_lo', [x])):
        c.reach(st, 'lo path %d' % k)
        for nm, g in lo_post(r, x):
            c.ensures(st, 'lo: ' + nm, g)


def t_rev(c):
    x = c.bv('x')
    for st, r in c.call('w_rev', [x]):
        want = z3.Concat(*[z3.Extract(k, k, x) for k in range(64)])
        c.ensures(st, 'rev(x) reverses the bits', B(r, 64) == want)


def prevbits(x, cy):
    """word whose bit j is bit j-1 of x, bit 0 the carry"""
    return z3.Concat(z3.Extract(62, 0, x), z3.Extract(0, 0, cy))


def t_map(c):
    x, cy = c.bv('x'), c.bv('c')
    c.assume(U(cy, 1))
    p = prevbits(x, cy)
    for st, r in c.call('w_map10', [x, cy]):
        c.reach(st, 'map10')
        c.ensures(st, 'map10 marks the 0 after a 1', B(r, 64) == (p & ~x))
    for st, r in c.call('w_map01', [x, cy]):
        c.ensures(st, 'map01 marks the 1 after a 0', B(r, 64) == (~p & x))
    for st, r in c.call('w_map10d', [x]):
        c.ensures(st, 'map10 default carry 0', B(r, 64) == (prevbits(x, z3.BitVecVal(0, 64)) & ~x))
    for st, r in c.call('w_map01d', [x]):
        c.ensures(st, 'map01 default carry 1', B(r, 64) == (~prevbits(x, z3.BitVecVal(1, 64)) & x))


def t_cnt1001(c, fn, f):
    x, cy = c.bv('x'), c.bv('c')
    c.assume(U(cy, 1))
    p = prevbits(x, cy)
    cp = c.obj('carry', 8, {0: (8, cy)})
    for st, r in c.call(fn, [x, cp]):
        c.reach(st, fn)
        c.ensures(st, fn + ' counts the pairs', z64(B(r, 32)) == POP(f(p, x)))
        c.ensures(st, fn + ' carries the top bit', B(c.ld(st, cp, 0, 8), 64) == z3.LShR(x, 63))


def marks11(x, cy):
    """automaton: a 1 following an unpaired 1 terminates a pair"""
    s = z3.Extract(0, 0, cy)
    m = []
    for j in range(64):
        b = z3.Extract(j, j, x)
        m.append(b & s)
        s = b & ~s
    return z3.Concat(*reversed(m)), s


def t_cnt11(c):
    x, cy = c.bv('x'), c.bv('c')
    c.assume(U(cy, 1))
    m, out = marks11(x, cy)
    cp = c.obj('carry', 8, {0: (8, cy)})
    for st, r in c.call('w_cnt11c', [x, cp]):
        c.reach(st, 'cnt11c')
        c.ensures(st, 'cnt11(x,c) carry out', B(c.ld(st, cp, 0, 8), 64) == z64(out))
        c.ensures(st, 'cnt11(x,c) counts terminating 11 pairs', z64(B(r, 32)) == popdef(m))
    m0, _ = marks11(x, z3.BitVecVal(0, 64))
    for st, r in c.call('w_cnt11', [x]):
        c.ensures(st, 'cnt11(x) counts terminating 11 pairs', z64(B(r, 32)) == popdef(m0))


def t_sel11(c):
    x, i, cy = c.bv('x'), c.bv('i', 32), c.bv('c', 32)
    c.assume(U(cy, 1))
    m, _ = marks11(x, z64(cy))
    iz = z64(i)
    c.assume(iz != 0, U(iz, POP(m)))
    # the argument handed to sel is exactly the word of marks, by sel's contract the rest follows
    seen = []

    def sel(e, st, a):
        e.oblige(st, 'word searched by sel11 marks exactly the terminating pairs', 'precondition', B(a[0], 64) == m)
        r = fresh('sel', 32)
        for nm, f in sel_post(r, m, a[1]):
            st.assume(f)
        st.assume(B(a[0], 64) == m)
        seen.append(1)
        return [(st, r)]
    c.e.contracts = [MemContract('bits::sel', SEL.pat.pattern, sel)]
    for st, r in c.call('w_sel11', [x, i, cy]):
        c.reach(st, 'sel11')
        for nm, g in sel_post(r, m, i):
            c.ensures(st, 'sel11: ' + nm, g)


def t_hi11(c):
    x = c.bv('x')
    m, _ = marks11(x, z3.BitVecVal(0, 64))
    c.e.contracts = [HI]
    for st, r in c.call('w_hi11', [x]):
        c.reach(st, 'hi11')
        rz = z64(B(r, 32))
        c.ensures(st, 'hi11: 0 without a pair', z3.Implies(m == 0, rz == 0))
        c.ensures(st, 'hi11: position of the last terminating pair', z3.Implies(m != 0, z3.LShR(m, rz) == 1))


def tasks(tier):
    T = []
    for cfg in CONFIGS:
        T += [('cnt' + cfg, t_cnt, (), cfg), ('hi' + cfg, t_hi, (), cfg), ('lo' + cfg, t_lo, (), cfg),
              ]
        T += [('sel' + cfg, t_sel, ('w_sel', 0, 1), cfg)]
    T += [('_sel', t_sel, ('w__sel', 0, 1), ''), ('swar', t_swar, (), '')]
    T += [('cnt32', t_cnt32, (), ''), ('rev', t_rev, (), ''), ('map', t_map, (), ''),
          ('cnt10', t_cnt1001, ('w_cnt10', lambda p, x: p & ~x), 'c'), ('cnt01', t_cnt1001, ('w_cnt01', lambda p, x: ~p & x), 'c'),
          ('cnt11', t_cnt11, (), ''), ('sel11', t_sel11, (), ''), ('hi11', t_hi11, (), '')]
    return T


def config(name, fn, args, cfg):
    d = dict(tables=TABLES)
    if cfg == 'c':
        d['contracts'] = [CNT]
    return d
