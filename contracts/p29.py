"""P29: 128- and 256-bit unsigned integers (class version and the one over native 128-bit integers)."""
from .common import *

TITLE = 'wide integers'
BIN = {'add': '+', 'sub': '-', 'or': '|', 'and': '&'}
ASG = {'adda': '+=', 'suba': '-=', 'ora': '|='}
CMP = {'eq': '==', 'ne': '!=', 'ge': '>=', 'le': '<=', 'gt': '>', 'lt': '<'}
WIDE = '''
#include <sdsl/uint256_t.hpp>
#include <sdsl/uint128_t.hpp>
using namespace sdsl;
typedef uint128_t A; typedef uint256_t W;
extern "C" {
'''
for t in 'AW':
    for n, o in BIN.items():
        WIDE += 'void %s%s(%s& r, %s& a, %s& b){ r = a %s b; }\n' % (n, t, t, t, t, o)
    for n, o in ASG.items():
        WIDE += 'void %s%s(%s& a, %s& b){ a %s b; }\n' % (n, t, t, t, o)
    for n, o in CMP.items():
        WIDE += 'bool %s%s(%s& a, %s& b){ return a %s b; }\n' % (n, t, t, t, o)
    WIDE += '''void shl%(t)s(%(t)s& r, %(t)s& a, int x){ r = a << x; }
void shr%(t)s(%(t)s& r, %(t)s& a, int x){ r = a >> x; }
void cp%(t)s(%(t)s& r, %(t)s& a){ r = a; }
void mk%(t)s(%(t)s& r, %(t)s& a){ %(t)s b(a); %(t)s d(std::move(b)); r = std::move(d); }
void set%(t)s(%(t)s& r, uint64_t x){ r = x; }
void from%(t)s(%(t)s& r, uint64_t x){ r = %(t)s(x); }
uint64_t to%(t)s(%(t)s& a){ return (uint64_t)a; }
bool gtu%(t)s(%(t)s& a, uint64_t x){ return a > x; }
void slfa%(t)s(%(t)s& a){ a += a; }
void slfs%(t)s(%(t)s& a){ a -= a; }
''' % dict(t=t)
WIDE += '''
uint64_t popW(W& a){ return a.popcount(); }
uint64_t hiW(W& a){ return a.hi(); }
uint64_t selW(W& a, uint32_t i){ return a.select(i); }
void ctorW(W& r, uint64_t a, uint64_t b, A& h){ r = W(a, b, h); }
void notA(A& r, A& a){ r = ~a; }
void adduA(A& r, A& a, uint64_t x){ r = a + x; }
void addauA(A& a, uint64_t x){ a += x; }
void oruA(A& r, A& a, uint64_t x){ r = a | x; }
bool equA(A& a, uint64_t x){ return a == x; }
#ifndef MODE_TI
uint64_t popA(A& a){ return a.popcount(); }
uint64_t hiA(A& a){ return a.hi(); }
uint64_t selA(A& a, uint32_t i){ return a.select(i); }
void ctorA(A& r, uint64_t a, uint64_t b){ r = A(a, b); }
#endif
}
'''
UNIT = WIDE
LIBS = ['bits.cpp']
DRIVER_LIBS = ['bits.cpp', 'uint128_t.cpp', 'uint256_t.cpp']
CONFIGS = {'': [], '_ti': ['-DMODE_TI']}
ASSUMPTIONS = ['shift amounts 0..128 (class version of uint128_t), 0..127 (native), 0..255 (uint256_t)']


def wide(c, nm, bits, ti, words=None):
    n = bits // 64
    ws = words or [c.bv('%s%d' % (nm, k)) for k in range(n)]
    sl = {}
    k = 0
    while k < n:
        if ti and (bits == 128 or k == 2):
            sl[8 * k] = (16, z3.Concat(ws[k + 1], ws[k]))
            k += 2
        else:
            sl[8 * k] = (8, ws[k])
            k += 1
    return c.obj(nm, bits // 8, sl), z3.Concat(*reversed(ws)), ws


def rd(c, st, p, bits, ti):
    out, k = [], 0
    n = bits // 64
    while k < n:
        if ti and (bits == 128 or k == 2):
            out.append(B(c.ld(st, p, 8 * k, 16), 128))
            k += 2
        else:
            out.append(B(c.ld(st, p, 8 * k, 8), 64))
            k += 1
    return out[0] if len(out) == 1 else z3.Concat(*reversed(out))


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'or': lambda a, b: a | b, 'and': lambda a, b: a & b,
       'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ge': z3.UGE, 'le': z3.ULE, 'gt': z3.UGT, 'lt': z3.ULT}


def tr(r):
    return (r if z3.is_bool(r) else B(r, r.size() if z3.is_bv(r) else 1) != 0) if not isinstance(r, bool) else z3.BoolVal(r)


def t_ops(c, t, bits, ti):
    def ins():
        a, av, aw = wide(c, 'a', bits, ti)
        b, bv_, bw = wide(c, 'b', bits, ti)
        r, _, _ = wide(c, 'r', bits, ti)
        return a, av, aw, b, bv_, bw, r
    a, av, aw, b, bv_, bw, r = ins()
    for n in BIN:
        for st, _ in c.call(n + t, [r, a, b]):
            c.reach(st, n)
            c.ensures(st, 'operator%s is exact modulo 2^%d' % (BIN[n], bits), rd(c, st, r, bits, ti) == OPS[n](av, bv_))
            c.ensures(st, 'operator%s leaves its operands' % BIN[n], z3.And(rd(c, st, a, bits, ti) == av, rd(c, st, b, bits, ti) == bv_))
    for n in ASG:
        for st, _ in c.call(n + t, [a, b]):
            c.ensures(st, 'operator%s is exact modulo 2^%d' % (ASG[n], bits), rd(c, st, a, bits, ti) == OPS[n[:-1]](av, bv_))
            c.ensures(st, 'operator%s leaves its operand' % ASG[n], rd(c, st, b, bits, ti) == bv_)
    for n in CMP:
        for st, v in c.call(n + t, [a, b]):
            c.ensures(st, 'operator%s compares the values' % CMP[n], tr(v) == OPS[n](av, bv_))
    x = c.bv('x', 64)
    xw = z3.ZeroExt(bits - 64, x)
    for n in ('cp', 'mk'):
        for st, _ in c.call(n + t, [r, a]):
            c.ensures(st, 'copies and moves keep the value', rd(c, st, r, bits, ti) == av)
    for n in ('set', 'from'):
        for st, _ in c.call(n + t, [r, x]):
            c.ensures(st, 'conversion from 64 bits', rd(c, st, r, bits, ti) == xw)
    for st, v in c.call('to' + t, [a]):
        c.ensures(st, 'conversion to 64 bits', B(v, 64) == aw[0])
    for st, v in c.call('gtu' + t, [a, x]):
        c.ensures(st, 'operator> with 64 bits', tr(v) == z3.UGT(av, xw))
    for st, _ in c.call('slfa' + t, [a]):
        c.ensures(st, 'adding a number to itself', rd(c, st, a, bits, ti) == av + av)
    for st, _ in c.call('slfs' + t, [a]):
        c.ensures(st, 'subtracting a number from itself', rd(c, st, a, bits, ti) == z3.BitVecVal(0, bits))
    if bits == 128:
        for st, _ in c.call('notA', [r, a]):
            c.ensures(st, 'operator~', rd(c, st, r, bits, ti) == ~av)
        for st, _ in c.call('adduA', [r, a, x]):
            c.ensures(st, 'operator+ with 64 bits', rd(c, st, r, bits, ti) == av + xw)
        for st, _ in c.call('addauA', [a, x]):
            c.ensures(st, 'operator+= with 64 bits', rd(c, st, a, bits, ti) == av + xw)
        for st, _ in c.call('oruA', [r, a, x]):
            c.ensures(st, 'operator| with 64 bits', rd(c, st, r, bits, ti) == av | xw)
        for st, v in c.call('equA', [a, x]):
            c.ensures(st, 'operator== with 64 bits', tr(v) == (av == xw))
    else:
        h, hv, hw = wide(c, 'h', 128, ti)
        y = c.bv('y', 64)
        for st, _ in c.call('ctorW', [r, x, y, h]):
            c.ensures(st, 'construction from parts', rd(c, st, r, bits, ti) == z3.Concat(hv, y, x))
    if not ti and bits == 128:
        y = c.bv('y', 64)
        for st, _ in c.call('ctorA', [r, x, y]):
            c.ensures(st, 'construction from parts', rd(c, st, r, bits, ti) == z3.Concat(y, x))


def t_shift(c, t, bits, ti):
    a, av, aw = wide(c, 'a', bits, ti)
    r, _, _ = wide(c, 'r', bits, ti)
    s = c.bv('s', 32)
    c.assume(U(s, 128 if bits == 128 and not ti else bits - 1))
    sw = z3.ZeroExt(bits - 32, s)
    for st, _ in c.call('shl' + t, [r, a, s]):
        c.reach(st, 'shift left')
        c.ensures(st, 'operator<< is exact modulo 2^%d' % bits, rd(c, st, r, bits, ti) == av << sw)
    for st, _ in c.call('shr' + t, [r, a, s]):
        c.reach(st, 'shift right')
        c.ensures(st, 'operator>> is exact', rd(c, st, r, bits, ti) == z3.LShR(av, sw))


def t_cnt(c, t, bits, ti):
    a, av, aw = wide(c, 'a', bits, ti)
    for x in aw:
        c.assume(U(POP(x), 64), (POP(x) == 0) == (x == 0))
    for st, v in c.call('pop' + t, [a]):
        c.reach(st, 'popcount')
        s = POP(aw[0])
        for x in aw[1:]:
            s = s + POP(x)
        c.ensures(st, 'popcount is the number of set bits', B(v, 64) == s)
    for st, v in c.call('hi' + t, [a]):
        c.reach(st, 'hi')
        v = B(v, 64)
        c.ensures(st, 'hi is below the width', L(v, bits))
        c.ensures(st, 'hi: the highest set bit', z3.If(av == 0, v == 0, z3.LShR(av, z3.ZeroExt(bits - 64, v)) == z3.BitVecVal(1, bits)))
    i = c.bv('i', 32)
    iz = z64(i)
    s = POP(aw[0])
    for x in aw[1:]:
        s = s + POP(x)
    c.assume(U(1, iz), U(iz, s))
    for st, v in c.call('sel' + t, [a, i]):
        c.reach(st, 'select')
        v = B(v, 64)
        before, ok = z3.BitVecVal(0, 64), []
        for k, x in enumerate(aw):
            o = v - 64 * k
            here = z3.And(U(64 * k, v), L(v, 64 * k + 64))
            ok.append(z3.And(here, bit(x, o) == 1, before + pre(x, o) == iz - 1))
            before = before + POP(x)
        c.ensures(st, 'select: position of the i-th set bit', z3.Or(ok))


def tasks(tier):
    r = []
    for cfg in CONFIGS:
        for t, b in (('A', 128), ('W', 256)):
            r += [('ops%d%s' % (b, cfg), t_ops, (t, b, cfg == '_ti'), cfg), ('shift%d%s' % (b, cfg), t_shift, (t, b, cfg == '_ti'), cfg)]
            if b == 256 or not cfg:
                r += [('count%d%s' % (b, cfg), t_cnt, (t, b, cfg == '_ti'), cfg)]
    return r


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS)
