"""P24: nn_dict_dynamic: bit assignments keep the 64-ary summary tree, next/prev find the nearest member."""
from .common import *
from .p06 import Z, EXT, DRIVER_LIBS as DL

TITLE = 'dynamic nearest-neighbour dictionary'
UNIT = '''
#include <sdsl/nn_dict_dynamic.hpp>
using namespace sdsl;
typedef nn_dict_dynamic N;
extern "C" {
bool get(const N& s, uint64_t i){ return s[i]; }
bool getref(N& s, uint64_t i){ return (bool)s[i]; }
void set(N& s, uint64_t i, bool b){ s[i] = b; }
uint64_t next(const N& s, uint64_t i){ return s.next(i); }
uint64_t prev(const N& s, uint64_t i){ return s.prev(i); }
void ctor(N* p, uint64_t n){ new (p) N(n); }
uint64_t size(const N& s){ return s.size(); }
}
'''
LIBS = ['bits.cpp']
DRIVER_LIBS = DL + ['nn_dict_dynamic.cpp']
ASSUMPTIONS = ['universes below 2^18 positions in the quick tier (three levels of the tree), below 2^24 in the thorough tier; loops over the levels are executed completely for each number of levels']
TRUSTED = ['the constructor (layout of the levels), copies and load are only covered by the bounded native driver; the proofs assume its layout and the summary-tree invariant']


class Dict:
    """d+1 levels; level l has cnt[l] nodes of 64 bits; node j of level l is word base[l]+j of the tree"""

    def __init__(self, c, d):
        self.c, self.d = c, d
        n = self.n = c.bv('n')
        lo_n, hi_n = (1 << (6 * d)), (1 << (6 * d + 6)) - 1
        if d == 0:
            lo_n = 1
        c.assume(U(lo_n, n), U(n, hi_n))
        cnt = self.cnt = [None] * (d + 1)
        x = n
        for l in range(d, -1, -1):
            cnt[l] = c.bv('cnt%d' % l)
            c.assume(cnt[l] == z3.LShR(x + 63, 6), U(1, cnt[l]))
            x = cnt[l]
        base = self.base = [Z(0)]
        for l in range(d):
            b = c.bv('base%d' % (l + 1))
            c.assume(b == base[-1] + cnt[l], U(b, 1 << 60))
            base.append(b)
        self.total = c.bv('total')
        c.assume(self.total == base[d] + cnt[d], U(self.total, 1 << 60))
        virt = [((1 << (6 * l)) - 1) // 63 for l in range(d + 2)]
        self.virt = virt
        offs = z3.K(z3.BitVecSort(64), Z(0))
        for l in range(1, d + 1):
            o = c.bv('off%d' % l)
            c.assume(o == virt[l] - base[l])        # virtual position - skipped nodes = real position
            offs = z3.Store(offs, Z(l), o)
        self.tp = c.arr('tree', self.total)
        self.op = c.e.new_arr(c.st, 'offset', 8, Z(d + 2), offs, ro=True)
        self.T0 = c.A(c.st, self.tp)
        self.p = c.obj('nn', 96, {0: (8, d), 8: (8, virt[d]), 16: (8, n), 24: (8, (d + 2) * 64), 32: (8, self.op), 40: (1, 64), 56: (8, self.total << 6), 64: (8, self.tp), 72: (1, 64)})
        c.st.mem[self.p.r].s[88] = (8, self.p)
        c.st.facts.append(Quant('tree', lambda x: z3.And([self.node(self.T0, l, x - self.base[l]) for l in range(d + 1)])))

    def word(self, T, l, j):
        return T[self.base[l] + j]

    def node(self, T, l, j):
        """node j of level l: bits only for existing children, and it agrees with its bit in the parent"""
        kids = self.cnt[l + 1] if l < self.d else self.n
        w = self.word(T, l, j)
        f = [z3.Implies(z3.LShR(kids, 6) == j, w & ~lo(kids & 63) == 0), z3.Implies(L(z3.LShR(kids, 6), j), w == 0)]
        if l:
            f.append(bit(self.word(T, l - 1, z3.LShR(j, 6)), j & 63) == z3.If(w == 0, Z(0), Z(1)))
        return z3.Implies(L(j, self.cnt[l]), z3.And(f))

    def path(self, T, k):
        """the invariant at the nodes above position k"""
        return z3.And([self.node(T, l, self.up(k, l)) for l in range(self.d + 1)])

    def up(self, k, l):
        return z3.LShR(k, 6 * (self.d - l + 1))

    def mem(self, T, k):
        return bit(self.word(T, self.d, z3.LShR(k, 6)), k & 63)


def t_find(c, d, dir):
    D = Dict(c, d)
    i = c.bv('i')
    c.assume(L(i, D.n), D.path(D.T0, i))
    for st, r in c.call(dir, [D.p, i]):
        c.reach(st, dir)
        k = c.bv('k')
        r = B(r, 64)
        st.assume(D.path(D.T0, k))
        st.assume(z3.Implies(L(r, D.n), D.path(D.T0, r)))
        c.ensures(st, '%s is a member or size()' % dir, z3.Or(r == D.n, z3.And(L(r, D.n), D.mem(D.T0, r) == 1, U(i, r) if dir == 'next' else U(r, i))))
        inside = z3.And(L(k, D.n), U(i, k), L(k, r)) if dir == 'next' else z3.And(U(k, i), z3.Or(r == D.n, L(r, k)))
        c.ensures(st, 'no member is closer', z3.Implies(inside, D.mem(D.T0, k) == 0))


def t_set(c, d, b):
    D = Dict(c, d)
    i = c.bv('i')
    c.assume(L(i, D.n), D.path(D.T0, i))
    for st, _ in c.call('set', [D.p, i, b]):
        c.reach(st, 'assignment')
        T = c.A(st, D.tp)
        k, j = c.bv('k'), c.bv('j')
        st.assume(D.path(D.T0, k))
        c.ensures(st, 'exactly this position changes its membership', z3.Implies(L(k, D.n), D.mem(T, k) == z3.If(k == i, Z(b), D.mem(D.T0, k))))
        for l in range(d + 1):
            s2 = st.copy()
            s2.assume(D.node(D.T0, l, j))
            for m in range(d + 1):
                s2.use('tree', D.base[m] + D.up(i, m))
                s2.assume(D.node(D.T0, m, D.up(i, m)))
            c.ensures(s2, 'the summary tree stays consistent: level %d' % l, D.node(T, l, j))


def t_get(c, d):
    D = Dict(c, d)
    i = c.bv('i')
    c.assume(L(i, D.n))
    for f in ('get', 'getref'):
        for st, r in c.call(f, [D.p, i]):
            c.reach(st, f)
            c.ensures(st, '[i] tells membership', Bo(r) == (D.mem(D.T0, i) == 1))
    for st, r in c.call('size', [D.p]):
        c.ensures(st, 'size()', B(r, 64) == D.n)


def t_ctor(c, d):
    n = c.bv('n')
    c.assume(U(1 << (6 * d) if d else 1, n), U(n, (1 << (6 * d + 6)) - 1))
    p = c.obj('nn', 96, {})
    cnt = [None] * (d + 1)
    x = n
    for l in range(d, -1, -1):
        cnt[l] = x = z3.LShR(x + 63, 6)
    for st, _ in c.call('ctor', [p, n]):
        c.reach(st, 'constructor')
        virt = [((1 << (6 * l)) - 1) // 63 for l in range(d + 2)]
        c.ensures(st, 'depth', B(c.ld(st, p, 0, 8), 64) == d)
        c.ensures(st, 'virtual begin of the leaves', B(c.ld(st, p, 8, 8), 64) == virt[d])
        c.ensures(st, 'size', B(c.ld(st, p, 16, 8), 64) == n)
        op, tp = c.ld(st, p, 32, 8), c.ld(st, p, 64, 8)
        base = Z(0)
        A = c.A(st, op)
        for l in range(d + 1):
            c.ensures(st, 'nodes skipped before level %d' % l, A[Z(l)] == virt[l] - base)
            base = base + cnt[l]
        c.ensures(st, 'size of the tree', B(c.ld(st, p, 56, 8), 64) == base << 6)
        k = c.bv('k')
        c.ensures(st, 'the tree is empty', z3.Implies(L(k, base), c.A(st, tp)[k] == 0))


SHARDS = {'(next|prev|set|clear)-2': 2, '(next|prev|set|clear)-3': 6}
HARD = ('-[23]',)


def tasks(tier):
    r = []
    for d in range(4 if tier == 'thorough' else 3):
        r += [('next-%d' % d, t_find, (d, 'next'), ''), ('prev-%d' % d, t_find, (d, 'prev'), ''), ('set-%d' % d, t_set, (d, 1), ''), ('clear-%d' % d, t_set, (d, 0), ''), ('get-%d' % d, t_get, (d,), ''), ('ctor-%d' % d, t_ctor, (d,), '')]
    return r


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + VNEW, externs=EXT)
