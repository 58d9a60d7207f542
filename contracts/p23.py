"""P23: sorted stacks keep the representation of their set of elements; top() is its maximum."""
from .common import *
from .p06 import Z, EXT, DRIVER_LIBS
from engine import theory as th

TITLE = 'sorted stacks'
CLS = {'s': ('sorted_stack_support', 1), 'i': ('sorted_int_stack', 63), 'm': ('sorted_multi_stack_support', 1)}
UNIT = '''
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
using namespace sdsl;
extern "C" {
''' + ''.join('''
%(r)s push_%(k)s(%(c)s& s, uint64_t x){ return s.push(x); }
%(r)s pop_%(k)s(%(c)s& s){ return s.pop(); }
uint64_t top_%(k)s(const %(c)s& s){ return s.top(); }
uint64_t size_%(k)s(const %(c)s& s){ return s.size(); }
bool empty_%(k)s(const %(c)s& s){ return s.empty(); }
''' % dict(k=k, c=v[0], r='bool' if k == 'm' else 'void') for k, v in CLS.items()) + '}\n'
LIBS = ['bits.cpp']
ASSUMPTIONS = ['values below 2^57; pushes are strictly increasing (multi stack: non-decreasing)']
TRUSTED = ['the constructors, copies, load and the overflow area of sorted_int_stack (values beyond the capacity) are only covered by the bounded native driver']
BV = z3.BitVecSort(64)
PB, PP = z3.Function('PREDBLK', BV, BV), z3.Function('PREDPOS', BV, BV)
FLAG = 1 << 63


def val(b, p):
    return th.MUL(b, Z(63)) + p


class Rep:
    """ghost set E (63 bits per block) with maximum 63*bt+pt; PB/PP: predecessor of the first element of a block"""

    def __init__(self, E, bt, pt, W, nb, PB=PB, PP=PP):
        self.E, self.bt, self.pt, self.W, self.nb, self.PB, self.PP = E, bt, pt, W, nb, PB, PP

    def at(self, b):
        E, W, bt = self.E, self.W, self.bt
        nxt = z3.And(U(b + 1, bt), E[b + 1] != 0)
        return z3.Implies(L(b, self.nb), z3.And(
            U(E[b], M64 >> 1), z3.Implies(z3.UGT(b, bt), E[b] == 0),
            W[b] == z3.If(E[b] != 0, E[b], z3.If(nxt, Z(FLAG) | val(self.PB(b + 1), self.PP(b + 1)), Z(0)))))

    def pred(self, b):
        """the predecessor of the first element of block b is the last element of an earlier block"""
        E = self.E
        return z3.Implies(z3.And(U(1, b), U(b, self.bt), E[b] != 0), z3.And(L(self.PB(b), b), L(self.PP(b), 63), z3.LShR(E[self.PB(b)], self.PP(b)) == 1))

    def gap(self, b, g):
        E = self.E
        return z3.Implies(z3.And(U(1, b), U(b, self.bt), E[b] != 0, L(self.PB(b), g), L(g, b)), E[g] == 0)

    def top(self):
        return z3.And(L(self.bt, self.nb), L(self.pt, 63), z3.LShR(self.E[self.bt], self.pt) == 1, self.E[Z(0)] & 1 == 1)


def setup(c, k):
    nb = c.bv('nb')
    c.assume(U(nb, 1 << 51), U(2, nb))
    dp = c.arr('stk', nb)
    bt, pt, n, cnt = c.bv('bt'), c.bv('pt'), c.bv('n'), c.bv('cnt')
    E = z3.Array('E', BV, BV)
    W0 = c.A(c.st, dp)
    R = Rep(E, bt, pt, W0, nb)
    c.assume(R.top(), z3.Not(z3.And(bt == 0, pt == 0)) == (cnt != 0))
    off = CLS[k][1]
    if k == 'i':
        c.assume(E[Z(0)] == 1)
    c.st.facts.append(Quant(('stk', 'blk'), lambda b: z3.And(R.at(b), R.pred(b), R.pred(b + 1))))
    lim = val(nb, Z(0))         # values below 63 * nb fit
    c.assume(U(n, 1 << 57))
    slots = {0: (8, n), 8: (8, cnt), 16: (8, val(bt, pt)), 24: (8, nb << 6), 32: (8, dp), 40: (1, 64)}
    extra = None
    if k == 'm':
        nd = c.bv('nd')
        c.assume(U(nd, 1 << 51))
        c.nd = nd
        extra = c.arr('dup', nd)
        slots.update({56: (8, nd << 6), 64: (8, extra), 72: (1, 64)})
    o = c.obj('s', 88 if k == 'm' else 80, slots)
    c.st.use('blk', bt)
    c.st.use('blk', bt - 1)
    return o, R, n, cnt, dp, extra


def divs(x, b, p):
    """machine quotient and remainder by 63 of x = 63 b + p (definition of b and p)"""
    return z3.And(x == val(b, p), th.UDV(x, Z(63)) == b, th.URM(x, Z(63)) == p, L(p, 63), L(b, 1 << 51), L(x, 1 << 58))


def check_rep(c, st, R0, R, news):
    """R holds after the operation, for an arbitrary block and gap"""
    b, g = c.bv('b'), c.bv('g')
    st = st.copy()
    st.assume(z3.And(L(b, R.nb), L(g, R.nb)))
    for t in [b, b + 1, b - 1, g] + news:
        st.use('blk', t)
    for t in (R0.gap(b, g), R0.gap(R0.bt, b), R0.gap(R0.bt, b + 1), R0.gap(R0.bt, g), R0.gap(b + 1, b), R0.gap(b + 1, g)):
        st.assume(t)
    c.ensures(st, 'top is an element', R.top())
    c.ensures(st, 'words represent the set: block', R.at(b))
    c.ensures(st, 'words represent the set: predecessor', R.pred(b))
    c.ensures(st, 'no element between the predecessor and the block', R.gap(b, g))


def t_push(c, k):
    o, R, n, cnt, dp, dup = setup(c, k)
    bx, px, x = c.bv('bx'), c.bv('px'), c.bv('x')
    off = CLS[k][1]
    c.assume(divs(x + off, bx, px), U(x, n), L(bx, R.nb), z3.Or(z3.UGT(bx, R.bt), z3.And(bx == R.bt, z3.UGT(px, R.pt))))
    if k == 'i':
        c.assume(U(1, bx), U(n + 63, n + 63), U(val(R.bt, R.pt), n + 63))
    if k == 'm':
        c.assume(L(z3.LShR(cnt, 6), c.nd))
        D0 = c.A(c.st, dup)
    c.st.use('blk', bx)
    c.st.use('blk', bx - 1)
    for st, r in c.call('push_' + k, [o, x]):
        c.reach(st, 'push')
        E2 = z3.Store(R.E, bx, R.E[bx] | (Z(1) << px))
        first = R.E[bx] == 0
        R2 = Rep(E2, bx, px, c.A(st, dp), R.nb, lambda b: z3.If(z3.And(b == bx, first), R.bt, PB(b)), lambda b: z3.If(z3.And(b == bx, first), R.pt, PP(b)))
        c.ensures(st, 'the pushed value is on top', B(c.ld(st, o, 16, 8), 64) == val(bx, px))
        c.ensures(st, 'one more element', B(c.ld(st, o, 8, 8), 64) == cnt + 1)
        check_rep(c, st, R, R2, [bx, bx - 1])
        if k == 'm':
            c.ensures(st, 'reported as new', Bo(r))
            q = c.bv('q')
            c.ensures(st, 'duplicates are unchanged', c.A(st, dup)[q] == D0[q])


def t_push_dup(c):
    o, R, n, cnt, dp, dup = setup(c, 'm')
    x = c.bv('x')
    c.assume(divs(x + 1, R.bt, R.pt), U(1, cnt), L(z3.LShR(cnt, 6), c.nd))
    D0, W0 = c.A(c.st, dup), c.A(c.st, dp)
    d = cnt
    c.assume(z3.LShR(D0[z3.LShR(d, 6)], d & 63) & 1 == 0)        # marks behind the count are 0
    for st, r in c.call('push_m', [o, x]):
        c.reach(st, 'push of a duplicate')
        q = c.bv('q')
        c.ensures(st, 'reported as duplicate', z3.Not(Bo(r)))
        c.ensures(st, 'the set is unchanged', z3.Implies(L(q, R.nb), c.A(st, dp)[q] == W0[q]))
        c.ensures(st, 'top is unchanged', B(c.ld(st, o, 16, 8), 64) == val(R.bt, R.pt))
        c.ensures(st, 'one more element', B(c.ld(st, o, 8, 8), 64) == cnt + 1)
        bitat = lambda a, i: z3.LShR(a[z3.LShR(i, 6)], i & 63) & 1
        c.ensures(st, 'exactly this element is marked as duplicate', bitat(c.A(st, dup), q) == z3.If(q == d, Z(1), bitat(D0, q)))


def t_pop(c, k, mode):
    o, R, n, cnt, dp, dup = setup(c, k)
    x = c.bv('x')
    c.assume(divs(val(R.bt, R.pt), R.bt, R.pt))
    if mode == 'empty':
        c.assume(cnt == 0)
    else:
        c.assume(U(1, cnt))
    if k == 'i':
        c.assume(U(val(R.bt, R.pt), n + 63), U(n, n + 63))
        c.assume(z3.Or(R.bt != 0, cnt == 0))
    W0 = c.A(c.st, dp)
    bitat = lambda a, i: z3.LShR(a[z3.LShR(i, 6)], i & 63) & 1
    if k == 'm':
        D0 = c.A(c.st, dup)
        c.assume(U(z3.LShR(cnt, 6), c.nd), L(z3.LShR(cnt - 1, 6), c.nd) if mode != 'empty' else z3.BoolVal(True))
        if mode != 'empty':
            c.assume(bitat(D0, cnt - 1) == (1 if mode == 'dup' else 0))
    E2 = z3.Store(R.E, R.bt, R.E[R.bt] ^ (Z(1) << R.pt))
    c.assume(U(val(PB(R.bt), PP(R.bt)), M64 >> 1))       # it is an element, below 2^58
    for st, r in c.call('pop_' + k, [o]):
        c.reach(st, 'pop ' + mode)
        cn, tp = B(c.ld(st, o, 8, 8), 64), B(c.ld(st, o, 16, 8), 64)
        if mode in ('empty', 'dup'):
            q = c.bv('q')
            c.ensures(st, 'the set is unchanged', z3.Implies(L(q, R.nb), c.A(st, dp)[q] == W0[q]))
            c.ensures(st, 'top is unchanged', tp == val(R.bt, R.pt))
            c.ensures(st, 'size', cn == (cnt if mode == 'empty' else cnt - 1))
            if mode == 'dup':
                c.ensures(st, 'exactly the mark of the popped element is removed', bitat(c.A(st, dup), q) == z3.If(q == cnt - 1, Z(0), bitat(D0, q)))
            if k == 'm':
                c.ensures(st, 'reports that no value disappeared', z3.Not(Bo(r)))
            continue
        left = E2[R.bt] != 0
        p2 = c.bv('p2')         # the highest remaining position of the block
        s2 = st.copy()
        s2.assume(z3.Implies(left, z3.And(L(p2, 63), z3.LShR(E2[R.bt], p2) == 1)))
        c.e.oblige(st, 'ensures: the sentinel or a smaller element remains', 'post', z3.Or(left, z3.And(U(1, R.bt), R.E[PB(R.bt)] != 0)))
        b2, q2 = z3.If(left, R.bt, PB(R.bt)), z3.If(left, p2, PP(R.bt))
        hi = local(c, 'the highest bit is unique', 3, lambda w, a, b: z3.Implies(z3.And(L(a, 64), L(b, 64), z3.LShR(w, a) == 1, z3.LShR(w, b) == 1), a == b)) if not hasattr(c, 'hl') else c.hl
        c.hl = hi
        R2 = Rep(E2, b2, q2, c.A(st, dp), R.nb)
        s2.use('blk', PB(R.bt))
        s2.assume(hi(E2[R.bt], p2, tp - th.MUL(R.bt, Z(63))))
        s2.assume(hi(R.E[R.bt - 1], PP(R.bt), tp - th.MUL(R.bt - 1, Z(63))))
        s2.assume(R.gap(R.bt, R.bt - 1))
        c.ensures(s2, 'the next smaller element is on top', tp == val(b2, q2))
        c.ensures(s2, 'one element less', cn == cnt - 1)
        check_rep(c, s2, R, R2, [R.bt, R.bt - 1, PB(R.bt)])
        if k == 'm':
            q = c.bv('q')
            c.ensures(s2, 'reported as the last copy', Bo(r))
            c.ensures(s2, 'duplicates are unchanged', c.A(st, dup)[q] == D0[q])


def t_get(c, k):
    o, R, n, cnt, dp, dup = setup(c, k)
    off = CLS[k][1]
    for st, r in c.call('top_' + k, [o]):
        c.ensures(st, 'top() is the largest element', B(r, 64) == val(R.bt, R.pt) - off)
    for st, r in c.call('size_' + k, [o]):
        c.ensures(st, 'size() is the number of elements', B(r, 64) == cnt)
    for st, r in c.call('empty_' + k, [o]):
        c.ensures(st, 'empty() iff there is no element', Bo(r) == (cnt == 0))


def tasks(tier):
    r = [('push-dup-m', t_push_dup, (), '')]
    for k in CLS:
        r += [('push-' + k, t_push, (k,), ''), ('get-' + k, t_get, (k,), ''), ('pop-empty-' + k, t_pop, (k, 'empty'), ''), ('pop-' + k, t_pop, (k, 'last'), '')]
    return r + [('pop-dup-m', t_pop, ('m', 'dup'), '')]


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS, mul_uf=True, externs=EXT)
