"""P26: louds_tree: navigation over the positions of ones and zeros of the level-order unary sequence."""
from .common import *
from .p06 import Z, EXT, DRIVER_LIBS

TITLE = 'LOUDS tree'
UNIT = '''
#include <sdsl/select_support.hpp>
#include <sdsl/louds_tree.hpp>
using namespace sdsl;
typedef louds_tree<> T;
extern "C" {
bool leaf(const T& t, const louds_node& v){ return t.is_leaf(v); }
uint64_t degree(const T& t, const louds_node& v){ return t.degree(v); }
void child(const T& t, const louds_node& v, uint64_t i, louds_node* r){ louds_node x = t.child(v,i); new (r) louds_node(x.nr, x.pos); }
void parent(const T& t, const louds_node& v, louds_node* r){ louds_node x = t.parent(v); new (r) louds_node(x.nr, x.pos); }
void root(const T& t, louds_node* r){ louds_node x = t.root(); new (r) louds_node(x.nr, x.pos); }
uint64_t id(const T& t, const louds_node& v){ return t.id(v); }
uint64_t nodes(const T& t){ return t.nodes(); }
bool eq(const louds_node& a, const louds_node& b){ return a == b; }
void cpn(const louds_node& a, louds_node* r){ new (r) louds_node(a); }
void asn(const louds_node& a, louds_node* r){ *r = a; }
bool ne(const louds_node& a, const louds_node& b){ return a != b; }
}
'''
LIBS = ['bits.cpp']
DRIVER_LIBS = DRIVER_LIBS + ['louds_tree.cpp', 'rrr_vector_15.cpp', 'uint128_t.cpp', 'uint256_t.cpp']
ASSUMPTIONS = ['trees of at most 2^50 nodes', 'i-th child: 1 <= i <= degree']
TRUSTED = ['the constructor (traversal of a tree with BFS iterators) and copies are only covered by the bounded native driver; the proofs assume that the bit vector is a level-order unary sequence',
           'select_support_mcl<1>, <0> of the sequence: contract proved by P07; operator[] and size of the bit vector: contract proved by P03']
BV = z3.BitVecSort(64)
S1, S0, BIT = (z3.Function(n, BV, BV) for n in ('ONEPOS', 'ZEROPOS', 'LOUDSBIT'))
# node k <-> k-th one (k from 0); node k > 0 is also the child made by the k-th zero (k from 1): ZEROPOS(k)


class Tree:
    """level-order unary sequence of N nodes: 1, then degree many 0, per node; the last 1s trailing zeros are complete"""

    def __init__(self, c):
        self.c = c
        self.N, self.size = c.bv('N'), c.bv('size')
        N, size = self.N, self.size
        c.assume(U(1, N), U(N, 1 << 50), size == 2 * N - 1)
        p = self.p = c.obj('louds', 400, {}, ro=True)
        absvec(c, 'bv', BIT, size, at=p)
        # ones: S1(k), k < N increasing; zeros: S0(k), 1 <= k <= N-1; position + 1 = ones + zeros up to it
        c.st.facts.append(Quant(('one', 'bv'), lambda k: z3.Implies(L(k, N), z3.And(L(S1(k), size), U(k, S1(k)), BIT(S1(k)) == 1, z3.Implies(k == 0, S1(k) == 0), U(S1(k) - k, N - 1)))))
        c.assume(S1(N - 1) == size - 1)      # the last node in level order is a leaf
        c.st.facts.append(Quant('bv', lambda q: U(BIT(q), 1)))

    def inc(self, a, b):
        return z3.Implies(z3.And(L(a, b), L(b, self.N)), U(S1(a) + (b - a), S1(b)))

    def zero(self, k):
        """the k-th zero: z = k-1 zeros and par+1 ones before it, par its owner; it comes before the one of node k"""
        q = S0(k)
        par = q + 1 - k - 1
        return z3.Implies(z3.And(U(1, k), L(k, self.N)), z3.And(L(q, self.size), U(k, q), BIT(q) == 0, L(par, k), L(S1(par), q), z3.Implies(L(par + 1, self.N), L(q, S1(par + 1)))))

    def between(self, v, q):
        """positions between the ones of v and v+1 (or the end) are zeros; the one at q is the (q-v)-th"""
        end = z3.If(L(v + 1, self.N), S1(v + 1), self.size)
        return z3.Implies(z3.And(L(v, self.N), L(S1(v), q), L(q, end)), z3.And(BIT(q) == 0, S0(q - v) == q, U(1, q - v), L(q - v, self.N)))

    def deg(self, v):
        return z3.If(L(v + 1, self.N), S1(v + 1), self.size) - S1(v) - 1

    def node(self, nm, v):
        c = self.c
        o = c.obj(nm, 32, {0: (8, v), 8: (8, S1(v))})
        c.st.mem[o.r].s[16] = (8, o)
        c.st.mem[o.r].s[24] = (8, o.addc(8))
        return o


def _sel(b):
    def f(e, st, a):
        t = e.tree
        if not (isinstance(a[0], Ptr) and a[0].r == t.p.r and a[0].o.const()):
            return None
        i = B(a[1], 64)
        cnt = t.N if b else t.N - 1
        e.oblige(st, 'precondition of select_%d: 1 <= i <= number of %ds' % (b, b), 'precondition', z3.And(U(1, i), U(i, cnt)))
        if b:
            k = z3.simplify(i - 1)
            st.use('one', k)
            return [(st, S1(k))]
        st.assume(t.zero(i))
        return [(st, S0(i))]
    return MemContract('select_support_mcl<%d>::operator()' % b, r'^sdsl::select_support_mcl<\(unsigned char\)%d, \(unsigned char\)1>::(operator\(\)|select)\(unsigned long\) const$' % b, f)


def nodeof(c, st, o):
    return B(c.ld(st, o, 0, 8), 64), B(c.ld(st, o, 8, 8), 64)


def setup(c):
    t = Tree(c)
    c.e.tree = t
    v = c.bv('v')
    c.assume(L(v, t.N))
    for k in (v, v + 1):
        c.st.use('one', k)
    c.assume(t.inc(v, v + 1), t.between(v, S1(v) + 1))
    return t, v, t.node('v', v)


def t_leaf(c):
    t, v, o = setup(c)
    for st, r in c.call('leaf', [t.p, o]):
        c.reach(st, 'is_leaf')
        c.ensures(st, 'is_leaf(v) iff v has no child', Bo(r) == (t.deg(v) == 0))
    for st, r in c.call('degree', [t.p, o]):
        c.reach(st, 'degree')
        c.ensures(st, 'degree(v) is the number of zeros behind the one of v', B(r, 64) == t.deg(v))


def t_child(c):
    t, v, o = setup(c)
    i = c.bv('i')
    c.assume(U(1, i), U(i, t.deg(v)))
    q0 = c.st.copy()
    q0.assume(t.between(v, S1(v) + i))
    c.e.oblige(q0, 'step: the child exists', 'step', z3.And(L(S1(v) + i - v, t.N), U(1, S1(v) + i - v), S0(S1(v) + i - v) == S1(v) + i))
    k = c.bv('k')               # number of the child
    c.assume(k == S1(v) + i - v, S1(v) + i == k + v, U(1, k), L(k, t.N), S0(k) == k + v)
    c.st.use('one', k)
    c.assume(t.zero(k), t.inc(v, k))
    r = c.obj('r', 32, {})
    for st, _ in c.call('child', [t.p, o, i, r]):
        c.reach(st, 'child')
        n, p = nodeof(c, st, r)
        c.ensures(st, 'child(v,i) is the node of the i-th zero behind v', z3.And(n == k, p == S1(n), L(n, t.N), S0(n) == S1(v) + i))
        o2 = c.obj('r2', 32, {}, st=st)
        st.assume(z3.And(n == k, p == S1(k)))
        for s2, _ in c.call('parent', [t.p, r, o2], st=st):
            n2, p2 = nodeof(c, s2, o2)
            c.ensures(s2, 'parent(child(v,i)) is v', z3.And(n2 == v, p2 == S1(v)))


def t_parent(c):
    t, v, o = setup(c)
    c.assume(t.zero(v), z3.Implies(v != 0, t.inc(S0(v) - v, v)))
    c.st.use('one', S0(v) - v)
    par = S0(v) - v
    r = c.obj('r', 32, {})
    for st, _ in c.call('parent', [t.p, o, r]):
        c.reach(st, 'parent')
        n, p = nodeof(c, st, r)
        c.ensures(st, 'parent(root) is the root', z3.Implies(v == 0, z3.And(n == 0, p == 0)))
        c.ensures(st, 'parent(v) owns the zero of v', z3.Implies(v != 0, z3.And(n == par, p == S1(par), L(n, v), L(S1(n), S0(v)), z3.Implies(L(n + 1, t.N), L(S0(v), S1(n + 1))))))
    for st, _ in c.call('root', [t.p, r]):
        n, p = nodeof(c, st, r)
        c.ensures(st, 'the root is node 0', z3.And(n == 0, p == 0))
    for st, q in c.call('id', [t.p, o]):
        c.ensures(st, 'id(v) numbers the nodes in level order', B(q, 64) == v)
    for st, q in c.call('nodes', [t.p]):
        c.ensures(st, 'nodes() is the number of nodes', B(q, 64) == t.N)
    w = c.bv('w')
    o2 = t.node('w', w)
    c.assume(L(w, t.N))
    for st, q in c.call('eq', [o, o2]):
        c.ensures(st, 'equal nodes', Bo(q) == z3.And(v == w, S1(v) == S1(w)))
    for f in ('cpn', 'asn'):
        cp = c.obj('cp', 32, {}) if f == 'cpn' else t.node('cp', c.bv('old'))
        for st, _ in c.call(f, [o, cp]):
            c.ensures(st, 'a copy of a node has its number and position', z3.And(nodeof(c, st, cp)[0] == v, nodeof(c, st, cp)[1] == S1(v)))
            for off, what in ((16, 0), (24, 8)):
                q = c.ld(st, cp, off, 8)
                c.ensures(st, 'a copy of a node refers to its own members', z3.BoolVal(isinstance(q, Ptr) and q.r == cp.r and q.o.const() and q.o.c == what))
    for st, q in c.call('ne', [o, o2]):
        c.ensures(st, 'different nodes', Bo(q) == z3.Not(z3.And(v == w, S1(v) == S1(w))))


def tasks(tier):
    return [('leaf', t_leaf, (), ''), ('child', t_child, (), ''), ('parent', t_parent, (), '')]


def config(name, fn, args, cfg):
    return dict(tables=TABLES, contracts=BITS + AV + [_sel(0), _sel(1)], externs=EXT)
