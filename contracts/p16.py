"""P16: balanced parentheses: the scans within a block find the first / last position with the searched excess."""
import os
import subprocess
from .common import *
from .p06 import Z, EXT
from engine import build
from engine.exec import Lazy, Multi, State

TITLE = 'balanced parentheses navigation'
UNIT = '''
#include <sdsl/bp_support.hpp>
using namespace sdsl;
typedef bp_support_sada<> S;
extern "C" {
uint64_t find_close(const bit_vector& bp, uint64_t i, uint64_t bs){ return near_find_close(bp,i,bs); }
uint64_t find_closing(const bit_vector& bp, uint64_t i, uint64_t c, uint64_t bs){ return near_find_closing(bp,i,c,bs); }
uint64_t fwd_excess(const bit_vector& bp, uint64_t i, int64_t rel, uint64_t bs){ return near_fwd_excess(bp,i,rel,bs); }
uint64_t find_open(const bit_vector& bp, uint64_t i, uint64_t bs){ return near_find_open(bp,i,bs); }
uint64_t find_opening(const bit_vector& bp, uint64_t i, uint64_t c, uint64_t bs){ return near_find_opening(bp,i,c,bs); }
uint64_t bwd_excess(const bit_vector& bp, uint64_t i, int64_t rel, uint64_t bs){ return near_bwd_excess(bp,i,rel,bs); }
uint64_t enclose(const bit_vector& bp, uint64_t i, uint64_t bs){ return near_enclose(bp,i,bs); }
uint64_t rmq_open(const bit_vector& bp, uint64_t l, uint64_t r){ return near_rmq_open(bp,l,r); }
uint64_t rmq(const bit_vector& bp, uint64_t l, uint64_t r, int64_t& m){ return near_rmq(bp,l,r,m); }
}
'''
LIBS = ['bits.cpp', 'bp_support_algorithm.cpp']
DRIVER_LIBS = ALL_LIBS
DRIVER_FLAGS = SORT
ASSUMPTIONS = ['sequences of at most 2^50 parentheses, excess differences of at most 2^50', 'block size 256 (quick); 840, 256, 37, 1, 7, 64 and the scans of bp_support_gg (thorough)',
               'near scans: an answer exists, or the block ends within the sequence (callers of the structures satisfy one of both)']
TRUSTED = ['the look-up tables: obtained by executing the real constructor natively, then checked entry by entry against their meaning',
           'min-max tree and pioneer search (fwd_excess, bwd_excess, rmq_open, bp_support_g, bp_support_gg), constructors, copies, load: only covered by the bounded native driver']
BUDGET = 400.0
SHARDS = {'fwd_excess|find_close': 3, '.*': 2}
DRIVER_SECS = 14.0
BV = z3.BitVecSort(64)
F = z3.Function('EXCESS', BV, BV)        # opening minus closing parentheses among the first x, relative to the searched excess

DUMP = '''
#include <cstdio>
#include <cstddef>
#include <sdsl/bp_support_algorithm.hpp>
using namespace sdsl;
template<class T> void out(const char* n, const T& a){ typedef typename std::remove_reference<decltype(a[0])>::type X; printf("%s %zu %zu %zu", n, (size_t)((const char*)&a-(const char*)&excess::data), sizeof(X), sizeof(a)/sizeof(X)); for (auto x : a) printf(" %llu", (unsigned long long)(sizeof(X)==8 ? (uint64_t)x : ((uint64_t)x & ((1ULL<<(8*sizeof(X)%64))-1)))); puts(""); }
int main(){
#define O(f) out(#f, excess::data.f)
O(near_fwd_pos); O(near_bwd_pos); O(word_sum); O(min); O(min_pos_max); O(min_match_pos_packed); O(max_match_pos_packed); O(min_open_excess_info); }
'''
PARTS = []


def dump():
    d = build.workdir('p16')
    src = os.path.join(d, 'dump.cpp')
    with open(src, 'w') as f:
        f.write(DUMP)
    exe = os.path.join(d, 'dump')
    L_ = [build.libsrc(d, x) for x in ('bits.cpp', 'util.cpp', 'memory_management.cpp', 'ram_fs.cpp', 'ram_filebuf.cpp', 'structure_tree.cpp', 'sfstream.cpp', 'io.cpp', 'bp_support_algorithm.cpp')]
    r = subprocess.run(['g++', '-std=c++11', '-O0', '-w', '-DNDEBUG', '-I' + build.REPO + '/include', src] + L_ + ['-o', exe], capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[:2000])
    for l in subprocess.run([exe], capture_output=True, text=True, timeout=60).stdout.split('\n'):
        w = l.split()
        if w:
            PARTS.append((int(w[1]), Lazy('excess::' + w[0], int(w[2]), [int(x) for x in w[4:]])))
    PARTS.sort(key=lambda x: x[0])


def psum(w, p):
    return sum(1 if (w >> k) & 1 else -1 for k in range(p))


def ssum(w, p):
    return sum(1 if (w >> k) & 1 else -1 for k in range(p, 8))


def first(w, v, none, rng, f):
    for p in rng:
        if f(w, p) == v:
            return p
    return none


def v_match(w, fwd):
    x = 0
    for k in range(1, 9):
        x |= (first(w, -k, 9, range(8), lambda w, p: psum(w, p + 1)) if fwd else first(w, k, 9, range(7, -1, -1), ssum)) << (4 * (k - 1))
    return x


def v_min(w):
    return min(psum(w, p + 1) for p in range(8))


def v_minpos(w):
    return max(p for p in range(8) if psum(w, p + 1) == v_min(w))


def v_open(w):
    o = [(psum(w, p + 1), -p) for p in range(8) if (w >> p) & 1]
    if not o:
        return 17
    m = min(o)
    return (m[0] + 8) | (-m[1]) << 8 | bin(w).count('1') << 12


def sg(b):
    return z3.If(b == 1, z3.BitVecVal(1, 8), z3.BitVecVal(-1, 8))


def wb(i, k):
    return z3.Extract(k, k, i)


def tsum(i, ks):
    r = None
    for k in ks:
        r = sg(wb(i, k)) if r is None else r + sg(wb(i, k))
    return r


def tfirst(i, v, none, ks, f):
    v = z3.Extract(7, 0, v) if v.size() != 8 else v
    r = Z(none)
    for k in reversed(list(ks)):
        r = z3.If(f(i, k) == v, Z(k), r)
    return r


PF = lambda i, k: tsum(i, range(k + 1))
SF = lambda i, k: tsum(i, range(k, 8))


def C8(v):
    return z3.BitVecVal(v, 8)


def match_facts(x, i, fwd):
    """what the packed entry x for the byte of index i says; proved for every entry as a lemma"""
    f = []
    for d in range(1, 9):
        nib = z3.Extract(4 * d - 1, 4 * d - 4, x)
        S = (lambda k: -PF(i, k)) if fwd else (lambda k: SF(i, k))
        f.append(z3.Or(z3.ULT(nib, 8), nib == 9))
        f.append(z3.Implies(nib == 9, z3.And([S(k) < C8(d) for k in range(8)])))
        for k in range(8):
            before = range(k) if fwd else range(k + 1, 8)
            f.append(z3.Implies(nib == k, z3.And([S(k) == C8(d)] + [S(q) < C8(d) for q in before])))
    return z3.And(f)


def t_match(fwd):
    def f(st, i):
        x = fresh('packed', 32)
        st.assume(match_facts(x, i, fwd))
        return x
    return f


def match_holds(vals, fwd):
    """the lemma, entry by entry on the real table"""
    for w, x in enumerate(vals):
        for d in range(1, 9):
            nib = (x >> (4 * d - 4)) & 15
            S = [(-psum(w, k + 1)) if fwd else ssum(w, k) for k in range(8)]
            if nib == 9:
                if any(t >= d for t in S):
                    return False
            elif nib > 7 or S[nib] != d or any(S[q] >= d for q in (range(nib) if fwd else range(nib + 1, 8))):
                return False
    return True


def t_min(i):
    r = PF(i, 0)
    for k in range(1, 8):
        r = z3.If(r <= PF(i, k), r, PF(i, k))
    return r


def t_minpos(i):
    return tfirst(i, t_min(i), 0, range(7, -1, -1), PF)


def t_open(st, i):
    m, pos, ones = Z(17), Z(0), Z(0)
    for k in range(8):
        x = z3.SignExt(56, PF(i, k)) + 8
        c = z3.And(wb(i, k) == 1, L(x, m))
        m, pos = z3.If(c, x, m), z3.If(c, Z(k), pos)
        ones = ones + z3.ZeroExt(63, wb(i, k))
    return z3.Extract(15, 0, m | (pos << 8) | (ones << 12))


X8 = lambda t: z3.Extract(7, 0, t)
XT = [
    (r'excess::near_fwd_pos', lambda k: first(k & 255, (k >> 8) - 8, 8, range(8), lambda w, p: psum(w, p + 1)), lambda st, i: X8(tfirst(i, z3.LShR(i, 8) - 8, 8, range(8), PF))),
    (r'excess::near_bwd_pos', lambda k: first(k & 255, 8 - (k >> 8), 8, range(7, -1, -1), ssum), lambda st, i: X8(tfirst(i, 8 - z3.LShR(i, 8), 8, range(7, -1, -1), SF))),
    (r'excess::word_sum', lambda k: psum(k, 8), lambda st, i: PF(i, 7)),
    (r'excess::min_pos_max', v_minpos, lambda st, i: X8(t_minpos(i))),
    (r'excess::min$', v_min, lambda st, i: t_min(i)),
    (r'excess::min_match_pos_packed', lambda k: v_match(k, True), t_match(True)),
    (r'excess::max_match_pos_packed', lambda k: v_match(k, False), t_match(False)),
    (r'excess::min_open_excess_info', v_open, t_open),
]
XEXT = dict(EXT, globals=EXT['globals'] + [(r'6excess4dataE', lambda e, st, name, t: Multi('excess::data', PARTS))])


# ---------------------------------------------------------------- the sequence
BIT = z3.Function('PAREN', BV, BV)


class Seq:
    """F(x): excess of the first x parentheses minus the searched one"""

    def __init__(self, c):
        self.c = c
        n = self.n = c.bv('n')
        c.assume(U(1, n), U(n, 1 << 50))
        self.dp = c.arr('bits', z3.LShR(n, 6) + 1, ro=True)
        self.D = c.A(c.st, self.dp)
        self.p = c.obj('bp', 32, {0: (8, n), 8: (8, self.dp), 16: (1, 1)}, ro=True)
        c.e.seq = self
        c.e.loop_subst = True

    def step(self, x):
        return F(x + 1) == F(x) + z3.If(BIT(x) == 1, Z(1), Z(-1))

    def small(self, x):
        """|F(x)| is small, by induction over the steps"""
        return z3.Implies(U(x, self.n + 8), U(F(x) + (1 << 52), 1 << 53))

    def byte(self, j):
        """the eight parentheses of the byte at j (a multiple of 8): from the steps, lemma below"""
        w = z3.LShR(self.D[z3.LShR(j, 6)], j & 63)
        return z3.Implies(j & 7 == 0, z3.And([F(j + k + 1) == F(j) + z3.SignExt(56, PF(w, k)) for k in range(8)] + [F(j + k) == F(j + 8) - z3.SignExt(56, SF(w, k)) for k in range(8)]))


def _at(e, st, a):
    s = e.seq
    if not (isinstance(a[0], Ptr) and a[0].r == s.p.r):
        return None
    j = e.load_raw(st, a[1], 8) if isinstance(a[1], Ptr) else a[1]
    j = B(j, 64)
    e.safety_check(st, 'position inside the sequence', L(j, s.n))
    st.assume(U(BIT(j), 1))
    return [(st, BIT(j))]


AT = [MemContract('bit_vector::operator[] const', r'^sdsl::int_vector<.*>::operator\[\]\(unsigned long const&\) const$', _at)]


def lemmas(c):
    """byte(j) follows from the steps: proved on fresh constants"""
    w, j = fresh('w', 64), fresh('j', 64)
    for k in range(8):
        c.ensures(State(), 'lemma: bit %d of an aligned byte lies in the same word' % k,
                  z3.Implies(j & 7 == 0, z3.And(z3.LShR(j + k, 6) == z3.LShR(j, 6), bit(w, (j + k) & 63) == z3.ZeroExt(63, wb(z3.LShR(w, j & 63), k)))))
    f = [fresh('f', 64) for _ in range(9)]
    st = State()
    for k in range(8):
        st.assume(f[k + 1] == f[k] + z3.If(wb(w, k) == 1, Z(1), Z(-1)))
    for k in range(8):
        c.ensures(st, 'lemma: sums over a byte, up to %d' % k, f[k + 1] == f[0] + z3.SignExt(56, PF(w, k)))
        c.ensures(st, 'lemma: sums over a byte, from %d' % k, f[k] == f[8] - z3.SignExt(56, SF(w, k)))
    for o, t in PARTS:
        if 'match' in t.name:
            c.ensures(State(), 'lemma: meaning of the entries of %s' % t.name, z3.BoolVal(match_holds(t.vals, 'min_match' in t.name)))


def block(c, x, bs):
    """end of the block of x; lemma: x < end <= x + bs"""
    y = fresh('y', 64)
    e = lambda v: (z3.UDiv(v, Z(bs)) + 1) * Z(bs)
    c.ensures(State(), 'lemma: end of block', z3.Implies(U(y, 1 << 51), z3.And(L(y, e(y)), U(e(y), y + bs))))
    c.assume(L(x, e(x)), U(e(x), x + bs))
    return e(x)


def fwd(c, kind, bs):
    s = Seq(c)
    lemmas(c)
    i = c.bv('i')
    c.assume(L(i, s.n))
    a = c.bv('arg')
    x, m = c.bv('x'), c.bv('m')           # arbitrary position; position of an answer
    if kind == 'find_close':
        st0, args = i + 1, [s.p, i, bs]
        c.assume(F(i + 1) == 1)          # the position itself is opening
    elif kind == 'find_closing':
        st0, args = i, [s.p, i, a, bs]
        c.assume(U(1, a), U(a, 1 << 50), F(i) == a)
    else:
        st0, args = i, [s.p, i, a, bs]
        c.assume(a <= (1 << 50), a >= -(1 << 50), F(i) == -a)
    end = block(c, st0, bs)
    hit = lambda q: F(q + 1) == 0
    c.assume(L(m, s.n), U(st0, m), z3.Or(hit(m), U(end, s.n)))
    c.s, c.x, c.m, c.st0, c.end, c.hit, c.kind, c.a = s, x, m, st0, end, hit, kind, a
    c.e.fw = c
    for st, r in c.call(kind, args):
        r = B(r, 64)
        c.reach(st, kind)
        none = i if kind == 'find_close' else i - 1
        c.ensures(st, 'an answer is a position of the block with the searched excess', z3.Or(r == none, z3.And(U(st0, r), L(r, end), hit(r))))
        c.ensures(st, 'no position before the answer has it', z3.Implies(z3.And(U(st0, x), L(x, end), z3.Or(r == none, L(x, r))), z3.Not(hit(x))))
        c.ensures(st, 'an answer is inside the sequence', z3.Or(r == none, L(r, s.n)))


def f_inv(byte, last):
    def inv(Lc):
        c = Lc.eng.fw
        s, j = c.s, Lc.v(nth_var(Lc, 'j', 1 if byte else 2 if last else 0))
        ex = Lc.v('excess')
        Lc.st.assume(z3.And(s.byte(j) if byte else s.step(j), s.small(j)))
        if c.kind == 'fwd_excess':
            rel = [('excess left', ex == (8 if byte else 0) - F(j))]
        else:
            rel = [('excess left', ex == F(j) - (c.a if c.kind == 'find_closing' else 0)), ('not reached', F(j) >= 1)]
        e8 = z3.LShR(c.end, 3) << 3
        l8 = z3.LShR(c.st0 + 7, 3) << 3
        r = rel + [('range', z3.And(U(c.st0, j), U(j, z3.If(L(c.end, l8), c.end, l8) if not byte and not last else (z3.If(L(e8, l8), l8, e8) if byte else z3.If(L(c.end, l8), l8, c.end)))))]
        if byte:
            r.append(('aligned', j & 7 == 0))
        if last:
            r.append(('last part', U(z3.If(L(e8, l8), l8, e8), j)))
        for nm, q in (('x', c.x), ('m', c.m)):
            for wh, g in [('', L(q, j))] if not byte or nm == 'm' else [(' further', L(q, j - 8))] + [(' %d' % k, q == j - 8 + k) for k in range(8)]:
                r.append(('no answer before: ' + nm + wh, z3.Implies(z3.And(U(c.st0, q), L(q, j), L(q, c.end), g), F(q + 1) != 0 if c.kind == 'fwd_excess' else F(q + 1) >= 1)))
        return r
    return inv


FL = [LoopSpec(r'near_(find_close|find_closing|fwd_excess)\(', k, f_inv(k == 1, k == 2), (lambda k: lambda Lc: Z(1 << 60) - Lc.v(nth_var(Lc, 'j', k)))(k), vars=('j', 'excess')) for k in range(3)]


def bwd(c, kind, bs):
    s = Seq(c)
    lemmas(c)
    i, a, x = c.bv('i'), c.bv('arg'), c.bv('x')
    c.assume(L(i, s.n))
    if kind == 'find_open':
        start, args, none = i - 1, [s.p, i, bs], i
        c.assume(U(1, i), F(i) == 1)
    elif kind == 'find_opening':
        start, args, none = i, [s.p, i, a, bs], i + 1
        c.assume(U(1, a), U(a, 1 << 50), F(i + 1) == a)
    else:
        start, args, none = i + 1, [s.p, i, a, bs], i + 1
        c.assume(L(i + 1, s.n), a <= (1 << 50), a >= -(1 << 50), F(i + 2) == -a)
    f = start if kind != 'bwd_excess' else i
    end = block(c, f, bs)
    begin = z3.UDiv(f, Z(bs)) * Z(bs)
    c.assume(U(begin, f), U(f, begin + bs))
    c.start, c.begin, c.s, c.x, c.kind, c.a, c.f = start, begin, s, x, kind, a, f
    c.e.fw = c
    y = c.bv('y')
    c.ensures(State(), 'lemma: begin of block', z3.Implies(U(y, 1 << 51), z3.And(U(z3.UDiv(y, Z(bs)) * Z(bs), y), U(y, z3.UDiv(y, Z(bs)) * Z(bs) + bs))))
    for st, r in c.call(kind, args):
        r = B(r, 64)
        c.reach(st, kind)
        pos = r if kind != 'bwd_excess' else r + 1
        nf = r == none
        if kind == 'bwd_excess':
            nf = z3.Or(nf, z3.And(begin == 0, a == -1, r == -1, F(0) != 0))
        hit = z3.And(U(begin, pos), U(pos, start), F(pos) == 0)
        c.ensures(st, 'an answer is a position of the block with the searched excess', z3.Or(nf, hit))
        c.ensures(st, 'no position behind the answer has it', z3.Implies(z3.And(U(begin, x), U(x, start), z3.Or(nf, L(pos, x))), z3.Or(F(x) != 0, z3.And(hit, x == pos))))


def b_inv(byte, last):
    def inv(Lc):
        c = Lc.eng.fw
        s, j = c.s, Lc.v(nth_var(Lc, 'j', 1 if byte else 2 if last else 0))
        ex = Lc.v('excess')
        r8, l8 = z3.LShR(c.f, 3) << 3, z3.LShR(c.begin + 7, 3) << 3
        mx = lambda u, v: z3.If(u <= v, v, u)
        long = l8 <= r8
        if byte:
            cases = [(' long', long, j + 8), (' short', r8 < l8, c.begin)]
        elif last:
            cases = [(' long', long, j + 1), (' short', r8 < l8, c.begin)]
        else:
            cases = [('', z3.BoolVal(True), j + 1)]
        Lc.st.assume(s.byte(j) if byte else s.step(j))
        r = []
        for nm, h, P in cases:
            Lc.st.assume(s.small(P))
            off = c.a if c.kind == 'find_opening' else Z(8 if byte and c.kind == 'bwd_excess' else 0)
            r.append(('excess left' + nm, z3.Implies(h, ex == off - F(P))))
            if c.kind != 'bwd_excess':
                r.append(('not reached' + nm, z3.Implies(h, F(P) >= 1)))
            for wh, g in [('', True)] if not byte or nm == ' short' else [(' further', P + 8 <= c.x)] + [(' %d' % k, c.x == P + k) for k in range(8)]:
                r.append(('no answer behind' + wh + nm, z3.Implies(z3.And(h, U(P, c.x), U(c.x, c.start), g), F(c.x) != 0 if c.kind == 'bwd_excess' else F(c.x) >= 1)))
        if byte:
            r += [('aligned', j & 7 == 0), ('range', z3.And(j <= r8 - 8, z3.If(long, j >= l8 - 8, j == r8 - 8)))]
        elif last:
            r += [('range', z3.And(j <= z3.If(long, l8, r8) - 1, j >= z3.If(long, c.begin, r8) - 1))]
        else:
            r += [('range', z3.And(j <= c.start, j >= mx(r8, c.begin) - 1))]
        return r
    return inv


BL = [LoopSpec(r'near_(find_open|find_opening|bwd_excess)\(', k, b_inv(k == 1, k == 2), (lambda k: lambda Lc: Lc.v(nth_var(Lc, 'j', k)) + (1 << 52))(k), vars=('j', 'excess')) for k in range(3)]


def tasks(tier):
    if not PARTS:
        dump()
    r = []
    for bs in (256,) if tier != 'thorough' else (840, 256, 37, 1, 7, 64):
        r += [('%s%d' % (k, bs), fwd, (k, bs), '') for k in ('find_close', 'find_closing', 'fwd_excess') if tier == 'thorough' or k != 'find_closing']
        r += [('%s%d' % (k, bs), bwd, (k, bs), '') for k in ('find_open', 'find_opening', 'bwd_excess') if tier == 'thorough' or k != 'find_opening']
    return r


def config(name, fn, args, cfg):
    return dict(tables=TABLES + XT, contracts=AT + BITS, externs=XEXT, loops=FL + BL)
