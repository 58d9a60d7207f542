"""Symbolic executor over LLVM IR: generates proof obligations function by function.

Calls with a contract use the contract (requires checked, ensures assumed), other calls to
functions of the module are inlined (so that extracting a helper changes nothing), loops with
an invariant are cut, other loops are unrolled completely or the function is undecided."""
import re
import subprocess
import time
import z3
from . import irparse
from .irparse import IRError
from .vals import *


class Region:
    pass


class Obj(Region):
    """object with concretely addressed slots: offset -> (size, value)"""
    __slots__ = ('name', 'size', 's', 'ro', 'live')

    def __init__(self, name, size, s=None, ro=False, live=True):
        self.name, self.size, self.s, self.ro, self.live = name, size, s if s is not None else {}, ro, live

    def clone(self):
        return Obj(self.name, self.size, dict(self.s), self.ro, self.live)


class Arr(Region):
    """array of es-byte elements; n elements (term or callable of the family index)"""
    __slots__ = ('name', 'es', 'a', 'n', 'ro', 'live', 'fam')

    def __init__(self, name, es, a, n, ro=False, live=True, fam=False):
        self.name, self.es, self.a, self.n, self.ro, self.live, self.fam = name, es, a, n, ro, live, fam

    def clone(self):
        return Arr(self.name, self.es, self.a, self.n, self.ro, self.live, self.fam)


class Raw(Region):
    """freshly allocated memory whose element size is not known yet"""
    __slots__ = ('name', 'size', 'live', 'fill')

    def __init__(self, name, size, fill=None):
        self.name, self.size, self.live, self.fill = name, size, True, fill

    def clone(self):
        r = Raw(self.name, self.size, self.fill)
        r.live = self.live
        return r


class FamObj(Region):
    """array of objects of `stride` bytes: slot offset -> (size, z3 array over the index | ('ptr', rid))"""
    __slots__ = ('name', 'stride', 's', 'n', 'live', 'ro')

    def __init__(self, name, stride, n, s):
        self.name, self.stride, self.n, self.s, self.live, self.ro = name, stride, n, s, True, False

    def clone(self):
        r = FamObj(self.name, self.stride, self.n, dict(self.s))
        r.live = self.live
        return r


class Lazy(Region):
    """constant global with many entries, read through a checked table specification"""
    __slots__ = ('name', 'es', 'vals', 'gname', 'ro', 'live')

    def __init__(self, name, es, vals):
        self.name, self.es, self.vals, self.ro, self.live = name, es, vals, True, True

    def clone(self):
        return self


class Multi(Lazy):
    """global holding several tables: parts = [(offset, Lazy)]"""
    __slots__ = ('parts',)

    def __init__(self, name, parts):
        Lazy.__init__(self, name, 1, [])
        self.parts = parts


class Quant:
    """forall k: fn(k); instantiated at the index terms logged under `tags`"""
    __slots__ = ('tags', 'fn', 'derived', 'ar')

    def __init__(self, tags, fn, derived=None, ar=1):
        self.tags = (tags,) if isinstance(tags, str) else tuple(tags)
        self.fn, self.derived, self.ar = fn, derived, ar


class Frame:
    __slots__ = ('fn', 'env', 'blk', 'ip', 'prev', 'loc', 'cuts', 'visits', 'ret', 'args', 'uid', 'tmp')

    def copy(self):
        f = Frame()
        f.fn, f.env, f.blk, f.ip, f.prev = self.fn, dict(self.env), self.blk, self.ip, self.prev
        f.loc, f.cuts, f.visits, f.ret, f.args = dict(self.loc), dict(self.cuts), dict(self.visits), self.ret, self.args
        f.uid, f.tmp = self.uid, list(self.tmp)
        return f


class State:
    def __init__(self):
        self.frames, self.pc, self.mem, self.facts, self.terms = [], [], {}, [], {}
        self.ghost = {}
        self.outcome = None
        self.retval = None
        self.trace = ()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.pc, s.mem, s.facts = list(self.pc), dict(self.mem), list(self.facts)
        s.terms = {k: list(v) for k, v in self.terms.items()}
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    def assume(self, c):
        c = normb(c)
        if c is True:
            return
        self.pc.append(Bo(c))

    def use(self, tag, t):
        if isinstance(t, Lin):
            t = t.bv()
        if isinstance(t, int):
            t = z3.BitVecVal(t, 64)
        l = self.terms.setdefault(tag, [])
        for x in l:
            if x.eq(t):
                return
        l.append(t)


class Obligation:
    __slots__ = ('name', 'kind', 'pc', 'facts', 'terms', 'goal', 'where', 'status', 'backend', 'time', 'model', 'fn', 'nt')

    def __init__(self, name, kind, st, goal, where, fn):
        self.name, self.kind, self.goal, self.where, self.fn = name, kind, goal, where, fn
        self.pc, self.facts = list(st.pc), list(st.facts)
        self.terms = {k: list(v) for k, v in st.terms.items()}
        self.status = None
        self.backend, self.time, self.model = None, 0.0, None


class LoopSpec:
    """inv(L) -> list of (name, formula | Quant); variant(L) -> 64-bit term that decreases (unsigned) or None;
    `frame`: optional restriction is not needed, the write set is computed."""

    def __init__(self, fn, idx, inv, variant=None, hint=None, modifies=None, vars=()):
        self.fn, self.idx, self.inv, self.variant, self.hint = re.compile(fn), idx, inv, variant, hint
        self.vars = vars
        self.used = 0


class LoopCtx:
    def __init__(self, eng, st, entry=None, ghosts=None):
        self.eng, self.st, self.entry = eng, st, entry
        self.fr = st.frames[-1]

    def _slot(self, st, name):
        fr = st.frames[-1]
        for nm in (name, name + '.addr'):
            if nm in fr.loc:
                p = fr.loc[nm]
                r = st.mem[p.r]
                if isinstance(r, Obj) and 0 in r.s:
                    return r.s[0][1], r.s[0][0]
                if isinstance(r, Obj):
                    raise Undecided('variable %s has no value yet' % name)
                return p, 8
        raise Undecided('no variable %s in %s' % (name, fr.fn.name))

    def raw(self, name):
        return self._slot(self.st, name)[0]

    def v(self, name):
        """value of the variable, widened to 64 bits (zero extension)"""
        x, s = self._slot(self.st, name)
        return self._w(x, s)

    def _w(self, x, s):
        if isinstance(x, (Ptr, PInt, FnPtr)):
            return x
        if isinstance(x, (bool, z3.BoolRef)):
            return B(x, 64)
        if s < 8:
            x = zext(x, 8 * s, 64)
        return B(x, 64)

    def old(self, name):
        x, s = self._slot(self.entry, name)
        return self._w(x, s)

    def has(self, name):
        return name in self.fr.loc or name + '.addr' in self.fr.loc

    def local(self, name):
        """Ptr of the local variable's storage"""
        for nm in (name, name + '.addr'):
            if nm in self.fr.loc:
                return self.fr.loc[nm]
        raise Undecided('no variable %s' % name)

    def arr(self, p):
        """current array term of the region p points into"""
        return self.eng.arr_of(self.st, p)

    def field(self, p, off, size):
        return self.eng.load_raw(self.st, p.addc(off), size)


class PathEnd(Exception):
    pass


def is_small(v):
    """a zero-extended byte"""
    return isinstance(v, int) or (z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) and v.arg(0).size() <= 8)


_dem = {}


def demangle(names):
    names = [n for n in names if n not in _dem]
    if names:
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out):
            _dem[n] = d


def dem(n):
    if n not in _dem:
        demangle([n])
    return _dem[n]


class Engine:
    def __init__(self, mod, contracts=(), loops=(), tables=(), externs=None, max_unroll=700, feas_ms=600, safety=True, mul_uf=False):
        self.mul_uf = mul_uf
        self.mod = mod
        self.contracts = list(contracts)
        self.loopspecs = list(loops)
        self.tables = list(tables)
        self.externs = externs or {}
        self.max_unroll = max_unroll
        self.obs = []
        self.quiet = 0
        self.wlogs = []
        self.feas_ms = feas_ms
        self.fs = None
        self.fstack = []
        self.nq = 0
        self.qtime = 0.0
        self.steps = 0
        self.step_limit = 4_000_000
        self.deadline = None
        self.rid = 0
        self.used_contracts, self.inlined, self.table_checks, self.used_externs = set(), set(), {}, set()
        self.cmatch = {}
        self.safety = safety
        self.fuid = 0
        self.cur = '?'
        self.gptr = {}
        self.nloops_cut = 0
        self.nloops_unrolled = 0
        self.addr_pinned = {}

    # ---------------------------------------------------------------- solver for feasibility
    def feasible(self, st, extra=()):
        cs = st.pc + [Bo(x) for x in extra]
        if self.fs is None:
            self.fs = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
            self.fs.set('timeout', self.feas_ms)
        k = 0
        while k < len(self.fstack) and k < len(cs) and self.fstack[k].eq(cs[k]):
            k += 1
        if len(self.fstack) > k:
            self.fs.pop(len(self.fstack) - k)
            del self.fstack[k:]
        for c in cs[k:]:
            self.fs.push()
            self.fs.add(c)
            self.fstack.append(c)
        t = time.time()
        r = self.fs.check()
        self.qtime += time.time() - t
        self.nq += 1
        return r != z3.unsat

    def valid(self, st, goal):
        """quick proof attempt of a quantifier-free goal from the path condition alone"""
        return not self.feasible(st, [z3.Not(Bo(goal))])

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, name, kind, goal, fn=None):
        if self.quiet:
            return
        if isinstance(goal, Quant):
            ks = [fresh('sk', 64) for _ in range(goal.ar)]
            for tg in goal.tags:
                for k in ks:
                    st.use(tg, k)
            if goal.derived:
                for tg, t in goal.derived(*ks):
                    st.use(tg, t)
            g = goal.fn(*ks)
            st.nt = None
            self.oblige(st, name, kind, g, fn)
            return
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                self.oblige(st, '%s.%d' % (name, i), kind, g, fn)
            return
        goal = normb(goal)
        if not isinstance(goal, bool):
            goal = normb(z3.simplify(goal))
        o = Obligation(name, kind, st, goal, self.where(st), fn or self.cur)
        if goal is True:
            o.status, o.backend = 'proved', 'simplifier'
        self.obs.append(o)

    def where(self, st):
        if not st.frames:
            return ''
        fr = st.frames[-1]
        return '%s/%s' % (fr.fn.name, fr.blk)

    def safety_check(self, st, name, goal):
        """memory-safety / undefined-behaviour obligation, then assume it"""
        goal = normb(goal)
        if goal is True:
            return
        if not self.safety:
            return
        self.oblige(st, name, 'safety', goal)
        if goal is False:
            raise PathEnd('definitely unsafe: ' + name)
        st.assume(goal)

    # ---------------------------------------------------------------- regions
    def new_region(self, st, reg):
        self.rid += 1
        r = 'R%d' % self.rid
        st.mem[r] = reg
        return Ptr(r)

    def new_obj(self, st, name, size, slots=None, ro=False):
        return self.new_region(st, Obj(name, size, slots, ro))

    def new_arr(self, st, name, es, n, a=None, ro=False, fam=False):
        if a is None:
            a = z3.Array(fresh_name(name), z3.BitVecSort(128 if fam else 64), z3.BitVecSort(8 * es))
        return self.new_region(st, Arr(name, es, a, n, ro, fam=fam))

    def region(self, st, p):
        if not isinstance(p, Ptr):
            raise Undecided('dereference of %r' % (p,))
        if p.r is None:
            self.oblige(st, 'null-dereference', 'safety', False)
            raise PathEnd('null dereference')
        r = st.mem.get(p.r)
        if r is None:
            raise Undecided('dangling region ' + str(p.r))
        if not r.live:
            self.oblige(st, 'use-after-free', 'safety', False)
            raise PathEnd('use after free')
        return r

    def mut(self, st, rid):
        r = st.mem[rid].clone()
        st.mem[rid] = r
        return r

    def wlog(self, rid, key):
        for l in self.wlogs:
            l.add((rid, key))

    def arr_of(self, st, p):
        r = self.region(st, p)
        if isinstance(r, Arr):
            return r.a
        if isinstance(r, Raw):
            return self.settle(st, p, 8).a
        raise Undecided('not an array: %r' % (r,))

    def settle(self, st, p, s):
        """Raw memory gets its element size at the first access"""
        r = st.mem[p.r]
        sz = r.size
        n = None
        if isinstance(sz, int):
            if sz % s == 0:
                n = z3.BitVecVal(sz // s, 64)
        else:
            q = sz.div(s) if isinstance(sz, Lin) else None
            if q is not None:
                n = B(q, 64)
        if n is None:
            n = z3.UDiv(B(sz, 64), z3.BitVecVal(s, 64))
        if r.fill is not None:
            a = z3.K(z3.BitVecSort(64), z3.BitVecVal(r.fill, 8 * s))
        else:
            a = z3.Array(fresh_name(r.name), z3.BitVecSort(64), z3.BitVecSort(8 * s))
        na = Arr(r.name, s, a, n)
        st.mem[p.r] = na
        return na

    def to_arr(self, st, p, s):
        """object accessed at a symbolic offset: turn into an array of s-byte elements"""
        r = st.mem[p.r]
        if r.size % s:
            raise Undecided('symbolic access to object %s' % r.name)
        a = z3.Array(fresh_name(r.name), z3.BitVecSort(64), z3.BitVecSort(8 * s))
        for off, (sz, v) in sorted(r.s.items()):
            if sz == s and off % s == 0:
                a = z3.Store(a, z3.BitVecVal(off // s, 64), B(v, 8 * s))
            elif sz > s and sz % s == 0 and off % s == 0:
                for k in range(sz // s):
                    a = z3.Store(a, z3.BitVecVal(off // s + k, 64), B(self.part(v, sz, k * s, s), 8 * s))
            else:
                raise Undecided('symbolic access to object %s with mixed slots' % r.name)
        na = Arr(r.name, s, a, z3.BitVecVal(r.size // s, 64), r.ro)
        st.mem[p.r] = na
        return na

    @staticmethod
    def part(v, sz, off, s):
        if isinstance(v, (bool, z3.BoolRef)):
            v = zext(v, 1, 8 * sz)
        if isinstance(v, int):
            return (v >> (8 * off)) & mask(8 * s)
        if isinstance(v, Opaque):
            return v
        if isinstance(v, (Ptr, PInt, FnPtr)):
            raise Undecided('partial access to a pointer')
        return norm(z3.simplify(z3.Extract(8 * off + 8 * s - 1, 8 * off, B(v, 8 * sz))))

    # ---------------------------------------------------------------- loads and stores
    def load_raw(self, st, p, s):
        """s bytes at p: int / term / Ptr"""
        r = self.region(st, p)
        if isinstance(r, Raw):
            if p.o.const() and isinstance(r.size, int) and r.size <= 65536 and r.fill is None:
                r = st.mem[p.r] = Obj(r.name, r.size)
            else:
                r = self.settle(st, p, s)
        if isinstance(r, Multi):
            o, r = [x for x in r.parts if x[0] <= max(p.o.c, 0)][-1]
            p = p.addc(-o)
        if isinstance(r, Lazy):
            return self.load_table(st, r, p, s)
        if isinstance(r, Obj):
            if not p.o.const():
                r = self.to_arr(st, p, s)
            else:
                return self.load_obj(st, p.r, r, p.o.c, s)
        if isinstance(r, FamObj):
            return self.load_fam(st, r, p, s)
        return self.load_arr(st, r, p, s)

    def load_obj(self, st, rid, r, off, s):
        if off < 0 or off + s > r.size:
            self.oblige(st, 'out-of-bounds read of %s (offset %d of %d)' % (r.name, off, r.size), 'safety', False)
            raise PathEnd('oob')
        x = r.s.get(off)
        if x is not None:
            if x[0] == s:
                return x[1]
            if x[0] > s:
                return self.part(x[1], x[0], 0, s)
        # inside a larger slot?
        for o2, (s2, v2) in r.s.items():
            if o2 <= off and off + s <= o2 + s2:
                return self.part(v2, s2, off - o2, s)
        # concatenation of smaller slots
        parts, o = [], off
        while o < off + s:
            y = r.s.get(o)
            if y is None or o + y[0] > off + s:
                break
            parts.append(y)
            o += y[0]
        if o == off + s and parts:
            t = None
            for sz, v in parts:
                t = B(v, 8 * sz) if t is None else z3.Concat(B(v, 8 * sz), t)
            return norm(z3.simplify(t))
        overl = [o2 for o2, (s2, _) in r.s.items() if o2 < off + s and off < o2 + s2]
        if overl:
            if s > 8 or True:
                # partially initialised: fill the holes with unknown bytes
                o = off
                n = self.mut(st, rid)
                while o < off + s:
                    y = n.s.get(o)
                    if y is None:
                        inside = [(o2, s2) for o2, (s2, _) in n.s.items() if o2 < o < o2 + s2]
                        if inside:
                            raise Undecided('misaligned access')
                        n.s[o] = (1, fresh('uninit', 8))
                        o += 1
                    else:
                        if o + y[0] > off + s:
                            raise Undecided('misaligned access')
                        o += y[0]
                return self.load_obj(st, rid, n, off, s)
        # uninitialised
        v = fresh('uninit_' + r.name, 8 * s)
        n = self.mut(st, rid)
        n.s[off] = (s, v)
        return v

    def idx(self, p, es):
        q = p.o.div(es)
        return q

    def bound(self, st, r, p, ix, what, cnt=1):
        n = r.n(p.f) if callable(r.n) else r.n
        n = B(n, 64)
        i = B(ix, 64) if not isinstance(ix, Lin) else B(ix.bv(), 64)
        if cnt == 1:
            g = z3.ULT(i, n)
        else:
            g = z3.And(z3.ULE(z3.BitVecVal(cnt, 64), n), z3.ULE(i, n - cnt))
        self.safety_check(st, '%s in bounds: %s' % (what, r.name), normb(z3.simplify(g)))

    def sel(self, r, p, i):
        if r.fam:
            return z3.Select(r.a, z3.Concat(B(p.f[0], 64), i))
        return z3.Select(r.a, i)

    def load_arr(self, st, r, p, s):
        es = r.es
        q = p.o.div(es)
        if q is not None and s == es:
            i = B(q, 64)
            self.bound(st, r, p, i, 'read')
            st.use(r.name, i)
            return norm(z3.simplify(self.sel(r, p, i))) if z3.is_bv_value(i) else self.sel(r, p, i)
        if s < es:
            # element and byte within
            if q is not None:
                base, sh = q, 0
            else:
                sh = p.o.c % es
                base = p.o.addc(-sh).div(es)
            if base is not None and sh + s <= es:
                i = B(base, 64)
                self.bound(st, r, p, i, 'read')
                st.use(r.name, i)
                return norm(z3.simplify(z3.Extract(8 * (sh + s) - 1, 8 * sh, self.sel(r, p, i))))
            if es % s == 0:
                q2 = p.o.div(s)
                if q2 is not None:
                    t = B(q2, 64)
                    k = (es // s).bit_length() - 1
                    i = z3.simplify(z3.LShR(t, k))
                    self.bound(st, r, p, i, 'read')
                    st.use(r.name, i)
                    e = self.sel(r, p, i)
                    sub = t & (es // s - 1)
                    amt = sub * (8 * s)
                    if 8 * es < 64:
                        amt = z3.Extract(8 * es - 1, 0, amt)
                    return z3.Extract(8 * s - 1, 0, z3.LShR(e, amt))
        if s > es and s % es == 0 and q is not None:
            i = B(q, 64)
            k = s // es
            self.bound(st, r, p, i, 'read', k)
            t = None
            for j in range(k):
                st.use(r.name, z3.simplify(i + j))
                e = self.sel(r, p, z3.simplify(i + j))
                t = e if t is None else z3.Concat(e, t)
            return t
        raise Undecided('access of %d bytes at %r in array of %d-byte elements' % (s, p.o, es))

    def load_fam(self, st, r, p, s):
        off = p.o.c % r.stride
        base = p.o.addc(-off).div(r.stride)
        if base is None:
            raise Undecided('object-array access at %r' % (p.o,))
        i = B(base, 64)
        self.bound(st, r, p, i, 'read')
        st.use(r.name, i)
        x = r.s.get(off)
        if x is None or x[0] < s:
            raise Undecided('object-array slot %d of %s' % (off, r.name))
        if isinstance(x[1], tuple):
            return Ptr(x[1][1], Lin(), (i,))
        v = z3.Select(x[1], i)
        if x[0] > s:
            v = z3.Extract(8 * s - 1, 0, v)
        return v

    def load(self, st, p, t):
        t = self.mod.T(t)
        k = t[0]
        if k == 'ptr':
            v = self.load_raw(st, p, 8)
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, PInt):
                return v.p
            return v
        if k == 'i':
            s = self.mod.size(t)
            v = self.load_raw(st, p, s)
            if isinstance(v, Ptr):
                return PInt(v) if v.r is not None else 0
            if t[1] == 1:
                return trunc(v, 8, 1) if not isinstance(v, (bool, z3.BoolRef)) else v
            if t[1] < 8 * s:
                return trunc(v, 8 * s, t[1])
            return v
        if k in ('double', 'float', 'x86_fp80'):
            v = self.load_raw(st, p, self.mod.size(t))
            return v
        if k in ('struct', 'arr'):
            n = len(t[1]) if k == 'struct' else t[1]
            r = []
            for j in range(n):
                et = t[1][j] if k == 'struct' else t[2]
                off = self.mod.field_off(t, j) if k == 'struct' else j * self.mod.size(et)
                r.append(self.load(st, p.addc(off), et))
            return tuple(r)
        raise Undecided('load of %r' % (t,))

    def store(self, st, p, t, v):
        t = self.mod.T(t)
        if t[0] in ('struct', 'arr'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for j in range(n):
                et = t[1][j] if t[0] == 'struct' else t[2]
                off = self.mod.field_off(t, j) if t[0] == 'struct' else j * self.mod.size(et)
                self.store(st, p.addc(off), et, v[j])
            return
        s = self.mod.size(t)
        if t[0] == 'i':
            if t[1] == 1:
                v = zext(v, 1, 8)
            elif t[1] < 8 * s:
                v = zext(v, t[1], 8 * s)
            if isinstance(v, bool):
                v = int(v)
        self.store_raw(st, p, s, v)

    def store_raw(self, st, p, s, v):
        r = self.region(st, p)
        if isinstance(r, Raw):
            if p.o.const() and isinstance(r.size, int) and r.size <= 65536 and r.fill is None:
                r = st.mem[p.r] = Obj(r.name, r.size)
            else:
                r = self.settle(st, p, s)
        if getattr(r, 'ro', False):
            self.oblige(st, 'frame: write to read-only %s' % r.name, 'frame', False)
            raise PathEnd('read-only')
        if isinstance(r, Obj):
            if p.o.const():
                off = p.o.c
                if off < 0 or off + s > r.size:
                    self.oblige(st, 'out-of-bounds write of %s (offset %d of %d)' % (r.name, off, r.size), 'safety', False)
                    raise PathEnd('oob')
                n = self.mut(st, p.r)
                self.wlog(p.r, (off, s))
                x = n.s.get(off)
                if x is not None and x[0] == s:
                    n.s[off] = (s, v)
                    return
                # split overlapping slots
                for o2 in [o for o, (s2, _) in n.s.items() if o < off + s and off < o + s2]:
                    s2, v2 = n.s.pop(o2)
                    if o2 < off:
                        n.s[o2] = (off - o2, self.part(v2, s2, 0, off - o2))
                    if o2 + s2 > off + s:
                        n.s[off + s] = (o2 + s2 - off - s, self.part(v2, s2, off + s - o2, o2 + s2 - off - s))
                n.s[off] = (s, v)
                return
            r = self.to_arr(st, p, s)
        if not isinstance(r, Arr):
            raise Undecided('store into %s' % type(r).__name__)
        self.store_arr(st, r, p, s, v)

    def store_arr(self, st, r, p, s, v):
        es = r.es
        q = p.o.div(es)
        n = self.mut(st, p.r)
        self.wlog(p.r, None)

        def ups(i, e):
            if r.fam:
                i = z3.Concat(B(p.f[0], 64), i)
            n.a = z3.Store(n.a, i, e)
        if q is not None and s == es:
            i = B(q, 64)
            self.bound(st, r, p, i, 'write')
            st.use(r.name, i)
            ups(i, B(v, 8 * es))
            return
        if s < es and es % s == 0:
            sh = p.o.c % es
            base = p.o.addc(-sh).div(es)
            if base is not None and sh + s <= es:
                i = B(base, 64)
                self.bound(st, r, p, i, 'write')
                st.use(r.name, i)
                e = self.sel(r, p, i)
                m = z3.BitVecVal(mask(8 * s) << (8 * sh), 8 * es)
                ups(i, (e & ~m) | (z3.ZeroExt(8 * es - 8 * s, B(v, 8 * s)) << (8 * sh)))
                return
            q2 = p.o.div(s)
            if q2 is not None:
                t = B(q2, 64)
                k = (es // s).bit_length() - 1
                i = z3.simplify(z3.LShR(t, k))
                self.bound(st, r, p, i, 'write')
                st.use(r.name, i)
                e = self.sel(r, p, i)
                amt = (t & (es // s - 1)) * (8 * s)
                if 8 * es < 64:
                    amt = z3.Extract(8 * es - 1, 0, amt)
                m = z3.BitVecVal(mask(8 * s), 8 * es) << amt
                ups(i, (e & ~m) | (z3.ZeroExt(8 * es - 8 * s, B(v, 8 * s)) << amt))
                return
        if s > es and s % es == 0 and q is not None:
            i = B(q, 64)
            k = s // es
            self.bound(st, r, p, i, 'write', k)
            for j in range(k):
                st.use(r.name, z3.simplify(i + j))
                ups(z3.simplify(i + j), B(self.part(v, s, j * es, es), 8 * es))
            return
        raise Undecided('store of %d bytes at %r in array of %d-byte elements' % (s, p.o, es))

    # ---------------------------------------------------------------- globals and tables
    def gval(self, st, name):
        name = self.mod.resolve(name)
        if self.mod.func(name) is not None or name in self.mod.decls:
            return FnPtr(name)
        key = 'G:' + name
        if key in st.mem:
            return Ptr(key)
        g = self.mod.global_info(name)
        if g is None:
            raise Undecided('unknown global ' + name)
        ext, const, t, init = g
        sz = self.mod.size(t)
        if const and init is not None:
            fl = {}
            self.flatten(st, t, init, 0, fl)
            szs = {s for s, _ in fl.values()}
            ints = all(isinstance(v, int) for _, v in fl.values())
            if ints and len(szs) == 1 and len(fl) > 8:
                es = szs.pop()
                st.mem[key] = Lazy(name, es, [fl.get(i * es, (es, 0))[1] for i in range(sz // es)])
            else:
                st.mem[key] = Obj(name, sz, fl, ro=True)
        else:
            gi = self.globals_init(st, name, t, init)
            st.mem[key] = gi
        return Ptr(key)

    def globals_init(self, st, name, t, init):
        for pat, mk in self.externs.get('globals', ()):
            if re.search(pat, name):
                return mk(self, st, name, t)
        r = Obj(name, self.mod.size(t))
        if name.startswith('_ZGV') or (init is not None and self.externs.get('trust_init')):
            fl = {}
            self.flatten(st, t, init, 0, fl)
            r.s = fl
        return r

    def flatten(self, st, t, v, off, out):
        t = self.mod.T(t)
        if t[0] in ('struct', 'arr'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            if v[0] == 'cstr':
                for j, c in enumerate(v[1]):
                    out[off + j] = (1, c)
                return
            for j in range(n):
                et = t[1][j] if t[0] == 'struct' else t[2]
                o = self.mod.field_off(t, j) if t[0] == 'struct' else j * self.mod.size(et)
                x = v if v[0] in ('zero', 'undef', 'poison') else v[1][j]
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple):
                    x = x[1]
                self.flatten(st, et, x, off + o, out)
            return
        if v[0] in ('undef', 'poison'):
            return
        out[off] = (self.mod.size(t), self.const(st, t, v))

    def load_table(self, st, r, p, s):
        if s != r.es:
            raise Undecided('table access of %d bytes' % s)
        q = p.o.div(s)
        if q is None:
            raise Undecided('table access')
        if q.const():
            if not 0 <= q.c < len(r.vals):
                self.oblige(st, 'table read in bounds: ' + r.name, 'safety', False)
                raise PathEnd('oob table')
            return r.vals[q.c]
        i = B(q, 64)
        n = len(r.vals)
        self.safety_check(st, 'table read in bounds: ' + dem(r.name), z3.ULT(i, z3.BitVecVal(n, 64)))
        for t in self.tables:
            if re.search(t[0], r.name):
                if r.name not in self.table_checks:
                    bad = [k for k in range(n) if t[1](k) is not None and t[1](k) & mask(8 * s) != r.vals[k]]
                    self.table_checks[r.name] = (n, bad)
                if self.table_checks[r.name][1]:
                    break
                return t[2](st, i)
        w = 8 * s

        # balanced tree over index bits
        def tree(lo, hi, vs):
            if all(x == vs[0] for x in vs):
                return z3.BitVecVal(vs[0], w)
            h = 1
            while h * 2 < len(vs):
                h *= 2
            return z3.If(z3.ULT(i, z3.BitVecVal(lo + h, 64)), tree(lo, lo + h, vs[:h]), tree(lo + h, hi, vs[h:]))
        if n > 4096:
            raise Undecided('large table without specification: ' + r.name)
        return tree(0, n, r.vals)

    # ---------------------------------------------------------------- values
    def const(self, st, t, v):
        k = v[0]
        t = self.mod.T(t)
        if k == 'int':
            if t[0] == 'i':
                x = v[1] & mask(t[1])
                return bool(x) if t[1] == 1 else x
            return v[1]
        if k == 'null':
            return NULL
        if k == 'zero':
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'i':
                return False if t[1] == 1 else 0
            if t[0] == 'struct':
                return tuple(self.const(st, x, v) for x in t[1])
            if t[0] == 'arr':
                return tuple(self.const(st, t[2], v) for _ in range(t[1]))
            return Opaque('zero fp')
        if k in ('undef', 'poison'):
            if t[0] == 'i':
                return fresh('undef', t[1]) if t[1] > 1 else z3.Bool(fresh_name('undef'))
            if t[0] == 'struct':
                return tuple(self.const(st, x, v) for x in t[1])
            if t[0] == 'arr':
                return tuple(self.const(st, t[2], v) for _ in range(t[1]))
            return Opaque('undef')
        if k == 'global':
            return self.gval(st, v[1])
        if k == 'cgep':
            base = self.const(st, v[2][0][0], v[2][0][1])
            return self.gep(st, v[1], base, [(a, self.const(st, a, b)) for a, b in v[2][1:]])
        if k == 'ccast':
            x = self.const(st, v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        if k == 'agg':
            return tuple(self.const(st, *(x if isinstance(x[0], tuple) else (t[2] if t[0] == 'arr' else t[1][j], x)))
                         for j, x in enumerate(v[1]))
        if k == 'fp' or t[0] in ('double', 'float', 'x86_fp80'):
            return Opaque('fp constant')
        raise Undecided('constant %r' % (v,))

    def val(self, st, t, v):
        if v[0] == 'local':
            try:
                return st.frames[-1].env[v[1]]
            except KeyError:
                raise Undecided('undefined local %' + v[1])
        if v[0] == 'int':
            x = v[1]
            if t[0] == 'i':
                if t[1] == 1:
                    return bool(x & 1)
                return x & mask(t[1])
            return x
        return self.const(st, t, v)

    def gep(self, st, t, base, idx):
        if not isinstance(base, Ptr):
            if isinstance(base, Opaque):
                return base
            raise Undecided('gep on %r' % (base,))
        off = base.o
        cur = t
        for j, (it, iv) in enumerate(idx):
            if j == 0:
                off = off.add(self.slin(iv, it).scale(self.mod.size(cur)))
                continue
            cur = self.mod.T(cur)
            if cur[0] == 'struct':
                off = off.addc(self.mod.field_off(cur, iv))
                cur = cur[1][iv]
            elif cur[0] in ('arr', 'vec'):
                cur = cur[2]
                off = off.add(self.slin(iv, it).scale(self.mod.size(cur)))
            else:
                raise Undecided('gep into %r' % (cur,))
        if base.r is None and not (off.const() and off.c == 0):
            raise Undecided('arithmetic on a null pointer')
        return Ptr(base.r, off, base.f)

    def slin(self, v, t):
        if isinstance(v, Opaque):
            raise Undecided('index is not modelled: ' + v.why)
        w = t[1]
        if isinstance(v, int):
            return Lin(sgn(v, w))
        if w < 64:
            v = z3.SignExt(64 - w, B(v, w))
        if isinstance(v, PInt):
            raise Undecided('pointer as index')
        return lin_of(v)

    def cast(self, op, t, v, t2):
        t, t2 = self.mod.T(t), self.mod.T(t2)
        if op == 'zext':
            return zext(v, t[1], t2[1])
        if op == 'sext':
            if isinstance(v, bool):
                return mask(t2[1]) if v else 0
            if isinstance(v, int):
                return sgn(v, t[1]) & mask(t2[1])
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal(-1, t2[1]), z3.BitVecVal(0, t2[1]))
            return z3.SignExt(t2[1] - t[1], B(v, t[1]))
        if op == 'trunc':
            if isinstance(v, PInt):
                raise Undecided('truncated pointer')
            return trunc(v, t[1], t2[1])
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                return PInt(v) if v.r is not None else v.o.bv()
            return v
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, int) and v == 0:
                return NULL
            raise Undecided('inttoptr')
        if op in ('bitcast', 'addrspacecast'):
            if t[0] == t2[0] or isinstance(v, (Ptr,)):
                return v
        if op in ('fptoui', 'fptosi', 'fptrunc', 'fpext', 'uitofp', 'sitofp', 'bitcast'):
            if op in ('fptoui', 'fptosi'):
                return fresh('fp', t2[1])
            return Opaque(op)
        raise Undecided('cast ' + op)

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, int) and a == 0 and t[0] == 'ptr':
            a = NULL
        if isinstance(b, int) and b == 0 and t[0] == 'ptr':
            b = NULL
        if isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            pa = a.p if isinstance(a, PInt) else a
            pb = b.p if isinstance(b, PInt) else b
            if isinstance(pb, int) and pb == 0:
                pb = NULL
            if isinstance(pa, int) and pa == 0:
                pa = NULL
            if not isinstance(pa, Ptr) or not isinstance(pb, Ptr):
                raise Undecided('comparison of pointer and integer')
            if pa.r == pb.r:
                if pa.f and pb.f and not B(pa.f[0], 64).eq(B(pb.f[0], 64)):
                    raise Undecided('family pointer comparison')
                d = pa.o.add(pb.o.scale(-1))
                if d.const():
                    return cmpop('s' + pred[1:] if pred[0] == 'u' else pred, 64, d.c & M64, 0)
                x, y = pa.o, pb.o
                # divide by a common element size when possible
                for e in (64, 32, 16, 8, 4, 2):
                    qx, qy = x.div(e), y.div(e)
                    if qx is not None and qy is not None:
                        x, y = qx, qy
                        break
                return cmpop(pred, 64, x.bv(), y.bv())
            if pred in ('eq', 'ne'):
                return pred == 'ne'
            raise Undecided('order of pointers to different objects')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return same if pred == 'eq' else not same
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return z3.Bool(fresh_name('opq'))
        w = t[1] if t[0] == 'i' else 64
        return cmpop(pred, w, a, b)

    def arith(self, st, op, t, a, b, flags):
        if t[0] != 'i':
            return Opaque('fp')
        w = t[1]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('derived')
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.r != b.p.r:
                    raise Undecided('difference of pointers to different objects')
                return a.p.o.add(b.p.o.scale(-1)).bv()
            if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(a.p.add(lin_of(b)))
            if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(a.p.add(lin_of(b).scale(-1)))
            if op == 'and' and isinstance(b, int) and isinstance(a, PInt):
                if a.p.o.const() and b < 16:
                    return a.p.o.c & b
                if b < 16:
                    return binop('and', 64, a.p.o.bv(), b)
                if b == M64 - 15 or b == M64 - 7:
                    k = M64 - b
                    if a.p.o.const():
                        return PInt(a.p.addc(-(a.p.o.c & k)))
            raise Undecided('pointer arithmetic ' + op)
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, int):
                if b >= w:
                    self.safety_check(st, 'shift amount %d below width %d' % (b, w), False)
            else:
                self.safety_check(st, 'shift amount below %d' % w, z3.simplify(z3.ULT(B(b, w), z3.BitVecVal(w, w))))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(b, int):
                if b == 0:
                    self.safety_check(st, 'division by zero', False)
            else:
                self.safety_check(st, 'division by zero', z3.simplify(B(b, w) != 0))
            if op in ('udiv', 'urem') and isinstance(b, z3.BitVecRef):
                if not (self.mul_uf and w == 64):
                    return self.udivrem(st, op, w, a, b)
            if op in ('sdiv',) and 'exact' in flags and isinstance(b, int) and w == 64:
                l = lin_of(a)
                q = l.div(b)
                if q is not None:
                    return norm(q.bv())
        if self.mul_uf and w == 64 and op in ('mul', 'udiv', 'urem', 'sdiv'):
            r = self.nonlin(op, a, b)
            if r is not None:
                return r
        return binop(op, w, a, b)

    def nonlin(self, op, a, b):
        """products and quotients that are not by a constant power of two become applications of named functions"""
        if isinstance(a, int) and isinstance(b, int):
            return None
        from . import theory as th
        if op == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b & (b - 1) == 0 or b >= 1 << 32:
                    return None
            elif self.mul_uf == 'width':
                # the 8-bit field width is the second factor
                if is_small(a) and not is_small(b):
                    a, b = b, a
            return th.MUL(B(a, 64), B(b, 64))
        if isinstance(b, int) and b & (b - 1) == 0:
            return None
        f = {'udiv': th.UDV, 'urem': th.URM, 'sdiv': th.SDV}[op]
        return f(B(a, 64), B(b, 64))

    def udivrem(self, st, op, w, a, b):
        return binop(op, w, a, b)

    # ---------------------------------------------------------------- running
    def push(self, st, fn, args, ret):
        f = Frame()
        f.fn, f.env, f.blk, f.ip, f.prev = fn, {}, None, 0, None
        _ = fn.blocks
        f.blk = fn.order[0]
        f.loc, f.cuts, f.visits, f.ret = {}, {}, {}, ret
        f.tmp = []
        f.args = list(args)
        self.fuid += 1
        f.uid = self.fuid
        if len(args) < len(fn.params):
            raise Undecided('argument count of ' + fn.name)
        for (t, nm, info), a in zip(fn.params, args):
            if info and 'byval' in info:
                src = self.region(st, a)
                sz = self.mod.size(info['byval']) if isinstance(info['byval'], tuple) else None
                if sz is None:
                    raise Undecided('byval')
                p = self.new_obj(st, nm, sz)
                self.memcpy(st, p, a, sz)
                a = p
            f.env[nm] = a
        st.frames.append(f)
        if len(st.frames) > 60:
            raise Undecided('recursion')

    def call_fn(self, st, name, args):
        """run function `name` from state st to all its outcomes (list of final states)"""
        fn = self.mod.func(name)
        if fn is None:
            raise Undecided('no function ' + name)
        depth = len(st.frames)
        self.push(st, fn, args, None)
        return self.explore([st], depth)

    def explore(self, work, depth, stop=None):
        """run all states until frame depth is back to `depth` (or stop(st) says so)"""
        done = []
        while work:
            st = work.pop()
            try:
                more = self.run_path(st, depth, stop)
            except PathEnd:
                continue
            for s in more:
                if s.outcome is not None:
                    done.append(s)
                else:
                    work.append(s)
        return done

    def run_path(self, st, depth, stop):
        """run st until it forks / finishes; returns list of successor states"""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            if fr.ip >= len(blk):
                raise Undecided('fell off block')
            ins = blk[fr.ip]
            fr.ip += 1
            self.steps += 1
            if self.steps > self.step_limit:
                raise Undecided('step limit')
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Undecided('time limit of the symbolic executor')
            op = ins.op
            a = ins.a
            env = fr.env
            if op == 'load':
                env[ins.res] = self.load(st, self.val(st, irparse.PTR, a[1]), a[0])
            elif op == 'store':
                self.store(st, self.val(st, irparse.PTR, a[2]), a[0], self.val(st, a[0], a[1]))
            elif op == 'gep':
                ops = a[1]
                base = self.val(st, ops[0][0], ops[0][1])
                env[ins.res] = self.gep(st, a[0], base, [(t, self.val(st, t, v)) for t, v in ops[1:]])
            elif op == 'bin':
                t = self.mod.T(a[1])
                env[ins.res] = self.arith(st, a[0], t, self.val(st, t, a[2]), self.val(st, t, a[3]), a[4])
            elif op == 'cast':
                env[ins.res] = self.cast(a[0], a[1], self.val(st, a[1], a[2]), a[3])
            elif op == 'icmp':
                t = self.mod.T(a[1])
                env[ins.res] = self.icmp(st, a[0], t, self.val(st, t, a[2]), self.val(st, t, a[3]))
            elif op == 'alloca':
                sz = self.mod.size(a[0])
                n = a[1]
                if n is not None:
                    c = n if isinstance(n, int) else self.val(st, ('i', 64), n[1] if isinstance(n[0], tuple) else n)
                    if not isinstance(c, int):
                        raise Undecided('variable-length array')
                    sz *= c
                p = self.new_obj(st, ins.res, sz)
                env[ins.res] = p
                fr.loc[ins.res] = p
                fr.tmp.append(p.r)
            elif op == 'br':
                c = self.val(st, ('i', 1), a[0])
                if isinstance(c, Opaque):
                    c = z3.Bool(fresh_name('opq'))
                if isinstance(c, int) and not isinstance(c, bool):
                    c = bool(c)
                if not isinstance(c, bool):
                    c = normb(z3.simplify(Bo(c)))
                if isinstance(c, bool):
                    r = self.goto(st, a[1] if c else a[2], depth, stop)
                    if r is not None:
                        return r
                    continue
                t_ok = self.feasible(st, [c])
                f_ok = self.feasible(st, [z3.Not(c)])
                if t_ok and f_ok:
                    s2 = st.copy()
                    st.assume(c)
                    s2.assume(z3.Not(c))
                    out = []
                    for s, dst in ((st, a[1]), (s2, a[2])):
                        try:
                            r = self.goto(s, dst, depth, stop)
                        except PathEnd:
                            continue
                        out += r if r is not None else [s]
                    return out
                if not t_ok and not f_ok:
                    raise PathEnd('infeasible')
                r = self.goto(st, a[1] if t_ok else a[2], depth, stop)
                if r is not None:
                    return r
            elif op == 'jmp':
                r = self.goto(st, a[0], depth, stop)
                if r is not None:
                    return r
            elif op == 'call':
                r = self.do_call(st, fr, ins, depth, stop)
                if r is not None:
                    return r
            elif op == 'ret':
                v = None if a[1] is None else self.val(st, a[0], a[1])
                st.frames.pop()
                for rid in fr.tmp:
                    st.mem.pop(rid, None)
                if len(st.frames) == depth:
                    st.outcome, st.retval = 'return', v
                    return [st]
                cf = st.frames[-1]
                res, nl = fr.ret
                if res is not None:
                    cf.env[res] = v
                if nl is not None:
                    r = self.goto(st, nl, depth, stop)
                    if r is not None:
                        return r
            elif op == 'phi':
                # all phis of the block read the old environment
                i = fr.ip - 1
                vals = []
                while i < len(blk) and blk[i].op == 'phi':
                    pt, inc = blk[i].a[0], blk[i].a[1]
                    for v, lb in inc:
                        if lb == fr.prev:
                            vals.append((blk[i].res, self.val(st, pt, v)))
                            break
                    else:
                        raise Undecided('phi without predecessor')
                    i += 1
                for k, v in vals:
                    env[k] = v
                fr.ip = i
            elif op == 'select':
                c = self.val(st, ('i', 1), a[0])
                t = self.mod.T(a[1])
                x, y = self.val(st, t, a[2]), self.val(st, t, a[3])
                if isinstance(c, bool):
                    env[ins.res] = x if c else y
                elif isinstance(x, (Ptr, FnPtr, PInt)) or isinstance(y, (Ptr, FnPtr, PInt)):
                    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r and x.o == y.o:
                        env[ins.res] = x
                    else:
                        s2 = st.copy()
                        out = []
                        for s, cc, v in ((st, Bo(c), x), (s2, z3.Not(Bo(c)), y)):
                            if self.feasible(s, [cc]):
                                s.assume(cc)
                                s.frames[-1].env[ins.res] = v
                                out.append(s)
                        return out
                elif t == ('i', 1):
                    env[ins.res] = z3.If(Bo(c), Bo(x), Bo(y))
                else:
                    env[ins.res] = z3.If(Bo(c), B(x, t[1]), B(y, t[1]))
            elif op == 'switch':
                r = self.do_switch(st, a, depth, stop)
                return r
            elif op == 'extractvalue':
                v = self.val(st, a[0], a[1])
                for i in a[2]:
                    v = v[i]
                env[ins.res] = v
            elif op == 'insertvalue':
                v = self.val(st, a[0], a[1])
                x = self.val(st, a[2], a[3])

                def ins_(v, ix):
                    l = list(v)
                    l[ix[0]] = x if len(ix) == 1 else ins_(l[ix[0]], ix[1:])
                    return tuple(l)
                env[ins.res] = ins_(v, a[4])
            elif op == 'freeze':
                env[ins.res] = self.val(st, a[0], a[1])
            elif op == 'unreachable':
                raise PathEnd('unreachable')
            elif op == 'fcmp':
                env[ins.res] = z3.Bool(fresh_name('fcmp'))
            elif op == 'fence':
                pass
            else:
                raise Undecided('instruction ' + str(ins.text)[:100])

    def do_switch(self, st, a, depth, stop):
        t = self.mod.T(a[0])
        v = self.val(st, t, a[1])
        if isinstance(v, int):
            dst = a[2]
            for c, lb in a[3]:
                if (c & mask(t[1])) == v:
                    dst = lb
            r = self.goto(st, dst, depth, stop)
            return r if r is not None else [st]
        out = []
        rest = []
        for c, lb in a[3]:
            cond = B(v, t[1]) == z3.BitVecVal(c, t[1])
            rest.append(z3.Not(cond))
            if self.feasible(st, [cond]):
                s = st.copy()
                s.assume(cond)
                try:
                    r = self.goto(s, lb, depth, stop)
                except PathEnd:
                    continue
                out += r if r is not None else [s]
        if self.feasible(st, rest):
            for c in rest:
                st.assume(c)
            try:
                r = self.goto(st, a[2], depth, stop)
            except PathEnd:
                return out
            out += r if r is not None else [st]
        return out

    # ---------------------------------------------------------------- loops
    def find_loop(self, fr, header):
        d = dem(fr.fn.name)
        for l in self.loopspecs:
            if l.fn.search(d) or l.fn.search(fr.fn.name):
                idx = fr.fn.loop_order.index(header)
                if l.idx is None or l.idx == idx or (isinstance(l.idx, tuple) and idx in l.idx):
                    if all(v in fr.loc or v + '.addr' in fr.loc for v in l.vars):
                        return l
        return None

    def goto(self, st, dst, depth, stop):
        fr = st.frames[-1]
        fr.prev = fr.blk
        loops = fr.fn.loops
        for h in [h for h in fr.cuts if dst not in loops[h]]:
            del fr.cuts[h]
        for h in [h for h in fr.visits if dst not in loops[h]]:
            del fr.visits[h]
        if stop is not None and stop(st, fr, dst):
            return []
        if dst in loops:
            spec = self.find_loop(fr, dst)
            if spec is not None:
                fr.blk, fr.ip = dst, 0
                if dst in fr.cuts:
                    self.loop_back(st, spec, fr.cuts[dst])
                    raise PathEnd('loop cut')
                self.loop_enter(st, spec, dst)
                return [st]
            fr.visits[dst] = fr.visits.get(dst, 0) + 1
            if fr.visits[dst] > self.max_unroll:
                raise Undecided('loop in %s (%s) without invariant does not unroll' % (dem(fr.fn.name), dst))
        fr.blk, fr.ip = dst, 0
        return None

    def assume_inv(self, st, inv):
        for nm, f in inv:
            if isinstance(f, Quant):
                st.facts.append(f)
            elif isinstance(f, (list, tuple)):
                for g in f:
                    st.assume(g)
            else:
                st.assume(f)

    def loop_enter(self, st, spec, hdr):
        fr = st.frames[-1]
        spec.used += 1
        if not self.quiet:
            self.nloops_cut += 1
        entry = st.copy()
        L = LoopCtx(self, st, entry)
        nm = dem(fr.fn.name).split('(')[0][-60:]
        tag = '%s:%s' % (nm, spec.hint or 'loop%d' % fr.fn.loop_order.index(hdr))
        if not self.quiet:
            for n, f in spec.inv(L):
                self.oblige(st.copy(), 'invariant of %s holds on entry: %s' % (tag, n), 'loop-entry', f)
        # write set by discovery
        wset = set()
        for rnd in range(8):
            s = entry.copy()
            self.havoc(s, wset)
            s.frames[-1].cuts[hdr] = None
            self.assume_inv(s, spec.inv(LoopCtx(self, s, entry)))
            log = set()
            self.wlogs.append(log)
            self.quiet += 1
            d = len(s.frames)
            uid = s.frames[-1].uid
            body = s.frames[-1].fn.loops[hdr]

            def stop(x, f, dst, d=d, uid=uid):
                return len(x.frames) == d and f.uid == uid and (dst not in body or dst == hdr)
            try:
                s.frames[-1].blk, s.frames[-1].ip = hdr, 0
                self.explore([s], d - 1, stop)
            finally:
                self.quiet -= 1
                self.wlogs.pop()
            live = {(r, k) for r, k in log if r in entry.mem or r.startswith('G:')}
            if live <= wset:
                break
            wset |= live
        else:
            raise Undecided('write set of the loop does not stabilise')
        for w in wset:
            self.wlog(*w)
        self.havoc(st, wset)
        L = LoopCtx(self, st, entry)
        invs = spec.inv(L)
        self.assume_inv(st, invs)
        if getattr(self, 'loop_subst', False):
            self.substitute(st, wset, invs)
        var = B(spec.variant(L), 64) if spec.variant else None
        fr.cuts[hdr] = (entry, var, tag)

    def substitute(self, st, wset, invs):
        """a variable the invariant equates with a term holds that term (the equation itself stays assumed)"""
        eqs = {}

        def collect(f):
            if z3.is_and(f):
                for x in f.children():
                    collect(x)
            elif z3.is_eq(f):
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if z3.is_const(a) and a.decl().name().startswith('hv_'):
                        eqs.setdefault(a.get_id(), (a, b))
        for _, f in invs:
            if not isinstance(f, Quant):
                collect(f)
        for rid, key in sorted(wset, key=str):
            r = st.mem.get(rid)
            if isinstance(r, Obj) and key is not None and key[0] in r.s:
                sz, v = r.s[key[0]]
                if z3.is_expr(v) and v.get_id() in eqs:
                    self.mut(st, rid).s[key[0]] = (sz, eqs[v.get_id()][1])

    def loop_back(self, st, spec, cut):
        if cut is None:
            return
        entry, var, tag = cut
        if self.quiet:
            return
        L = LoopCtx(self, st, entry)
        for n, f in spec.inv(L):
            self.oblige(st.copy(), 'invariant of %s is preserved: %s' % (tag, n), 'loop-preserve', f)
        if var is not None:
            self.oblige(st.copy(), 'variant of %s decreases' % tag, 'variant', z3.ULT(B(spec.variant(L), 64), var))

    def havoc(self, st, wset):
        for rid, key in sorted(wset, key=str):
            r = st.mem.get(rid)
            if r is None:
                continue
            if isinstance(r, Arr):
                n = self.mut(st, rid)
                n.a = z3.Array(fresh_name('hv_' + r.name), n.a.sort().domain(), n.a.sort().range())
            elif isinstance(r, Obj):
                off, s = key if key is not None else (None, None)
                if off is None:
                    continue
                n = self.mut(st, rid)
                x = n.s.get(off)
                for o2 in [o for o, (s2, _) in n.s.items() if o < off + s and off < o + s2 and o != off]:
                    del n.s[o2]
                n.s[off] = (s, self.havoc_val(x[1] if x is not None and x[0] == s else None, s, r.name))
            elif isinstance(r, Raw):
                pass
            else:
                raise Undecided('havoc of ' + type(r).__name__)

    def havoc_val(self, v, s, nm):
        if isinstance(v, Ptr):
            if v.r is None:
                raise Undecided('loop changes a null pointer')
            k = fresh('hp_' + nm, 64)
            es = 1
            # element stride from the current offset
            for e in (64, 32, 16, 8, 4, 2, 1):
                if v.o.div(e) is not None:
                    es = e
                    break
            es = min(es, 8)
            return Ptr(v.r, Lin(0, ((es, k),)), v.f)
        if isinstance(v, FnPtr):
            raise Undecided('loop changes a function pointer')
        return fresh('hv_' + nm, 8 * s)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fr, ins, depth, stop):
        rt, callee, args, nl, ul = ins.a
        rt = self.mod.T(rt) if rt[0] != 'fn' else self.mod.T(rt[1])
        if callee[0] == 'global':
            name = self.mod.resolve(callee[1])
        elif callee[0] == 'local':
            f = fr.env.get(callee[1])
            if not isinstance(f, FnPtr):
                raise Undecided('indirect call')
            name = f.name
        else:
            raise Undecided('call of %r' % (callee,))
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') \
                or name.startswith('llvm.experimental') or name.startswith('llvm.invariant') or name.startswith('llvm.stack'):
            if nl is not None:
                return self.goto(st, nl, depth, stop)
            return None
        av = []
        for arg in args:
            t, v = arg[0], arg[1]
            if t[0] == 'metadata':
                continue
            av.append(self.val(st, t, v))
        c = self.contract_for(name)
        if c is not None:
            outs = c.apply(self, st, av)
            if outs is not None:        # None: the contract does not fit this call, the body is executed instead
                self.used_contracts.add(c.name)
                return self.finish_call(st, outs, ins, nl, depth, stop)
        h = self.builtin(st, name, av, rt, args)
        if h is not None:
            if h == 'throw':
                st.outcome = 'throw'
                return [st]
            return self.finish_call(st, h, ins, nl, depth, stop)
        fn = self.mod.func(name)
        if fn is None:
            raise Undecided('call of undefined function ' + dem(name))
        self.inlined.add(name)
        self.push(st, fn, av, (ins.res, nl))
        return None

    def finish_call(self, st, outs, ins, nl, depth, stop):
        res = []
        for s, v in outs:
            f = s.frames[-1]
            if ins.res is not None:
                f.env[ins.res] = v
            if nl is not None:
                try:
                    r = self.goto(s, nl, depth, stop)
                except PathEnd:
                    continue
                res += r if r is not None else [s]
            else:
                res.append(s)
        if len(res) == 1 and res[0] is st:
            return None
        return res

    def contract_for(self, name):
        if name in self.cmatch:
            return self.cmatch[name]
        d = dem(name)
        r = None
        for c in self.contracts:
            if c.matches(name, d):
                r = c
                break
        self.cmatch[name] = r
        return r

    def conc(self, v):
        return v if isinstance(v, int) else None

    def builtin(self, st, name, a, rt, args):
        """intrinsics and the C / C++ runtime; None = not a builtin"""
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, a, rt)
        for pat, f in self.externs.get('fns', ()):
            if re.search(pat, name) or re.search(pat, dem(name)):
                self.used_externs.add(pat)
                return f(self, st, a)
        if name in ('_Znwm', '_Znam', 'malloc'):
            return [(st, self.alloc(st, a[0], 'heap'))]
        if name == 'calloc':
            n = binop('mul', 64, a[0], a[1])
            return [(st, self.alloc(st, n, 'heap', 0))]
        if name in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'):
            p = a[0]
            if isinstance(p, Ptr) and p.r is not None:
                r = self.region(st, p)
                if p.o.const() and p.o.c == 0:
                    n = self.mut(st, p.r)
                    n.live = False
                else:
                    raise Undecided('free of an interior pointer')
            return [(st, None)]
        if name == 'realloc':
            return self.realloc(st, a[0], a[1])
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return [(st, a[0])]
        if name == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return [(st, a[0])]
        if name in ('memcmp', 'bcmp'):
            return [(st, self.memcmp(st, a[0], a[1], a[2]))]
        if name in ('__cxa_throw', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv',
                    '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_out_of_rangePKc', '_ZSt17__throw_bad_castv',
                    '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt9terminatev', 'abort', 'exit',
                    '_ZSt16__throw_bad_castv', '__cxa_throw_bad_array_new_length', '_ZSt25__throw_bad_function_callv'):
            st.ghost['throw'] = name
            return 'throw'
        if name == '__cxa_allocate_exception':
            return [(st, self.new_obj(st, 'exc', 256))]
        if name in ('__cxa_free_exception', '__cxa_guard_release', '__cxa_atexit', '__cxa_begin_catch', '__cxa_end_catch'):
            return [(st, 0)]
        if name == '__cxa_guard_acquire':
            return [(st, 1)]
        if name == '__assert_fail':
            self.oblige(st, 'assert', 'assert', False)
            raise PathEnd('assert')
        return None

    def alloc(self, st, n, nm, fill=None):
        if isinstance(n, int):
            if fill is None and n <= 65536:
                return self.new_obj(st, nm, n)
            return self.new_region(st, Raw(nm, n, fill))
        l = lin_of(n)
        return self.new_region(st, Raw(fresh_name(nm), l if not l.const() else l.c, fill))

    def realloc(self, st, p, n):
        q = self.alloc(st, n, 'heap')
        if isinstance(p, Ptr) and p.r is not None:
            old = self.region(st, p)
            if isinstance(old, Raw):
                pass
            elif isinstance(old, Arr):
                if isinstance(st.mem[q.r], Obj):
                    st.mem[q.r] = Raw(fresh_name('heap'), st.mem[q.r].size)
                new = self.settle(st, q, old.es)
                oa, on = old.a, B(old.n, 64)
                na = new.a
                st.facts.append(Quant((new.name, old.name), lambda k: z3.Implies(z3.ULT(k, on), z3.Select(na, k) == z3.Select(oa, k))))
            elif isinstance(old, Obj):
                r = st.mem[q.r]
                if isinstance(r, Obj):
                    r = self.mut(st, q.r)
                    r.s = {o: x for o, x in old.s.items() if o + x[0] <= r.size}
                else:
                    es = next(iter(old.s.values()))[0] if old.s else 8
                    tmp = st.copy()
                    ar = self.to_arr(st, p, es)
                    new = self.settle(st, q, es)
                    oa, on, na = ar.a, B(ar.n, 64), new.a
                    st.facts.append(Quant((new.name, ar.name), lambda k: z3.Implies(z3.ULT(k, on), z3.Select(na, k) == z3.Select(oa, k))))
            else:
                raise Undecided('realloc')
            r = self.mut(st, p.r)
            r.live = False
        return [(st, q)]

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        rs = self.region(st, s)
        rd = self.region(st, d)
        if isinstance(n, int) and s.o.const() and d.o.const() and n <= 65536:
            if isinstance(rs, Raw):
                rs = self.settle(st, s, 8) if not (isinstance(rs.size, int) and rs.fill is None) else rs
            if isinstance(rs, Raw):
                st.mem[s.r] = rs = Obj(rs.name, rs.size)
            if isinstance(rs, Obj):
                so, do = s.o.c, d.o.c
                if so < 0 or so + n > rs.size:
                    self.oblige(st, 'memcpy source in bounds', 'safety', False)
                    raise PathEnd('oob')
                items = []
                for o, (sz, v) in sorted(rs.s.items()):
                    if o >= so and o + sz <= so + n:
                        items.append((o - so, sz, v))
                    elif o < so + n and so < o + sz:
                        lo, hi = max(o, so), min(o + sz, so + n)
                        items.append((lo - so, hi - lo, self.part(v, sz, lo - o, hi - lo)))
                if isinstance(rd, Obj):
                    if do < 0 or do + n > rd.size:
                        self.oblige(st, 'memcpy destination in bounds', 'safety', False)
                        raise PathEnd('oob')
                    m = self.mut(st, d.r)
                    for o in [o for o, (sz, _) in m.s.items() if o < do + n and do < o + sz]:
                        sz, v = m.s.pop(o)
                        if o < do:
                            m.s[o] = (do - o, self.part(v, sz, 0, do - o))
                        if o + sz > do + n:
                            m.s[do + n] = (o + sz - do - n, self.part(v, sz, do + n - o, o + sz - do - n))
                for o, sz, v in items:
                    self.store_raw(st, d.addc(o), sz, v)
                return
            if isinstance(rs, Lazy):
                for o in range(0, n, rs.es):
                    self.store_raw(st, d.addc(o), rs.es, rs.vals[(s.o.c + o) // rs.es])
                return
            es = rs.es if isinstance(rs, Arr) else 8
            if n % es == 0 and n // es <= 64:
                vs = [self.load_raw(st, s.addc(o), es) for o in range(0, n, es)]
                for o, v in zip(range(0, n, es), vs):
                    self.store_raw(st, d.addc(o), es, v)
                return
        # symbolic size: array to array
        if isinstance(rs, Raw):
            rs = self.settle(st, s, 8)
        if isinstance(rs, Obj):
            rs = self.to_arr(st, s, next(iter(rs.s.values()))[0] if rs.s else 8)
        if isinstance(rd, Raw):
            rd = self.settle(st, d, rs.es)
        if isinstance(rd, Obj):
            rd = self.to_arr(st, d, rs.es)
        if not isinstance(rs, Arr) or not isinstance(rd, Arr) or rs.es != rd.es or rs.fam or rd.fam:
            raise Undecided('memcpy between %s and %s' % (type(rs).__name__, type(rd).__name__))
        es = rs.es
        qs, qd, qn = s.o.div(es), d.o.div(es), lin_of(n).div(es)
        if qn is None:
            t = B(n, 64)
            if self.valid(st, t & (es - 1) == 0):
                qn = z3.LShR(t, es.bit_length() - 1)
        if qs is None or qd is None or qn is None:
            raise Undecided('memcpy of partial elements')
        i, j, c = B(qs, 64), B(qd, 64), B(qn, 64)
        for r, x, w in ((rs, i, 'source'), (rd, j, 'destination')):
            nn = B(r.n, 64)
            self.safety_check(st, 'memcpy %s in bounds' % w, z3.Or(c == 0, z3.And(z3.ULE(x, nn), z3.ULE(c, nn - x))))
        sa, da = rs.a, rd.a
        m = self.mut(st, d.r)
        self.wlog(d.r, None)
        m.a = z3.Array(fresh_name('cpy_' + rd.name), z3.BitVecSort(64), z3.BitVecSort(8 * es))
        na = m.a
        sn = rs.name
        st.facts.append(Quant((rd.name,), lambda k: z3.Select(na, k) == z3.If(z3.ULT(k - j, c), z3.Select(sa, k - j + i), z3.Select(da, k)),
                              derived=lambda k: [(sn, z3.simplify(k - j + i))]))

    def memset(self, st, d, v, n):
        rd = self.region(st, d)
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int) and d.o.const() and n <= 65536 and isinstance(rd, (Obj, Raw)) and not (isinstance(rd, Raw) and not isinstance(rd.size, int)):
            if isinstance(rd, Raw):
                st.mem[d.r] = rd = Obj(rd.name, rd.size)
            if not isinstance(v, int):
                raise Undecided('memset value')
            v &= 255
            # keep existing slot granularity when it tiles the range, else 8-byte slots
            o = d.o.c
            end = o + n
            while o < end:
                y = rd.s.get(o)
                sz = y[0] if y and o + y[0] <= end else (8 if o % 8 == 0 and o + 8 <= end else (4 if o % 4 == 0 and o + 4 <= end else 1))
                self.store_raw(st, Ptr(d.r, Lin(o), d.f), sz, sum(v << (8 * k) for k in range(sz)))
                o += sz
            return
        if isinstance(rd, Raw):
            rd = self.settle(st, d, 8)
        if isinstance(rd, Obj):
            rd = self.to_arr(st, d, 8)
        if not isinstance(rd, Arr):
            raise Undecided('memset')
        es = rd.es
        qd, qn = d.o.div(es), lin_of(n).div(es)
        if qn is None:
            t = B(n, 64)
            if self.valid(st, t & (es - 1) == 0):
                qn = z3.LShR(t, es.bit_length() - 1)
        if qd is None or qn is None:
            raise Undecided('memset of partial elements')
        if isinstance(v, int):
            e = z3.BitVecVal(sum((v & 255) << (8 * k) for k in range(es)), 8 * es)
        else:
            b = trunc(v, 32, 8)
            b = B(b, 8)
            e = z3.Concat(*([b] * es)) if es > 1 else b
        j, c = B(qd, 64), B(qn, 64)
        nn = B(rd.n, 64)
        self.safety_check(st, 'memset in bounds', z3.Or(c == 0, z3.And(z3.ULE(j, nn), z3.ULE(c, nn - j))))
        da = rd.a
        m = self.mut(st, d.r)
        self.wlog(d.r, None)
        m.a = z3.Array(fresh_name('set_' + rd.name), z3.BitVecSort(64), z3.BitVecSort(8 * es))
        na = m.a
        st.facts.append(Quant((rd.name,), lambda k: z3.Select(na, k) == z3.If(z3.ULT(k - j, c), e, z3.Select(da, k))))

    def memcmp(self, st, a, b, n):
        raise Undecided('memcmp')

    def intrinsic(self, st, name, a, rt):
        m = re.match(r'llvm\.([a-z.]+?)\.(i\d+|p0|$)', name)
        op = name.split('.')[1]
        if op in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return [(st, None)]
        if op == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return [(st, None)]
        if op == 'expect':
            return [(st, a[0])]
        if op in ('umax', 'umin', 'smax', 'smin'):
            w = rt[1]
            c = cmpop({'umax': 'uge', 'umin': 'ule', 'smax': 'sge', 'smin': 'sle'}[op], w, a[0], a[1])
            if isinstance(c, bool):
                return [(st, a[0] if c else a[1])]
            return [(st, z3.If(c, B(a[0], w), B(a[1], w)))]
        if op == 'ctpop':
            return [(st, self.ctpop(st, a[0], rt[1]))]
        if op in ('ctlz', 'cttz'):
            return [(st, self.ctz(a[0], rt[1], op))]
        if op == 'bswap':
            w = rt[1]
            v = a[0]
            if isinstance(v, int):
                return [(st, int.from_bytes(v.to_bytes(w // 8, 'little'), 'big'))]
            return [(st, z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(w // 8)]))]
        if op in ('trap', 'debugtrap'):
            self.oblige(st, 'trap', 'safety', False)
            raise PathEnd('trap')
        if op == 'umul' or op == 'uadd' or op == 'usub' or op == 'sadd' or op == 'ssub' or op == 'smul':
            w = rt[1][0][1]
            if 'umul' in name:
                if isinstance(a[0], int) and isinstance(a[1], int):
                    r = a[0] * a[1]
                    return [(st, (r & mask(w), r >> w != 0))]
                r = binop('mul', w, a[0], a[1])
                ov = z3.Not(z3.BVMulNoOverflow(B(a[0], w), B(a[1], w), False))
                return [(st, (r, ov))]
        if op == 'is' or op == 'objectsize':
            return [(st, False if rt == ('i', 1) else mask(rt[1]))]
        if op == 'abs':
            w = rt[1]
            if isinstance(a[0], int):
                return [(st, abs(sgn(a[0], w)) & mask(w))]
            return [(st, z3.If(a[0] < 0, -a[0], a[0]))]
        if op in ('fmuladd', 'floor', 'ceil', 'sqrt', 'log2', 'pow', 'log', 'exp'):
            return [(st, Opaque(op))]
        raise Undecided('intrinsic ' + name)

    def ctpop(self, st, v, w):
        if isinstance(v, int):
            return bin(v).count('1')
        if w == 64:
            from .theory import POP
            return POP(B(v, 64))
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
        return r

    def ctz(self, v, w, op):
        if isinstance(v, int):
            if v == 0:
                return w
            return (v & -v).bit_length() - 1 if op == 'cttz' else w - v.bit_length()
        r = z3.BitVecVal(w, w)
        rng = range(w - 1, -1, -1) if op == 'cttz' else range(w)
        for i in rng:
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i if op == 'cttz' else w - 1 - i, w), r)
        return r
