"""Contracts, verification tasks and the context in which specifications are written."""
import os
import re
import time
import traceback
import z3
from . import exec as ex
from . import solver, theory
from .exec import Engine, State, Obj, Arr, Quant, LoopSpec, LoopCtx, FamObj, dem, PathEnd
from .irparse import IRError
from .vals import *
from .theory import b64


class Contract:
    """contract of a function without memory effects: requires / ensures over its scalar arguments"""
    def __init__(self, name, pat, w, pre=None, post=None, bits=None, ptr_args=()):
        self.name, self.pat, self.w, self.pre, self.post = name, re.compile(pat), w, pre, post

    def matches(self, name, d):
        return bool(self.pat.search(d) or self.pat.search(name))

    def apply(self, e, st, args):
        if self.pre:
            for nm, g in self.pre(*args):
                e.oblige(st, 'precondition of %s: %s' % (self.name, nm), 'precondition', g)
                st.assume(g)
        r = fresh('ret_' + re.sub(r'\W', '', self.name), self.w) if self.w > 1 else z3.Bool(fresh_name('ret'))
        for nm, f in self.post(r, *args):
            st.assume(f)
        return [(st, r)]


class MemContract:
    """contract given by a function apply(engine, state, args) -> [(state, value)]"""
    def __init__(self, name, pat, apply):
        self.name, self.pat, self._apply = name, re.compile(pat), apply

    def matches(self, name, d):
        return bool(self.pat.search(d) or self.pat.search(name))

    def apply(self, e, st, args):
        return self._apply(e, st, args)


class Ctx:
    """what a specification author sees"""

    def __init__(self, mod, contracts=(), loops=(), tables=(), externs=None, name='', **kw):
        self.e = Engine(mod, contracts, loops, tables, externs, **kw)
        self.e.cur = name
        self.st = State()
        self.mod = mod
        self.name = name
        self.vac = []

    def find(self, pat):
        """symbol whose mangled or demangled name matches"""
        if pat in self.mod.funcs:
            return pat
        names = [n for n in self.mod.funcs]
        ex.demangle(names)
        r = [n for n in names if re.search(pat, ex._dem[n])]
        if not r:
            raise Undecided('no function matching ' + pat)
        return r[0]

    def bv(self, nm, w=64):
        return z3.BitVec(fresh_name(nm), w)

    def arr(self, nm, n, es=8, ro=False, st=None):
        """array region of n elements; returns Ptr"""
        return self.e.new_arr(st or self.st, nm, es, n if callable(n) else B(n, 64), ro=ro)

    def obj(self, nm, size, slots=None, ro=False, st=None):
        return self.e.new_obj(st or self.st, nm, size, slots, ro)

    def A(self, st, p):
        return self.e.arr_of(st, p)

    def ld(self, st, p, off, size):
        return self.e.load_raw(st, p.addc(off), size)

    def assume(self, *fs):
        for f in fs:
            self.st.assume(f)

    def call(self, pat, args, st=None):
        """execute the function from the (pre)state; returns [(state, value)] for normal returns.
        Exceptional outcomes are kept in self.thrown."""
        st = (st or self.st).copy()
        outs = self.e.call_fn(st, self.find(pat), args)
        self.thrown = [s for s in outs if s.outcome == 'throw']
        for s in outs:
            s_out = s.outcome
        r = []
        for s in outs:
            if s.outcome == 'return':
                s.outcome = None
                r.append((s, s.retval))
        return r

    def ensures(self, st, name, goal, lemmas=()):
        st = st.copy()
        for l in lemmas:
            st.assume(l)
        self.e.oblige(st, 'ensures: ' + name, 'post', goal)

    def step(self, name, *goals, st=None):
        """intermediate assertion: proved, then available"""
        st = st or self.st
        for g in goals:
            self.e.oblige(st, 'step: ' + name, 'step', g)
            st.assume(g)

    def no_throw(self):
        for s in self.thrown:
            self.e.oblige(s, 'no exception', 'post', False)

    def reach(self, st, name):
        """vacuity guard: this state has to be satisfiable"""
        self.vac.append((name, list(st.pc)))


class Result:
    def __init__(self, name):
        self.name, self.status = name, None
        self.obs, self.err, self.time, self.qtime = [], None, 0.0, 0.0
        self.contracts, self.inlined, self.tables, self.externs, self.lemmas = [], [], {}, [], []
        self.loops_cut = 0
        self.vac = []


def run_task(mod, name, fn, args, prop_cfg, timeout=20.0, budget=240.0, shard=(0, 1)):
    """execute one verification task; returns a picklable dict"""
    t0 = time.time()
    res = dict(name=name, obs=[], err=None, undecided=None, steps=0, contracts=[], inlined=[], tables={}, externs=[],
               lemmas=[], loops=0, vac=[], qn=0, qt=0.0, shard=shard, nobs=0)
    theory.USED.clear()
    c = None
    try:
        c = Ctx(mod, name=name, **prop_cfg)
        c.e.deadline = t0 + budget
        fn(c, *args)
    except (Undecided, IRError) as x:
        res['undecided'] = '%s' % x
    except PathEnd as x:
        res['undecided'] = 'path ended: %s' % x
    except z3.Z3Exception as x:
        res['undecided'] = 'z3: %s' % x
    except Exception:
        res['err'] = traceback.format_exc()
        res['undecided'] = 'engine error: ' + res['err'].strip().split('\n')[-1]
    if c is not None:
        res['nobs'] = len(c.e.obs)
        for oi, o in enumerate(c.e.obs):
            if shard[1] > 1 and oi % shard[1] != shard[0]:
                o.pc = o.facts = o.terms = o.goal = o.nt = None
                continue
            if time.time() - t0 > budget and o.status is None:
                o.status, o.backend = 'unknown', 'budget'
            else:
                solver.discharge(o, timeout)
            res['obs'].append(dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 3),
                                   where=dem(o.where.split('/')[0])[:200] + '/' + o.where.split('/')[-1] if o.where else '',
                                   fn=o.fn, model=o.model if o.status == 'refuted' else None))
            o.pc = o.facts = o.terms = o.goal = o.nt = None
        for nm, pc in (c.vac if shard[0] == 0 else ()):
            s = z3.Solver()
            s.set('timeout', 8000)
            s.add(*pc)
            r = s.check()
            res['vac'].append((nm, str(r)))
        e = c.e
        res.update(steps=e.steps, contracts=sorted(e.used_contracts), inlined=sorted(dem(n) for n in e.inlined),
                   tables={k: v for k, v in e.table_checks.items()}, externs=sorted(e.used_externs), loops=e.nloops_cut,
                   qn=e.nq, qt=round(e.qtime, 2))
    res['lemmas'] = sorted(theory.USED)
    res['time'] = round(time.time() - t0, 2)
    return res
