"""Discharge of proof obligations: ground instantiation of the assumed facts, then z3 / cvc5."""
import os
import subprocess
import tempfile
import time
import z3
from .vals import B, Bo
from . import theory

AXIOMS = {}     # decl name -> fn(*args) -> formula   (instantiated at every ground application)


def axiom(decl_name):
    def d(f):
        AXIOMS.setdefault(decl_name, []).append(f)
        return f
    return d


@axiom('POP')
def _pop(x):
    return theory.pop_le_64(x)


def apps(fs, seen, out):
    st = list(fs)
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen[k] = e
        if z3.is_app(e):
            if e.num_args():
                n = e.decl().name()
                if n in AXIOMS and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(e)
                st.extend(e.children())


def hyps(ob, rounds=3, ax=None):
    """path condition + ground instances of the facts and axioms"""
    res = list(ob.pc)
    terms = {k: list(v) for k, v in ob.terms.items()}
    done = set()
    seen, sup = {}, []
    axdone = set()
    axioms = dict(AXIOMS)
    frontier = res + [Bo(ob.goal)]
    for _ in range(rounds):
        new = []
        for qi, q in enumerate(ob.facts):
            cand = []
            for tg in q.tags:
                for t in terms.get(tg, ()):
                    cand.append(t)
            if q.ar == 1:
                tup = [(t,) for t in cand]
            else:
                tup = [(a, b) for a in cand for b in cand]
            for t in tup:
                key = (qi,) + tuple(x.get_id() for x in t)
                if key in done:
                    continue
                done.add(key)
                f = q.fn(*t)
                fl = f if isinstance(f, (list, tuple)) else [f]
                for g in fl:
                    new.append(Bo(g))
                if q.derived:
                    for tg, d in q.derived(*t):
                        l = terms.setdefault(tg, [])
                        if not any(d.eq(x) for x in l):
                            l.append(d)
        found = []
        apps(frontier + new, seen, found)
        for e in found:
            for a in axioms[e.decl().name()]:
                k = (a, e.get_id())
                if k in axdone:
                    continue
                axdone.add(k)
                sup.append(e)
                f = a(*e.children())
                for g in (f if isinstance(f, (list, tuple)) else [f]):
                    new.append(Bo(g))
        res += new
        frontier = new
        if not new:
            break
    ob.nt = (seen, sup)
    return res


def smt2(fs, logic='ALL'):
    s = z3.Solver()
    s.add(*fs)
    t = s.to_smt2()
    return '(set-logic %s)\n' % logic + t


def run_bin(cmd, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return out if out in ('sat', 'unsat', 'unknown') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)


def syms(f, memo):
    """ids of the uninterpreted constants and applications in f"""
    k = f.get_id()
    if k in memo:
        return memo[k][1]
    out, seen, st = set(), set(), [f]
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
            st.extend(e.children())
        elif z3.is_quantifier(e):
            st.append(e.body())
    memo[k] = (f, out)
    return out


def relevant(hs, goal, frac, memo, cap=1000):
    """hypotheses whose symbols mostly occur in the goal or in hypotheses chosen before (fewer hypotheses: still sound)"""
    cur = set(syms(goal, memo))
    rest = [(h, syms(h, memo)) for h in hs]
    out = [h for h, s in rest if not s]
    rest = [(h, s) for h, s in rest if s]
    for _ in range(4):
        take = [(h, s) for h, s in rest if len(s & cur) >= frac * len(s)]
        if not take:
            break
        ids = {id(s) for h, s in take}
        out += [h for h, s in take]
        rest = [(h, s) for h, s in rest if id(s) not in ids]
        for h, s in take:
            cur |= s
    return out


HARDOPS = {z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR}


def abstracted(fs):
    """every shift by a symbolic amount replaced by a name (one per term): more general, so unsat carries over"""
    memo, names = {}, {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            ch = [go(x) for x in e.children()]
            r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not a.eq(b)])
            if r.decl().kind() in HARDOPS and not z3.is_bv_value(r.arg(1)):
                n = names.get(r.get_id())
                if n is None:
                    n = names[r.get_id()] = (r, z3.BitVec('abs!%d' % len(names), r.size()))
                r = n[1]
        memo[k] = (e, r)
        return r
    out = [go(f) for f in fs]
    return out if names else None


def discharge(ob, timeout=20.0, quick=False):
    """sets ob.status in proved / refuted / unknown"""
    if ob.status == 'proved':
        return ob
    t0 = time.time()
    hs = hyps(ob)
    goal = Bo(ob.goal)
    fs = hs + [z3.Not(goal)]
    strategies = [('z3', min(timeout, 3.0)), ('z3-abs', 5.0), ('z3-rel1', 3.0), ('z3-rel2', 5.0), ('z3-qfbv', min(timeout, 10.0)), ('cvc5', timeout), ('z3', timeout * 2)]
    if quick:
        strategies = strategies[:1]
    memo, last = {}, len(hs)
    for name, to in strategies:
        if name == 'z3-abs':
            try:
                av = abstracted(fs)
                if av is None:
                    continue
                s = z3.Solver()
                s.set('timeout', int(to * 1000))
                s.add(*av)
                if s.check() == z3.unsat:
                    ob.status, ob.backend = 'proved', name
                    break
            except z3.Z3Exception:
                pass
        elif name.startswith('z3-rel'):
            rs = relevant(hs, goal, 1.0 if name == 'z3-rel1' else 0.67, memo)
            if len(rs) == last:
                continue
            last = len(rs)
            s = z3.SolverFor('QF_AUFBV')
            s.set('timeout', int(to * 1000))
            s.add(*rs)
            s.add(z3.Not(goal))
            try:
                if s.check() == z3.unsat:
                    ob.status, ob.backend = 'proved', name
                    break
            except z3.Z3Exception:
                pass
        elif name.startswith('z3'):
            if name == 'z3-qfbv':
                tac = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'smt') if False else None
                s = z3.SolverFor('QF_AUFBV')
            else:
                s = z3.Solver()
            s.set('timeout', int(to * 1000))
            s.add(*fs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                ob.status, ob.backend = 'proved', name
                break
            if r == z3.sat:
                m = s.model()
                ob.status, ob.backend = 'refuted', name
                ob.model = model_text(m)
                break
        else:
            r = run_bin(['cvc5', '--tlimit=%d' % int(to * 1000)], smt2(fs), to)
            if r == 'unsat':
                ob.status, ob.backend = 'proved', 'cvc5'
                break
            if r == 'sat':
                ob.status, ob.backend = 'refuted', 'cvc5'
                break
    if ob.status is None:
        ob.status, ob.backend = 'unknown', 'timeout'
    ob.time = time.time() - t0
    return ob


def model_text(m):
    out = []
    for d in m.decls():
        try:
            v = m[d]
            s = str(v) if not z3.is_bv_value(v) else hex(v.as_long())
        except Exception:
            continue
        if len(s) > 200:
            s = s[:200] + '...'
        out.append('%s = %s' % (d.name(), s))
    return sorted(out)[:200]
