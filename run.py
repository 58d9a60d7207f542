#!/usr/bin/env python3-vt
"""run.py <property id>: verify the contracts of one property against /repo's current sources."""
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import build, task, theory      # noqa: E402

PID = sys.argv[1].upper()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()
QUICK = TIER != 'thorough'
mp.set_start_method('fork', force=True)
G = {}


def work(job):
    kind = job[0]
    if kind == 'lemma':
        ok, n, t = theory.prove_lemma(job[1])
        return ('lemma', job[1], ok, n, t)
    name, idx = job[1], job[2]
    m = G['m']
    nm, fn, args, cfg = G['tasks'][idx]
    key = cfg if cfg in G['mods'] else ''
    return ('task', task.run_task(G['mods'][key], nm, fn, args, m.config(nm, fn, args, cfg),
                                  timeout=20.0 if QUICK else 60.0, budget=G['budget'], shard=job[3]))


def child(job, conn):
    try:
        r = work(job)
    except BaseException as x:      # noqa
        r = ('err', job, '%s: %s' % (type(x).__name__, x))
    conn.send(r)
    conn.close()
    os._exit(0)


def pool(jobs, n, limit):
    """run jobs in forked processes; a process over its limit is ended and its job undecided"""
    todo, run, out = list(jobs), [], []
    while todo or run:
        while todo and len(run) < n:
            j = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(j, b))
            p.start()
            b.close()
            run.append((j, p, a, time.time()))
        for e in list(run):
            j, p, a, t = e
            done = False
            if a.poll(0.02):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(('err', j, 'process ended'))
                done = True
            elif not p.is_alive():
                out.append(('err', j, 'process died'))
                done = True
            elif time.time() - t > limit:
                p.kill()
                out.append(('err', j, 'time limit'))
                done = True
            if done:
                p.join(5)
                run.remove(e)
    return out


def known():
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) obligation=(\S+) :: (.*)$', line.strip())
            if m and m.group(1) == PID:
                r.append((m.group(2), m.group(3)))
    return r


def run_driver(m, secs, tag, out):
    """compile and run the native driver; returns dict (shift-base is off: shifts of negative values wrap on every supported compiler)"""
    res = dict(ran=False)
    src = os.path.join(HERE, 'drivers', PID.lower() + '.cpp')
    if not os.path.exists(src):
        return res
    libs = getattr(m, 'DRIVER_LIBS', getattr(m, 'LIBS', []))
    import concurrent.futures as cf
    sans = (False, True) if getattr(m, 'DRIVER_SAN', True) else (False,)
    tp = cf.ThreadPoolExecutor(2)
    built = {x: tp.submit(build.compile_driver, PID.lower(), src, libs, x, getattr(m, 'DRIVER_FLAGS', ())) for x in sans}
    for san in sans:
        try:
            exe, cmd = built[san].result()
        except build.BuildError as x:
            res['error'] = 'driver does not compile: ' + str(x)[:800]
            continue
        s = secs if not san else max(2.0, secs / 2)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1')
        wd = os.path.join(build.workdir(PID.lower()), 'run')
        os.makedirs(wd, exist_ok=True)
        try:
            p = subprocess.run([exe, str(SEED), '%.1f' % s], capture_output=True, text=True, errors='replace', timeout=s * 3 + 60, env=env, cwd=wd)
        except subprocess.TimeoutExpired as x:
            o = (x.stdout or b'')
            o = o.decode(errors='replace') if isinstance(o, bytes) else o
            last = [l for l in o.split('\n') if l.startswith('CASE ')][-1:]
            res.update(ran=True, fail='the driver did not finish: %s' % (last[0] if last else 'no case'), cmd=cmd,
                       run='%s %d %.1f' % (exe, SEED, s), output=o[-3000:], hang=True)
            return res
        res['ran'] = True
        mm = re.search(r'^CASES (\d+) DISTINCT (\d+)', p.stdout, re.M)
        if mm:
            res['cases'] = res.get('cases', 0) + int(mm.group(1))
            res['distinct'] = res.get('distinct', 0) + int(mm.group(2))
        sm = re.findall(r'^SAMPLE (.*)$', p.stdout, re.M)
        if sm:
            res['samples'] = sm[:3]
        if p.returncode != 0:
            f = re.findall(r'^FAIL (.*)$', p.stdout, re.M)
            last = [l for l in p.stdout.split('\n') if l.startswith('CASE ')][-1:]
            what = f[0] if f else 'exit status %d (%s)' % (p.returncode, (last or ['?'])[0])
            if not f:
                e = re.findall(r'(ERROR: AddressSanitizer.*|runtime error:.*)', p.stderr)
                if e:
                    what += ' ' + e[0]
            res.update(fail=what, cmd=cmd, run='%s %d %.1f' % (exe, SEED, s), output=(p.stdout[-3000:] + '\n' + p.stderr[-3000:]))
            return res
    return res


def main():
    try:
        m = importlib.import_module('contracts.' + PID.lower())
    except ImportError as x:
        print('no contracts for %s: %s' % (PID, x))
        return 2
    G['m'] = m
    evp = os.path.join(HERE, 'evidence', PID + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    build_err = None
    G['mods'], cmds = {}, []
    cfgs = getattr(m, 'CONFIGS', {'': []})
    try:
        for k, fl in cfgs.items():
            mod, c = build.compile_ir(PID.lower(), m.UNIT, m.LIBS, fl, k)
            G['mods'][k] = mod
            cmds += c
    except Exception as x:
        build_err = '%s: %s' % (type(x).__name__, str(x)[:1500])
    G['tasks'] = m.tasks(TIER) if not build_err else []
    G['budget'] = getattr(m, 'BUDGET', 150.0) if QUICK else 600.0
    names = {n for mod in G['mods'].values() for n in mod.funcs}
    if names:
        task.ex.demangle(list(names))
    # driver in the background
    import threading
    drv = {}
    dsecs = getattr(m, 'DRIVER_SECS', 12.0) * (1 if QUICK else 10)
    
    def drive():
        t = time.time()
        drv.update(run_driver(m, dsecs, '', None))
        drv['secs'] = round(time.time() - t, 1)
    th = threading.Thread(target=drive)
    shards = getattr(m, 'SHARDS', {})
    jobs = []
    for i, t in enumerate(G['tasks']):
        k = max([n for r, n in shards.items() if re.search(r, t[0])] or [1])
        jobs += [('task', t[0], i, (j, k)) for j in range(k)]
    hard = getattr(m, 'HARD', ())
    jobs.sort(key=lambda j: 0 if any(re.search(h, j[1]) for h in hard) else 1)
    limit = G['budget'] * 1.6 + 60
    results = None
    ncpu = os.cpu_count() or 4
    # fork first (before the thread starts) is not possible for a pool that keeps forking; the driver thread only
    # waits for subprocesses
    th.start()
    results = pool(jobs, max(2, ncpu - 1), limit)
    t_tasks = time.time() - T0
    lem = sorted({l for r in results if r[0] == 'task' for l in r[1]['lemmas']} | set(getattr(m, 'LEMMAS', ())))
    lres = pool([('lemma', l) for l in lem], ncpu, 300)
    th.join()
    obs, undec, vac = [], [], []
    tasks = []
    for r in sorted(results, key=lambda r: r[1].get('shard', (0, 1))[0] if r[0] == 'task' else 0):
        if r[0] == 'task':
            d = r[1]
            if d['shard'][0] == 0:
                tasks.append(d)
            elif not d['undecided']:
                for o in d['obs']:
                    o['task'] = d['name']
                    obs.append(o)
                continue
            else:
                continue
            for o in d['obs']:
                o['task'] = d['name']
                obs.append(o)
            if d['undecided']:
                undec.append((d['name'], d['undecided']))
            if not d['nobs'] and not d['undecided']:
                undec.append((d['name'], 'no obligation generated'))
            for n in sorted({n for n, v in d['vac']}):
                vs = [v for n2, v in d['vac'] if n2 == n]
                if 'sat' not in vs:
                    vac.append((d['name'], n, 'unsat' if 'unknown' not in vs else 'unknown'))
        else:
            undec.append((r[1][1], r[2]))
    for l in lres:
        if l[0] == 'lemma':
            obs.append(dict(name='lemma ' + l[1], kind='lemma', status='proved' if l[2] else 'unknown', backend='z3', time=round(l[4], 2),
                            where='specification', fn='theory', model=None, task='lemmas', queries=l[3]))
        else:
            undec.append((str(l[1]), l[2]))
    if os.environ.get('VTIMES'):
        for r in sorted((r[1] for r in results if r[0] == 'task'), key=lambda d: -d['time'])[:14]:
            print('  time %6.1f exec %5.1f %s %s' % (r['time'], r['time'] - sum(o['time'] or 0 for o in r['obs']), r['name'], r['shard']))
        print('  tasks done after %.0f s, driver %s' % (t_tasks, drv.get('secs')))
    kn = known()

    def is_known(o):
        for pat, what in kn:
            if fnmatch.fnmatch((o['task'] + ':' + o['name']).replace(' ', '_'), pat):
                return what
        return None
    refuted = [o for o in obs if o['status'] == 'refuted']
    knowns = [(o, is_known(o)) for o in refuted if is_known(o)]
    bad = [o for o in refuted if not is_known(o)]
    # a precondition that cannot be satisfied proves nothing
    for n, what, v in vac:
        if v == 'unsat':
            undec.append((n, 'vacuous: ' + what))
    proved = [o for o in obs if o['status'] == 'proved']
    unknown = [o for o in obs if o['status'] == 'unknown']
    if bad and not drv.get('fail') and not drv.get('error') and drv.get('ran'):
        d2 = run_driver(m, 60.0 if QUICK else 300.0, 'long', None)
        if d2.get('fail'):
            drv.update(d2)
    backends = {}
    for o in proved:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    full = not undec and not unknown and not refuted and not build_err and proved
    level = getattr(m, 'LEVEL', 'proof')
    cov = dict(
        obligations=len(obs), discharged=len(proved), checker_cmd='python3-vt run.py ' + PID,
        trusted_base=TRUSTED + list(getattr(m, 'TRUSTED', ())),
        explanation=('deductive verification: all obligations discharged' if full else
                     'NOT fully discharged on this tree: undecided parts are only covered by the bounded native driver'),
        back_ends=backends, solver_seconds=round(sum(o['time'] or 0 for o in obs), 1),
        functions_under_contract=sorted({d['name'] for d in tasks}),
        contracts_used_at_calls=sorted({x for d in tasks for x in d['contracts']}),
        functions_executed_by_inlining=sorted({x for d in tasks for x in d['inlined']})[:400],
        tables_checked_entrywise={k: v[0] for d in tasks for k, v in d['tables'].items()},
        loops_cut_by_invariants=sum(d['loops'] for d in tasks),
        lemmas=lem, by_kind={k: sum(1 for o in obs if o['kind'] == k) for k in sorted({o['kind'] for o in obs})},
        refuted=[dict(task=o['task'], name=o['name'], where=o['where'], model=(o['model'] or [])[:20]) for o in refuted][:30],
        unknown=[dict(task=o['task'], name=o['name']) for o in unknown][:50], undecided=[list(map(str, u)) for u in undec][:50],
        vacuity_checks=sum(len(d['vac']) for d in tasks),
        externals_modelled=sorted({x for d in tasks for x in d['externs']}),
        samples=[dict(task=o['task'], obligation=o['name'], where=o['where'], backend=o['backend'], seconds=o['time']) for o in proved[:1] + proved[-2:]],
        bounded=dict(what=getattr(m, 'BOUNDED', 'native differential driver on boundary and random inputs'), evaluations=drv.get('cases', 0),
                     distinct_nontrivial=drv.get('distinct', 0), samples=drv.get('samples', []), error=drv.get('error')))
    cov['evaluations'] = drv.get('cases', 0)
    cov['distinct_nontrivial'] = drv.get('distinct', 0)
    cov['rule'] = 'cases of the bounded native driver (never counted as proved); distinct = different input descriptions with non-empty data'
    viol = 0
    line = None
    rdir = os.path.join(HERE, 'evidence', 'replay')
    if drv.get('fail') or bad:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, PID + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n' % PID)
            if drv.get('fail'):
                f.write('failing input on the real code: %s\nbuild: %s\nrun: %s\noutput:\n%s\n' % (drv['fail'], drv.get('cmd'), drv.get('run'), drv.get('output', '')))
            for o in bad:
                f.write('\nfailed obligation: [%s] %s\n at %s\n solver: %s says the negation is satisfiable\n counterexample: %s\n' % (
                    o['task'], o['name'], o['where'], o['backend'], '; '.join((o['model'] or [])[:60])))
        viol = 1
        line = 'VIOLATION property=%s replay=%s%s' % (PID, rp, '' if drv.get('fail') else ' no-failing-input-found')
    ev = dict(property=PID, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=list(getattr(m, 'ASSUMPTIONS', ())) + ASSUME, wall_s=round(time.time() - T0, 1), violations=viol)
    json.dump(ev, open(evp, 'w'), indent=1)
    print('%s: %d obligations, %d proved, %d refuted, %d unknown, %d undecided tasks of %d; driver: %s; %.0f s' % (
        PID, len(obs), len(proved), len(refuted), len(unknown), len(undec), len(G['tasks']),
        drv.get('fail') or ('%d cases' % drv.get('cases', 0) if drv.get('ran') else drv.get('error', 'none')), time.time() - T0))
    if build_err:
        print('build: ' + build_err[:500])
    for u in undec[:10]:
        print('  undecided: %s: %s' % u)
    for o in unknown[:10]:
        print('  unknown: [%s] %s (%s)' % (o['task'], o['name'], o['where']))
    for o in bad[:10]:
        print('  FAILED: [%s] %s (%s) %s' % (o['task'], o['name'], o['where'], (o['model'] or [])[:6]))
    seen = set()
    for o, w in knowns:
        if w not in seen:
            seen.add(w)
            print('KNOWN-FINDING: property=%s %s' % (PID, w))
    if line:
        print(line)
        return 1
    return 0


TRUSTED = ['clang-18 front end at -O0 (the verified text is its LLVM IR of the real headers and sources, regenerated on every run)',
           'LLVM IR semantics as implemented in engine/exec.py (memory = disjoint allocations, little endian)',
           'z3 and cvc5', 'heap allocation never fails', 'ground-instantiation induction principle of the loop rule']
ASSUME = ['the compiler that builds the tests (gcc -O3) preserves the semantics that clang -O0 gives the same sources',
          'distinct arguments of pointer type do not alias unless a contract says so',
          'signed arithmetic wraps (overflow of signed arithmetic is not an obligation)']

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
