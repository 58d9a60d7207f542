"""Compile a unit (C++ text that only instantiates / calls code of /repo) to LLVM IR and parse it."""
import hashlib
import os
import subprocess
import tempfile
from . import irparse

REPO = os.environ.get('SDSL_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++11', '-O0', '-DNDEBUG', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', '-w',
         '-I' + REPO + '/include']


class BuildError(Exception):
    pass


def workdir(prop):
    d = os.path.join(HERE, '.work', prop)
    os.makedirs(d, exist_ok=True)
    return d


def libsrc(d, x):
    """path of a library source; structure_tree.cpp is configured from its template"""
    p = os.path.join(REPO, 'lib', x)
    if x == 'structure_tree.cpp' and os.path.exists(p + '.cmake'):
        q = os.path.join(d, x)
        with open(p + '.cmake') as f:
            t = f.read().replace('@PROJECT_SOURCE_DIR@', REPO)
        with open(q, 'w') as f:
            f.write(t)
        return q
    return p


def compile_ir(prop, unit, libs=('bits.cpp',), flags=(), tag=''):
    """returns (Module, commands)"""
    d = workdir(prop)
    outs, cmds = [], []
    src = os.path.join(d, 'unit%s.cpp' % tag)
    with open(src, 'w') as f:
        f.write(unit)
    procs = []
    for k, s in enumerate([src] + [libsrc(d, x) for x in libs]):
        o = os.path.join(d, 'u%s_%d.ll' % (tag, k))
        cmd = ['clang++-18'] + FLAGS + list(flags) + [s, '-o', o]
        cmds.append(' '.join(cmd))
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), s))
        outs.append(o)
    for p, s in procs:
        out, err = p.communicate(timeout=600)
        if p.returncode:
            raise BuildError('%s: %s' % (s, err[:2000]))
    if len(outs) > 1:
        o = os.path.join(d, 'all%s.ll' % tag)
        cmd = ['llvm-link', '-S'] + outs + ['-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[:2000])
        outs = [o]
    m = irparse.Module()
    m.add(outs[0])
    return m, cmds


def compile_driver(prop, src, libs=(), san=False, extra=(), tag=''):
    """native program from a driver and the sources of /repo"""
    d = workdir(prop)
    o = os.path.join(d, 'drv%s%s' % (tag, '_san' if san else ''))
    base = ['g++', '-std=c++11', '-w', '-I' + REPO + '/include', '-DNDEBUG'] + \
        (['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=shift-base', '-fno-sanitize-recover=all'] if san else ['-O1']) + list(extra)
    srcs = [src] + [libsrc(d, x) for x in libs]
    procs, objs = [], []
    for k, f in enumerate(srcs):
        ob = '%s_%d.o' % (o, k)
        objs.append(ob)
        b = base
        if san and os.path.basename(f).startswith('coder_'):      # table look-ups of the coders read up to one word behind the code (DESIGN.md)
            b = [x for x in base if not x.startswith('-fsanitize=')] + ['-O2']
        procs.append(subprocess.Popen(b + ['-c', f, '-o', ob], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    errs = []
    for pr in procs:
        e = pr.communicate()[1]
        if pr.returncode:
            errs.append(e)
    if errs:
        raise BuildError(errs[0][:3000])
    r = subprocess.run([x for x in base if not x.startswith('-l')] + objs + [x for x in base if x.startswith('-l')] + ['-o', o], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[:3000])
    return o, ' '.join(base + srcs + ['-o', o])
