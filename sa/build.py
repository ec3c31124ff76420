"""Compile the current /repo sources (and witness client code) to LLVM IR and load them."""
import os, subprocess, tempfile, shutil, concurrent.futures
from ir import Module

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = ['raii', 'except', 'future', 'arena', 'swar']


class BuildError(Exception):
    pass


def flags():
    f = ['-std=gnu90', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
         '-fno-discard-value-names', '-gline-tables-only', '-DUSE_DEBUG', '-Wno-return-type', '-w', '-Wno-int-conversion',
         '-include', VERIF + '/compat/clang_atomics.h']
    for p in ('RAII', 'ZE'):
        for a, b in (('MALLOC', 'malloc'), ('FREE', 'free'), ('REALLOC', 'realloc'), ('CALLOC', 'calloc'), ('MEMALIGN', 'memalign')):
            f.append('-D%s_%s=%s' % (p, a, b))
    f += ['-D_GNU_SOURCE', '-include', 'stdlib.h', '-include', 'malloc.h', '-include', 'stdbool.h', '-DC_API=extern',
          '-DFORCEINLINE=inline', '-I' + REPO + '/include', '-I' + VERIF + '/witness']
    return f


def load(witness=(), sources=None, extra=(), text=None):
    """Module of the library plus witness files"""
    sources = SOURCES if sources is None else sources
    tmp = tempfile.mkdtemp(prefix='vpsa')
    try:
        jobs = []
        for n in sources:
            jobs.append((os.path.join(REPO, 'src', n + '.c'), os.path.join(tmp, n + '.bc'), ()))
        for w in witness:
            jobs.append((os.path.join(VERIF, 'witness', w), os.path.join(tmp, 'w_' + w + '.bc'), extra))
        if text:
            p = os.path.join(tmp, 'gen.c')
            open(p, 'w').write(text)
            jobs.append((p, os.path.join(tmp, 'w_gen.bc'), extra))

        def one(j):
            r = subprocess.run(['clang'] + flags() + list(j[2]) + ['-c', '-emit-llvm', j[0], '-o', j[1]], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('%s does not compile:\n%s' % (j[0], r.stderr[-2000:]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        a = os.path.join(tmp, 'all.bc')
        r = subprocess.run(['llvm-link'] + [j[1] for j in jobs] + ['-o', a], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link: ' + r.stderr[-2000:])
        o = os.path.join(tmp, 'all.ll')
        r = subprocess.run(['opt', '-passes=mem2reg', '-S', a, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('opt: ' + r.stderr[-2000:])
        return Module(open(o).read())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
