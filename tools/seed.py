#!/usr/bin/env python3
"""Make and confirm a planted bug: seed.py SPEC.py [ID...]   (SPEC.py holds bugs = [dict(id=, prop=, edits=[(file, old, new)], demo=, needs=, breaks=)])

Works in a scratch copy of /repo's state reached through `git apply` in /repo itself (the build script is tied
to that path) and undoes everything afterwards."""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
f="-w -std=gnu90 -O1 -g -DUSE_DEBUG -D_GNU_SOURCE -include stdlib.h -include malloc.h -include stdbool.h -DC_API=extern"
for p in RAII ZE; do f="$f -D${p}_MALLOC=malloc -D${p}_FREE=free -D${p}_REALLOC=realloc -D${p}_CALLOC=calloc -D${p}_MEMALIGN=memalign"; done
@BUILD@
cd "$t"
timeout 60 "$t/demo" > "$t/out" 2>&1
rc=$?
tail -n 5 "$t/out"
exit $rc
'''
LIB = '''gcc $f -Iinclude "-DFORCEINLINE=inline __attribute__((always_inline))" -o "$t/demo" "$d/demo.c" _build/libraii.a -lpthread || exit 99'''
ASAN = '''gcc $f -Iinclude "-DFORCEINLINE=inline __attribute__((always_inline))" -fsanitize=address -fno-omit-frame-pointer -o "$t/demo" "$d/demo.c" src/arena.c src/except.c @EXTRA@ src/raii.c src/swar.c -lpthread || exit 99
export ASAN_OPTIONS=detect_leaks=0'''
TH = r'''g="$f -Iinclude -Drpmalloc_init=rp_i -Drpmalloc_thread_finalize=rp_f -include $d/rp.h -Dthrd_create=my_create -Dthrd_join=my_join -Dthrd_exit=my_exit -Dthrd_yield=my_yield @EXTRA@"
I="-DFORCEINLINE=inline __attribute__((always_inline))"
gcc $g "$I" -c -o "$t/swar.o" src/swar.c && gcc $g "$I" @SAN@ -o "$t/demo" "$d/demo.c" src/arena.c src/except.c src/raii.c src/future.c "$t/swar.o" "$d/thr.c" -lpthread || exit 99
export TSAN_OPTIONS=halt_on_error=1:exitcode=66 ASAN_OPTIONS=detect_leaks=0'''
THR = r'''#include <pthread.h>
#include <stdlib.h>
#include <sched.h>
typedef int (*S)(void *); struct a { S f; void *p; };
int my_started, my_joined, my_fail;
static void *tr(void *v) { struct a a = *(struct a *)v; free(v); return (void *)(long)a.f(a.p); }
int my_create(pthread_t *t, S f, void *p) { if (my_fail && !--my_fail) return 2; struct a *a = malloc(sizeof *a); a->f = f; a->p = p; if (pthread_create(t, 0, tr, a)) return 2; my_started++; return 0; }
int my_join(pthread_t t, int *r) { if (pthread_join(t, 0)) return 2; my_joined++; return 0; }
void my_exit(int r) { pthread_exit((void *)(long)r); }
void my_yield(void) { sched_yield(); }
'''
RP = 'static inline int rp_i(void) { return 0; }\nstatic inline void rp_f(int x) {}\n'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd='/repo', **k)
def stable():
    sh('bash /opt/vp/test.sh /tmp/seed.out.json')
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/seed.out.json'))
    st = set(b.get('stable', b.get('passed', [])))
    return sorted(st - set(o['passed']))
def clean():
    sh('git checkout -- .')
def main():
    spec = runpy.run_path(sys.argv[1])['bugs']
    want = sys.argv[2:]
    assert not sh('git status --porcelain').stdout.strip(), 'repo dirty'
    for b in spec:
        if want and b['id'] not in want: continue
        d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
        build = b.get('build') or (TH if b.get('th') is not None else ASAN if b.get('asan') else LIB)
        build = build.replace('@SAN@', '-fsanitize=' + b['th'] if b.get('th') else '')
        if b.get('th') is not None:
            open(d + '/thr.c', 'w').write(THR)
            open(d + '/rp.h', 'w').write(RP)
        build = build.replace('@EXTRA@', b.get('extra', ''))
        open(d + '/demo.sh', 'w').write(DEMO.replace('@BUILD@', build)); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.c', 'w').write(b['demo'])
        for fn, fc in b.get('files', {}).items(): open(d + '/' + fn, 'w').write(fc)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        msg = []
        try:
            sh('bash /opt/vp/build.sh')
            r = sh(f'bash {d}/demo.sh')
            if r.returncode: msg.append('demo fails clean: ' + r.stdout[-600:] + r.stderr[-300:])
            mine = set()
            for f, o, n in b['edits']:
                t = open('/repo/' + f).read()
                if t.count(o) != 1: msg.append(f'{f}: {t.count(o)} matches of {o!r}'); continue
                bl = sh(f"git blame -s --root {f}").stdout.split('\n')
                open('/repo/' + f, 'w').write(t.replace(o, n))
            df = sh('git diff').stdout
            open(d + '/patch.diff', 'w').write(df)
            rem = []
            cur = None
            import re
            blame = {}
            for f, _, _ in b['edits']:
                blame[f] = sh(f'git blame -s HEAD -- {f}').stdout.split('\n')
            base = sh('git rev-list --max-parents=0 HEAD').stdout.strip()[:7]
            orig = mineN = 0
            for l in df.split('\n'):
                m = re.match(r'\+\+\+ b/(.*)', l)
                if m: cur = m.group(1); continue
                if l.startswith('--- '): continue
                m = re.match(r'@@ -(\d+)', l)
                if m: ln = int(m.group(1)); continue
                if cur is None: continue
                if l.startswith('-'):
                    if base in blame[cur][ln - 1][:12]: orig += 1
                    else: mineN += 1
                    ln += 1
                elif l.startswith(' '): ln += 1
            if mineN: msg.append(f'touches {mineN} of our own lines ({orig} original)')
            if not df: msg.append('no diff')
            miss = stable()
            if miss: msg.append(f'tests broken: {len(miss)} {miss[:4]}')
            r = sh(f'bash {d}/demo.sh')
            if r.returncode == 0: msg.append('demo passes with the bug')
            if r.returncode == 99: msg.append('demo did not build: ' + r.stderr[-300:])
        finally:
            clean(); sh('bash /opt/vp/build.sh')
        print(b['id'], 'OK' if not msg else msg, flush=True)
main()
