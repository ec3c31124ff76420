#!/usr/bin/env python3
"""try.py PATCH|'file:::old:::new' [ID...]   run checks against a scratch copy of /repo with a change applied (development aid)"""
import sys, os, subprocess, tempfile, shutil, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    what = sys.argv[1]
    ids = sys.argv[2:] or sorted(f[:-3] for f in os.listdir(V + '/sa/props') if f.startswith('C'))
    t = tempfile.mkdtemp(prefix='vptry')
    try:
        for d in ('src', 'include'):
            shutil.copytree('/repo/' + d, t + '/' + d)
        if ':::' in what:
            f, old, new = what.split(':::')
            s = open(t + '/' + f).read()
            if s.count(old) < 1:
                sys.exit('text not found')
            open(t + '/' + f, 'w').write(s.replace(old, new, 1))
        elif what != '-':
            r = subprocess.run(['patch', '-p1', '-s', '-i', os.path.abspath(what)], cwd=t, capture_output=True, text=True)
            if r.returncode:
                sys.exit('patch: ' + r.stdout + r.stderr)

        def one(i):
            env = dict(os.environ, VP_REPO=t, VP_EVID=t + '/ev')
            os.makedirs(t + '/ev', exist_ok=True)
            r = subprocess.run(['timeout', '900', sys.executable, V + '/check.py', i], capture_output=True, text=True, env=env)
            return i, r.returncode, (r.stdout + r.stderr)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for i, rc, out in ex.map(one, ids):
                if rc == 0:
                    print(i, 'quiet')
                else:
                    ls = [x.replace(t, '') for x in out.splitlines() if not x.startswith('VIOLATION')]
                    print(i, {1: 'VIOLATION', 2: 'ERROR'}.get(rc, rc), '\n   '.join([''] + [x[:220] for x in ls[:3]]))
    finally:
        shutil.rmtree(t)


main()
