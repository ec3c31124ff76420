"""Shared driver: obligations, evidence, known findings, violation reports."""
import os, sys, json, time, re, pickle, select, signal, traceback
import lin as L
from lin import K, V, ZERO, ONE, add, sub, scale, is_const, single, show
import absint as A
import build

VERIF = build.VERIF
EVID = os.environ.get('VP_EVID') or os.path.join(VERIF, 'evidence')
_mods = {}


class Anchor(Exception):
    """what the check is about no longer exists: an error, never a pass"""


def arg(name, ptr=True, lo=None, hi=None):
    return V(L.sym(('arg', name), ptr, lo, hi))


class Stats:
    """what is reported of an analysis"""

    def __init__(s, a):
        s.funcs_seen, s.npaths, s.ninstr, s.loops_done = set(map(str, a.funcs_seen)), a.npaths, a.ninstr, a.loops_done
        s.sites = set(map(str, a.sites))
        s.unknown = {str(k): n for k, n in a.unknown.items()}


class Ctx:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.t0 = time.time()
        s.obl = {}          # rule -> [decided, failed]
        s.fail = []         # (key, msg, where, path)
        s.ans = []
        s.samples = []
        s.notes = []
        s.extra = {}
        s.undecided = []
        s.assumptions = []

    @property
    def thorough(s):
        return s.tier == 'thorough'

    def mod(s, *witness, **kw):
        key = (witness, tuple(sorted(kw.items())))
        m = _mods.get(key)
        if m is None:
            m = _mods[key] = build.load(witness, **kw)
        return m

    def an(s, mod, models=None, oom=0, **kw):
        a = A.Analysis(mod, models=models or {}, **kw)
        a.alloc_fail = oom > 0
        a.max_oom = oom
        a.entries = []
        s.ans.append(a)
        return a

    def need(s, mod, *names):
        for n in names:
            if n not in mod.funcs:
                raise Anchor('function %s is not defined in the analysed sources' % n)

    def ok(s, rule, cond, key, msg, where='', path=()):
        o = s.obl.setdefault(rule, [0, 0])
        o[0] += 1
        if not cond:
            o[1] += 1
            s.fail.append((key, msg, where, list(path)))
        return cond

    def bad(s, rule, key, msg, where='', path=()):
        return s.ok(rule, False, key, msg, where, path)

    def pull(s, an, rule):
        """turn the analyser's own reports (made by hooks) into failed obligations"""
        for (key, where), (msg, path) in an.results().items():
            s.bad(rule, key, msg, where, path)

    def start(s, a, client, args, setup=None):
        """analyse a client; when the analysis does not finish the rest of the check still runs, but cannot pass"""
        try:
            a.start(client, args, setup=setup)
            return True
        except A.Limit as e:
            s.undecided.append('%s: %s' % (client, e))
            a.ends = []
            return False

    def count(s, rule, n):
        o = s.obl.setdefault(rule, [0, 0])
        o[0] += n

    def sample(s, text):
        if len(s.samples) < 12:
            s.samples.append(text)

    def parallel(s, jobs, width=8, enough=None):
        """run independent parts of a check in processes of their own; once `enough` seconds have passed and something was found, the
        rest is left out"""
        running = {}
        todo = list(jobs)
        skipped = 0
        try:
            while todo or running:
                while todo and len(running) < width:
                    job = todo.pop(0)
                    if enough is not None and (s.fail or s.undecided) and time.time() - s.t0 > enough:
                        skipped += 1
                        continue
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        s.part(job, w)
                    os.close(w)
                    running[r] = (pid, [])
                if not running:
                    break
                for r in select.select(list(running), [], [], 1)[0]:
                    d = os.read(r, 1 << 20)
                    pid, buf = running[r]
                    if d:
                        buf.append(d)
                        continue
                    os.close(r)
                    os.waitpid(pid, 0)
                    del running[r]
                    if not buf:
                        s.undecided.append('a part of the analysis was lost')
                        continue
                    res = pickle.loads(b''.join(buf))
                    if isinstance(res, str):
                        print(res, file=sys.stderr)
                        s.undecided.append('a part of the analysis failed on this code: ' + res.strip().splitlines()[-1])
                        continue
                    s.merge(res)
                if running and enough is not None and (s.fail or s.undecided) and time.time() - s.t0 > 1.5 * enough:
                    skipped += len(running)
                    break
        finally:
            for pid, _ in running.values():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
        if skipped:
            s.extra['parts_left_out_after_a_violation'] = skipped

    def part(s, job, w):
        try:
            s.obl, s.fail, s.ans, s.samples, s.notes, s.extra, s.undecided = {}, [], [], [], [], {}, []
            try:
                job()
            except A.Limit as e:
                s.undecided.append('Limit: %s' % e)
            res = dict(obl=s.obl, fail=[(str(k), str(m), str(w_), [str(x) for x in p]) for k, m, w_, p in s.fail], samples=s.samples,
                       notes=s.notes, extra=s.extra, undecided=s.undecided, ans=[Stats(a) for a in s.ans])
        except Exception:
            res = traceback.format_exc()
        d = pickle.dumps(res)
        i = 0
        while i < len(d):
            i += os.write(w, d[i:i + 65536])
        os._exit(0)

    def merge(s, r):
        for k, o in r['obl'].items():
            x = s.obl.setdefault(k, [0, 0])
            x[0] += o[0]
            x[1] += o[1]
        s.fail += r['fail']
        s.samples = (s.samples + r['samples'])[:12]
        s.notes += r['notes']
        s.undecided += r['undecided']
        s.ans += r['ans']
        for k, v in r['extra'].items():
            if isinstance(v, dict):
                s.extra.setdefault(k, {}).update(v)
            elif isinstance(v, list):
                s.extra[k] = s.extra.get(k, []) + v
            else:
                s.extra[k] = v

    def ends(s, an, *kinds):
        return [e for e in an.ends if an.live(e) and (not kinds or e.end[0] in kinds)]


def known(pid):
    """[(kind, key, text)] of the findings file"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def finish(ctx, explanation):
    pid = ctx.pid
    kn = known(pid)
    seen = {}
    fails = {}
    for key, msg, where, path in ctx.fail:
        k = re.sub(r'\s+', '_', key)
        for kk, text in kn:
            if kk == k:
                seen[kk] = text
                break
        else:
            fails.setdefault(k, (msg, where, path))
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith('replay-%s-' % pid):
            os.unlink(os.path.join(EVID, f))
    # a construct the rules cannot follow to the end is one they do not hold on
    lost = [u for u in ctx.undecided if 'lost' in u]
    for u in ctx.undecided:
        if u not in lost:
            fails.setdefault(re.sub(r'\s+', '_', 'undecided:' + u)[:200], ('cannot be shown to hold: ' + u, u.split(': ')[-1], []))
    obligations = sum(o[0] for o in ctx.obl.values())
    discharged = obligations - sum(o[1] for o in ctx.obl.values())
    if obligations == 0 and not ctx.undecided:
        raise Anchor('no obligation was generated')
    funcs = set()
    sites = set()
    for a in ctx.ans:
        funcs |= a.funcs_seen
        sites |= a.sites
    cov = dict(explanation=explanation, obligations=obligations, discharged=discharged,
               rules={r: dict(obligations=o[0], failed=o[1]) for r, o in sorted(ctx.obl.items())},
               samples=ctx.samples)
    if ctx.ans:
        cov.update(analyses=len(ctx.ans), functions_analysed=sorted(f for f in funcs), call_sites=len(sites),
                   abstract_paths=sum(a.npaths for a in ctx.ans), instructions=sum(a.ninstr for a in ctx.ans),
                   loops_closed=sum(a.loops_done for a in ctx.ans))
        unk = {}
        for a in ctx.ans:
            for k, n in a.unknown.items():
                unk[str(k)] = unk.get(str(k), 0) + n
        cov['external_calls_not_modelled'] = unk
    cov.update(ctx.extra)
    if kn:
        cov['known_findings_seen'] = sorted(seen)
    ev = dict(property=pid, tier=ctx.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(fails))
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, seen[k]))
    n = 0
    for k, (msg, where, path) in sorted(fails.items()):
        n += 1
        rp = os.path.join(EVID, 'replay-%s-%d.txt' % (pid, n))
        with open(rp, 'w') as f:
            f.write('property: %s\nconstruct: %s\nwhere: %s\nwhat: %s\n' % (pid, k, where, msg))
            if path:
                f.write('path through the code:\n' + ''.join('  %s\n' % x for x in path))
        if n <= 8:
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s: %s [%s]' % (k, msg, where))
    print('%s: %d obligations, %d discharged, %d violations, %.1fs' % (pid, obligations, discharged, len(fails), time.time() - ctx.t0))
    for u in lost:
        print('UNDECIDED property=%s %s' % (pid, u))
    return 1 if fails else 2 if lost else 0
