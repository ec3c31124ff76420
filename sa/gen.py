"""Generated clients: random programs over try, handlers, finally parts, guarded sections, deferred functions, errors and calls, each
with the set of event sequences the constructs are specified to have. The specification is the interpreter below: errors are Python
exceptions, a guarded section is a list of deferred functions run backwards. No code of the library is consulted."""
import itertools, random

NAMES = ('range_error', 'logic_error', 'out_of_memory')
HEAD = '''#include "raii.h"
void ev(int n); int choose(int n); void ev_int(long n); void ev_str(const char *s); void bad(int n);
'''

STOPS = ('throw', 'panic', 'ex', 'rethrow', 'break', 'ret')


class Err(Exception):
    def __init__(s, name, msg, line, fn):
        s.name, s.msg, s.line, s.fn = name, msg, line, fn


class Leave(Exception):
    """break or return out of a guarded section"""
    def __init__(s, how):
        s.how = how


class Gen:
    def __init__(s, rng, prefix, features, size=8, choices=4, depth=3):
        s.rng, s.prefix, s.f, s.choices, s.depth = rng, prefix, set(features), choices, depth
        s.left = size
        s.ev = 0
        s.line = 0
        s.funcs = []       # C text of called functions and deferred functions, in order
        s.nf = s.nv = 0
        s.body = s.block(0, {}, top=True)

    def event(s):
        s.ev += 1
        return s.ev

    def throw(s):
        s.line += 1
        r = s.rng.random()
        if r < 0.45:
            return ('throw', s.rng.choice(NAMES), s.line)
        if r < 0.8:
            return ('panic', s.rng.choice(('red', 'blue')), s.line)
        return ('ex', s.rng.choice(NAMES), s.rng.choice(('red', 'blue', None)), s.line)

    def block(s, d, c, top=False):
        out = []
        n = s.rng.randint(1, 3) if not top else s.rng.randint(2, 4)
        mine = []
        for _ in range(n):
            if c.get('intry') and 'protect' in s.f and s.rng.random() < 0.45:
                s.nv += 1
                mine.append(s.nv)
                c = dict(c, vars=c.get('vars', ()) + (s.nv,))
                out.append(('prot', s.nv, s.rng.choice((0, s.nv * 10, s.nv * 10))))
            out.append(s.stmt(d, c))
            if out[-1][0] in STOPS:
                break
        for k in reversed(mine) if s.rng.random() < 0.7 else mine:
            if out[-1][0] not in STOPS:
                out.append(('unprot', k))
        return out

    def stmt(s, d, c):
        """c: what is allowed here (guard: directly inside a guarded section, handler: inside a handler)"""
        r = s.rng.random
        s.left -= 1
        if s.left > 0 and d < s.depth:
            x = r()
            if 'try' in s.f and x < 0.45:
                return s.try_(d, c)
            if 'guard' in s.f and x < 0.70:
                # a section ended by return is alone in its function
                return ('guard', s.block(d + 1, dict(guard=True, solo=bool(c.get('fn')) and 'protect' not in s.f)))
            if x < 0.78:
                s.nf += 1
                k = s.nf
                return ('call', k, s.block(d + 1, dict(fn=True, intry=c.get('intry') and not c.get('guard'))))
        if c.get('vars') and r() < 0.3:
            k = s.rng.choice(c['vars'])
            return ('unprot', k) if r() < 0.5 else ('pset', k, s.rng.choice((0, k * 10, k * 10 + 1)))
        x = r()
        if s.choices > 0 and x < 0.45:
            s.choices -= 1
            alts = [[], [s.throw()]]
            if r() < 0.3:
                alts.append([s.throw()])
            if c.get('guard') and r() < 0.5:
                alts.append([('break',)])
            if c.get('solo') and r() < 0.5:
                alts.append([('ret', s.event())])
            return ('maybe', alts)
        if x < 0.52:
            return s.throw()
        if c.get('guard') and x < 0.85:
            k = s.event()
            if r() < 0.35 and 'recover' in s.f:
                return ('defer', k, s.rng.choice(NAMES + ('red', 'blue', 'red', 'blue')), s.event())
            return ('defer', k, None, None) if r() < 0.75 else ('malloc',)
        if c.get('handler') and x < 0.75:
            return ('rethrow',) if r() < 0.4 else ('meta',)
        return ('ev', s.event())

    def try_(s, d, c):
        i = dict(intry=True, vars=c.get('vars', ()))
        body = s.block(d + 1, i)
        hs = []
        for _ in range(s.rng.choice((0, 1, 1, 2, 2, 3))):
            k = s.rng.choice(NAMES + ('panic', 'any', 'any'))
            if k in [h[0] for h in hs]:
                continue
            hs.append((k, [('ev', s.event())] + ([('meta',)] if s.rng.random() < 0.6 else []) + s.block(d + 1, dict(i, handler=True))))
        fin = [('ev', s.event())] + (s.block(d + 2, dict(intry=c.get('intry'), vars=c.get('vars', ()))) if s.rng.random() < 0.3 else []) if not hs or s.rng.random() < 0.5 else None
        return ('try', body, hs, fin)

    # C text
    def emit(s, stmts, ind='    '):
        out = ''
        for t in stmts:
            k = t[0]
            if k == 'ev':
                out += '%sev(%d);\n' % (ind, t[1])
            elif k in ('throw', 'panic', 'ex'):
                ln = 100000 + t[-1]
                x = 'throw(%s);' % t[1] if k == 'throw' else 'raii_panic("%s");' % t[1] if k == 'panic' else \
                    'ex_throw(EX_NAME(%s), "here", %d, "%s", %s, NULL);' % (t[1], ln, s.fn, '"%s"' % t[2] if t[2] else 'NULL')
                out += '#line %d\n%s%s bad(1);\n' % (ln, ind, x)
            elif k == 'maybe':
                out += '%sswitch (choose(%d)) {\n' % (ind, len(t[1]))
                for i, alt in enumerate(t[1]):
                    if alt and alt[0][0] == 'break':
                        out += '%scase %d: goto brk%d;\n' % (ind, i, s.brk)
                        s.used.add(s.brk)
                        continue
                    out += '%scase %d:\n%s%s    break;\n' % (ind, i, s.emit(alt, ind + '    '), ind)
                out += ind + '}\n'
            elif k == 'try':
                out += '%stry {\n%s%s}' % (ind, s.emit(t[1], ind + '    '), ind)
                for h, b in t[2]:
                    out += ' %s {\n%s%s}' % ('catch_any' if h == 'any' else 'catch (%s)' % h, s.emit(b, ind + '    '), ind)
                if t[3] is not None:
                    out += ' finally {\n%s%s}' % (s.emit(t[3], ind + '    '), ind)
                out += ' end_try;\n'
            elif k == 'guard':
                old, s.nb = s.brk, s.nb + 1
                s.brk = s.nb
                b = s.emit(t[1], ind + '    ')
                if s.brk in s.used:
                    b += '%s    if (0) { brk%d: break; }\n' % (ind, s.brk)
                out += '%sguard {\n%s%s} guarded;\n' % (ind, b, ind)
                s.brk = old
            elif k == 'call':
                name = '%s_f%d' % (s.prefix, t[1])
                keep = s.fn, s.brk
                s.fn = name
                b = s.emit(t[2])
                s.fn, s.brk = keep
                s.out += 'static __attribute__((noinline)) void %s(void) {\n    KEEP();\n%s    SAME();\n}\n' % (name, b)
                out += '%s%s();\n' % (ind, name)
            elif k == 'defer':
                name = '%s_d%d' % (s.prefix, t[1])
                s.out += 'static void %s(void *p) { ev(%d); %s}\n' % (name, t[1], 'if (_recover("%s")) ev(%d); ' % (t[2], t[3]) if t[2] else '')
                out += '%s_defer(%s, NULL);\n' % (ind, name)
            elif k == 'prot':
                out += '%svoid *p%d = (void *)%dL; protected(p%d, rel);\n' % (ind, t[1], t[2], t[1])
            elif k == 'unprot':
                out += '%sunprotected(p%d);\n' % (ind, t[1])
            elif k == 'pset':
                out += '%sp%d = (void *)%dL;\n' % (ind, t[1], t[2])
            elif k == 'malloc':
                out += '%s_malloc(8);\n' % ind
            elif k == 'rethrow':
                out += '%srethrow(); bad(2);\n' % ind
            elif k == 'meta':
                out += '%sev_str(ex_err.ex); ev_str(ex_err.panic); ev_int(ex_err.line); ev_str(ex_err.function);\n' % ind
            elif k == 'break':
                out += '%sbreak;\n' % ind
            elif k == 'ret':
                out += '%sev(%d); _return();\n' % (ind, t[1])
        return out

    def text(s):
        s.out = ''
        s.fn = s.prefix
        s.brk = s.nb = 0
        s.used = set()
        b = s.emit(s.body)
        return 'static void %s_top(void *p) { ev(900); }\n' % s.prefix + s.out + \
            'void %s(void) {\n    raii_init(); raii_defer(%s_top, NULL);\n    KEEP();\n%s    SAME();\n    raii_destroy();\n}\n' % (s.prefix, s.prefix, b)

    # specification
    def traces(s, limit=400):
        out = set()
        todo = [()]
        n = 0
        while todo:
            pre = todo.pop()
            s.pre, s.pos, s.alts = list(pre), 0, []
            s.tr, s.guards = [], []
            s.prot, s.val = [[]], {}
            s.cur = s.prefix
            try:
                s.exec(s.body)
                s.tr += [901, 900]
                end = 'return'
            except Err:
                s.tr.append(900)
                end = 'exit'
            out.add(tuple(s.tr) + (end,))
            n += 1
            if n > limit:
                return None
            for i in range(len(pre), s.pos):
                for k in range(1, s.alts[i]):
                    todo.append(tuple(s.pre[:i]) + (k,))
        return out

    def exec(s, stmts, err=None):
        for t in stmts:
            k = t[0]
            if k == 'ev':
                s.tr.append(t[1])
            elif k == 'throw':
                raise Err(t[1], None, 100000 + t[2], s.cur)
            elif k == 'panic':
                raise Err('panic', t[1], 100000 + t[2], s.cur)
            elif k == 'ex':
                raise Err(t[1], t[2], 100000 + t[3], s.cur)
            elif k == 'maybe':
                if s.pos >= len(s.pre):
                    s.pre.append(0)
                s.alts.append(len(t[1]))
                c = s.pre[s.pos]
                s.pos += 1
                s.exec(t[1][c], err)
            elif k == 'try':
                s.try_run(t)
            elif k == 'guard':
                s.guard_run(t)
            elif k == 'call':
                old, s.cur = s.cur, '%s_f%d' % (s.prefix, t[1])
                ret = False
                try:
                    s.exec(t[2])
                except Leave as x:
                    if x.how != 'ret':
                        raise
                    ret = True
                s.cur, _ = old, None if ret else s.tr.append(901)
            elif k == 'defer':
                s.guards[-1]['defers'].append(t)
            elif k == 'prot':
                s.prot[-1].append(t[1])
                s.val[t[1]] = t[2]
            elif k == 'unprot':
                for c in s.prot:
                    if t[1] in c:
                        c.remove(t[1])
            elif k == 'pset':
                s.val[t[1]] = t[2]
            elif k == 'rethrow':
                raise Err(err.name, err.msg, err.line, err.fn)
            elif k == 'meta':
                s.tr += [err.name, err.msg or 'null', err.line, err.fn]
            elif k == 'break':
                raise Leave('break')
            elif k == 'ret':
                s.tr.append(t[1])
                raise Leave('ret')

    def past(s, n):
        """an error leaves the try whose protections are the n-th list"""
        for k in reversed(s.prot[n]):
            if s.val[k]:
                s.tr += [950, s.val[k]]
        del s.prot[n][:]
        del s.prot[n + 1:]

    def try_run(s, t):
        cur = s.cur
        depth = len(s.guards)
        n = len(s.prot)
        s.prot.append([])
        try:
            try:
                s.exec(t[1])
            except Err as e:
                s.cur = cur
                del s.guards[depth:]
                s.past(n)
                for h, b in t[2]:
                    if h == 'any' or h == e.name:
                        s.exec(b, e)
                        break
                else:
                    raise
        except Err:
            s.cur = cur
            del s.guards[depth:]
            s.past(n)
            s.prot.pop()
            if t[3] is not None:
                s.exec(t[3])
            raise
        s.prot.pop()
        if t[3] is not None:
            s.exec(t[3])

    def guard_run(s, t):
        cur = s.cur
        g = dict(defers=[])
        s.guards.append(g)
        depth = len(s.guards)
        err = None
        leave = None
        try:
            s.exec(t[1])
        except Leave as x:
            leave = x
        except Err as e:
            err = e
        s.cur = cur
        del s.guards[depth:]
        handled = False
        for d in reversed(g['defers']):
            s.tr.append(d[1])
            if d[2] and err is not None and (err.msg or err.name) == d[2]:
                s.tr.append(d[3])
                handled = True
        s.guards.pop()
        if err is not None and not handled:
            raise err
        if leave is not None and leave.how == 'ret':
            raise leave


KEEP = '''
static void rel(void *x) { ev(950); ev_int((long)x); }
#define KEEP() ex_context_t *c0 = ex_local(); void *a0 = raii_local()->arena; ex_setup_func s0 = exception_setup_func; ex_unwind_func u0 = exception_unwind_func
#define SAME() do { if (c0 == ex_local() && a0 == raii_local()->arena && s0 == exception_setup_func && u0 == exception_unwind_func) ev(901); else bad(3); } while (0)
'''


def suite(seed, tag, features, n, lo=3, hi=60, **kw):
    """(C text, [(client, expected traces)])"""
    rng = random.Random(seed)
    text, out, seen = HEAD + KEEP + ''.join('extern const char ex_err_%s[];\n' % x for x in NAMES + ('panic',)), [], 0
    while len(out) < n:
        seen += 1
        if seen > n * 400:
            break
        g = Gen(rng, 'wz_%s%d' % (tag, len(out)), features, **kw)
        t = g.traces(hi * 4)
        if t is None or not lo <= len(t) <= hi:
            continue
        x = g.text()
        if not wanted(x, features):
            continue
        text += x
        out.append((g.prefix, t))
    return text, out


def wanted(t, features):
    return 'choose(' in t and all({'try': ' end_try;', 'guard': ' guarded;', 'recover': '_recover(', 'protect': 'protected(p'}[f] in t for f in features)


def check(ctx, tag, features, quick, thorough, rule, **kw):
    import os, trace
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    def bad(an, st, ins, a):
        an.report(st, ins, 'bad', 'control goes on after a throw, or the state in force before the construct is not restored')
        return [(st, None)]
    n = thorough if ctx.thorough else quick
    paths = 0
    for k in range(0, n, 50):
        text, clients = suite('%s/%d/%d' % (tag, seed, k), '%s%d_' % (tag, k), features, min(50, n - k), **kw)
        mod = ctx.mod(text=text)
        for w, exp in clients:
            a, tr = trace.check(ctx, mod, w, exp, models={'bad': bad}, rule=rule, leak=True, unroll=30)
            paths += len(tr)
    ctx.count('generated clients', n)
    ctx.count('event sequences of generated clients', paths)
