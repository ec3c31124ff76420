"""Numbers and their texts, as sums over the digits: every content of a given length is one input."""
import time
from lanes import *

DEC = tuple(range(48, 58))
HEX = tuple(ord(c) for c in '0123456789abcdefABCDEF')


class Case:
    """one call of one function; text(...) and number(...) make inputs, the judges compare results"""

    def __init__(s, ctx, mod, fn, what):
        s.ctx, s.fn, s.what = ctx, fn, what
        s.M = Machine(mod)
        s.st = State()
        ctx.ans.append(s.M)

    def text(s, chars, beyond=8):
        """a text of these characters (lists of possible bytes); what follows is not known"""
        M = s.M
        n = len(chars)

        def byte(st, i):
            name = ('s%d' if i < n else 'after%d') % i
            M.var(st, name, chars[i] if i < n else range(256))
            return norm(st, N(8, 0, {name: st.vals[name]}))
        for i in range(n):
            byte(s.st, i)
        return Ptr(M.obj('the text', n, byte, loose=(0, n + beyond)), N(64, 0))

    def number(s, w, doms, neg=False):
        """a number of these digits (lowest first)"""
        x = N(w, 0)
        for k, d in enumerate(doms):
            T = s.M.var(s.st, 'd%d' % k, d)
            x = add(s.st, x, N(w, 0, {'d%d' % k: tuple(q * 10 ** k for q in T)}), -1 if neg else 1)
        return x

    def buffer(s, size):
        return Ptr(s.M.obj('the buffer', size), N(64, 0))

    def value(s, st, w, idx, base, neg=False):
        """the number the characters idx (highest first) spell"""
        r = N(w, 0)
        for j, i in enumerate(idx):
            k = base ** (len(idx) - 1 - j)
            r = add(st, r, N(w, 0, {'s%d' % i: tuple(int(chr(c), 16) * k if c in HEX else 0 for c in st.vals['s%d' % i])}), -1 if neg else 1)
        return r

    def digits(s, st, p, at, n):
        """None when the n characters at p are the digits of the number, highest first"""
        for i in range(n):
            k = 'd%d' % (n - 1 - i)
            e = same(st, s.M.load(st, None, Ptr(p.obj, N(64, at + i)), 1), N(8, 48, {k: st.vals[k]} if k in st.vals else {}))
            if e:
                return 'character %d %s' % (at + i, e)
        return s.byte(st, p, at + n, 0)

    def byte(s, st, p, at, c):
        e = same(st, s.M.load(st, None, Ptr(p.obj, N(64, at)), 1), N(8, c))
        return 'character %d %s' % (at, e) if e else None

    def run(s, args, judge):
        ctx = s.ctx
        rule = s.fn + ' is exact'
        if (ctx.fail or ctx.undecided) and time.process_time() > 20:
            ctx.extra['left_out'] = 'cases that follow one that fails'
            return
        try:
            for st, r in s.M.run(s.fn, args, s.st):
                e = judge(st, r)
                ctx.ok(rule, not e, '%s:%s' % (s.fn, s.what), '%s, %s: %s' % (s.fn, s.what, e) + (' (for example %s)' % tell(st) if e else ''), s.fn, st.log)
            ctx.sample('%s: %s' % (s.fn, s.what))
        except Stuck as e:
            ctx.undecided.append('%s, %s: %s' % (s.fn, s.what, e))
        rule = s.fn + ' stays inside'
        ctx.count(rule, 1)
        for (key, where), (msg, path) in s.M.reports.items():
            ctx.bad(rule, '%s:%s:%s' % (key, s.fn, where), '%s, %s: %s' % (s.fn, s.what, msg), where, path)


def upto(n, limit, lead=1):
    """lists of digits (lowest first) that together are all numbers of n digits up to limit"""
    z = [range(lead if k == n - 1 and n > 1 else 0, 10) for k in range(n)]
    if 10 ** n - 1 <= limit:
        return [z]
    m = [limit // 10 ** k % 10 for k in range(n)]
    out = []
    for j in range(n - 1, -1, -1):
        d = list(z)
        for k in range(j + 1, n):
            d[k] = [m[k]]
        d[j] = range(lead if j == n - 1 and n > 1 else 0, m[j])
        if len(d[j]):
            out.append(d)
    out.append([[q] for q in m])
    return out
