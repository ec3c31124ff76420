from core import *
from digits import *

EXPLANATION = ('Each conversion is abstractly interpreted on inputs whose characters (or digits) are unknowns: a machine word is kept as a sum of '
               'tables over single unknowns, so one run covers every content of a given length. The result must be the number the characters '
               'spell, or the characters the number calls for, as an equality of such sums; what is stored must be inside the buffer.')

FUNCS = ('atou8', 'simd_atou', 'simd_atoi', 'htou8', 'simd_htou', 'simd_itoa', 'itoa8', 'utoap', 'utoa2p', 'utoa2p_ex', 'simd_atod', 'cast8')


def unsigned(ctx, mod, fn, most, alphabet, base):
    for n in range(most + 1):
        c = Case(ctx, mod, fn, 'text of %d digits' % n)
        t = c.text([alphabet] * n)
        c.run([t, N(32, n)], lambda st, r: same(st, r, c.value(st, r.w, range(n), base)))


def signed_(ctx, mod):
    fn = 'simd_atoi'
    for n in range(20):
        for sign in ('', '+', '-'):
            c = Case(ctx, mod, fn, 'text of %d digits%s' % (n, ' after a ' + sign if sign else ''))
            t = c.text([(ord(x),) for x in sign] + [DEC] * n)
            k = len(sign)
            c.run([t, N(32, n + k)], lambda st, r: same(st, r, c.value(st, r.w, range(k, n + k), 10, sign == '-')))


def printing(ctx, mod, fn, w, size, most, mneg, hi, lo):
    for neg in (False, True):
        for n in range(1, (mneg if neg else most) + 1):
            for d in upto(n, lo if neg else hi):
                if neg and n == 1:
                    d = [range(1, 10)]
                c = Case(ctx, mod, fn, '%snumber of %d digits' % ('negative ' if neg else '', n))
                x = c.number(w, d, neg)
                b = c.buffer(size)

                def judge(st, r):
                    return (c.byte(st, b, 0, 45) if neg else None) or c.digits(st, b, int(neg), n) or same(st, r, N(r.w, n + neg))
                c.run([x, b], judge)


def padded(ctx, mod):
    for n in range(21):
        for d in upto(n, (1 << 64) - 1, 0) if n else [[(0, 7)]]:
            c = Case(ctx, mod, 'utoap', '%d places' % n)
            x = c.number(64, d)
            b = c.buffer(25)

            def judge(st, r):
                if not isinstance(r, Ptr) or r.obj != b.obj or same(st, r.off, N(64, 0)):
                    return 'the buffer is not what is returned'
                return c.digits(st, b, 0, n)
            c.run([N(32, n), x, b], judge)


def pairs(ctx, mod):
    c = Case(ctx, mod, 'utoa2p', 'two digits')
    c.run([c.number(64, [range(10)] * 2)],
          lambda st, r: same(st, r, N(16, 0x3030, {'d1': tuple(range(10)), 'd0': tuple(256 * q for q in range(10))})))
    c2 = Case(ctx, mod, 'utoa2p_ex', 'two digits')
    b = c2.buffer(2)

    def judge(st, r):
        for i, k in ((0, 'd1'), (1, 'd0')):
            e = same(st, c2.M.load(st, None, Ptr(b.obj, N(64, i)), 1), N(8, 48, {k: st.vals[k]}))
            if e:
                return 'character %d %s' % (i, e)
    c2.run([c2.number(64, [range(10)] * 2), b], judge)


def bytes8(ctx, mod):
    for n in range(9):
        c = Case(ctx, mod, 'cast8', '%d bytes' % n)
        t = c.text([range(256)] * n)
        c.run([t, N(32, n)], lambda st, r: same(st, r, N(64, 0, {'s%d' % i: tuple(q << 8 * i for q in range(256)) for i in range(n)})))


def decimals(ctx, mod):
    lens = [(a, b) for a in range(0, 8) for b in (None,) + tuple(range(0, 8))] + [(1, 18), (9, 9), (18, None), (18, 1), (0, 20), (12, 6)]
    if ctx.tier == 'thorough':
        lens += [(a, b) for a in range(19) for b in range(19) if (a, b) not in lens]
    for a, b in lens:
        for sign in ('', '-', '+'):
            if not a and not b:
                continue
            k = len(sign)
            c = Case(ctx, mod, 'simd_atod', '%s%d digits%s' % (sign, a, '' if b is None else ' and %d decimals' % b))
            t = c.text([(ord(x),) for x in sign] + [DEC] * a + ([(46,)] + [DEC] * b if b is not None else []))
            n = k + a + (0 if b is None else b + 1)

            def judge(st, r):
                if not isinstance(r, Fl):
                    return 'the result is not a floating-point number'
                f = linear(st, r)
                want = {1.0: c.value(st, 64, range(k, k + a), 10, sign == '-')}
                if b:
                    want[10.0 ** -b] = c.value(st, 64, range(k + a + 1, n), 10, sign == '-')
                if f.pop(None, 0.0):
                    return 'a constant is added'
                for q, x in f.items():
                    x = norm(st, x)
                    m = [p for p in want if abs(p - q) <= 1e-9 * p]
                    if not m and not (x.k == 64 and not x.t and x.c == 0):
                        return 'digits count %g' % q
                    e = same(st, x, want.pop(m[0])) if m else None
                    if e:
                        return 'the part that counts %g %s' % (q, e)
                for p, x in want.items():
                    e = same(st, N(64, 0), x)
                    if e:
                        return 'the part that counts %g %s' % (p, e)
            c.run([t, N(32, n)], judge)


def run(ctx):
    mod = ctx.mod()
    ctx.need(mod, *FUNCS)
    ctx.assumptions.append('characters to convert are digits (and a sign or point where one is allowed): what other characters give is not defined')
    ctx.assumptions.append('rounding of floating-point operations is left aside: the factors digits count with are compared to nine places')
    ctx.parallel([
        lambda: unsigned(ctx, mod, 'atou8', 8, DEC, 10),
        lambda: unsigned(ctx, mod, 'simd_atou', 20, DEC, 10),
        lambda: unsigned(ctx, mod, 'htou8', 8, HEX, 16),
        lambda: unsigned(ctx, mod, 'simd_htou', 16, HEX, 16),
        lambda: signed_(ctx, mod),
        lambda: printing(ctx, mod, 'simd_itoa', 64, 22, 19, 19, (1 << 63) - 1, 1 << 63),
        lambda: printing(ctx, mod, 'itoa8', 32, 16, 8, 7, 99999999, 9999999),
        lambda: padded(ctx, mod),
        lambda: pairs(ctx, mod),
        lambda: bytes8(ctx, mod),
        lambda: decimals(ctx, mod)], enough=60)
