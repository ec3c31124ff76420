from core import *
import functools
import re
import base64
import defer
import narrow
import strcheck
import life
from strcheck import Job
from props.C24 import length, block, exact
from props import C30
import lanes

EXPLANATION = ('The coding tables are read from the program and compared with the alphabet. The coding functions are abstractly interpreted with input of '
               'any length and content: every access must stay inside its block, the characters of the result must be put one after the other, and every '
               'bit of each is traced to the input bit it must be. For decoding, the number of digits left in the input is a ghost value related to the '
               'positions by affine loop invariants, which gives the bounds, the exact length and when nothing is returned.')


def tables(ctx, mod):
    """what the constant tables that the coding functions use hold"""
    rule = 'coding tables'
    used = {}
    for f in ('str_encode64_ex', 'str_decode64_ex', 'is_base64'):
        for g in reach(mod, f):
            c = base64.content(mod, mod.globals[g]) if g in mod.globals else None
            if c is not None and len(c) in (64, 65, 256):
                used.setdefault(g, (c, set()))[1].add(f)
    for g, (c, fs) in sorted(used.items()):
        ctx.sample('%s (%d bytes), used by %s' % (g, len(c), ', '.join(sorted(fs))))
        if len(c) == 256:
            ctx.ok(rule, c[0] not in range(64), 'reject:%s' % g, 'the byte 0 is taken for a digit', g)
            for i in range(256):
                j = base64.ALPHABET.find(bytes([i]))
                if j >= 0:
                    ctx.ok(rule, c[i] == j, 'decode:%s:%d' % (g, i), 'the digit %r has value %d, not %d' % (chr(i), c[i], j), g)
                elif i == base64.PAD:
                    ctx.ok(rule, c[i] == 0, 'decode:%s:%d' % (g, i), "'=' has value %d, not 0" % c[i], g)
                else:
                    ctx.ok(rule, c[i] == c[0], 'decode:%s:%d' % (g, i), 'byte %d is taken for a digit of value %d' % (i, c[i]), g)
        else:
            for i in range(64):
                ctx.ok(rule, c[i] == base64.ALPHABET[i], 'encode:%s:%d' % (g, i), 'digit %d is written %r' % (i, chr(c[i])), g)


def reach(mod, f, seen=None):
    """the constant data that a function and the functions of the module it calls use"""
    seen = set() if seen is None else seen
    if f in seen or f not in mod.funcs:
        return set()
    seen.add(f)
    out = set()
    for ins in (i for b in mod.funcs[f].blocks.values() for i in b):
        for n in re.findall(r'@"?([\w.$]+)', ins.text):
            if '@' + n in mod.globals:
                out.add('@' + n)
            elif n in mod.funcs:
                out |= reach(mod, n, seen)
    return out


def counted(T, a, mod, only=0):
    T.codes = base64.Codes(T, mod, only)
    T.mod = mod


def encode(mod):
    def extra(T, a):
        counted(T, a, mod)

        def chk(an, st, ins, base, off, v):
            return base64.encoded(T.codes, block(T, 's'))(an, st, ins, base, off, v)
        T.codes.checks.append(chk)

    def want(T, an, st, ins, kind, x):
        n = length(T, 's')
        if st.eq0(x[0]):
            return [(False, 'no-result', 'a null pointer is returned')]
        r = exact(T, st, ins, x[0], scale(A.evalop(st, 'udiv', add(n, K(2)), K(3), 64), 4))
        b, o = T.split(st, x[0])
        put = st.norm(st.ghost.get('#put%d' % b, ZERO))
        z = T.terminator(st, b, o)
        if z is not None:
            r.append((st.eq0(st.norm(sub(put, z))), 'characters', '%s characters are put, the result ends at %s' % (show(put), show(z))))
        return r
    return extra, want


def decode(mod, only=0):
    def extra(T, a):
        counted(T, a, mod, only)

    def want(T, an, st, ins, kind, x):
        s = block(T, 's')
        D = st.norm(T.codes.count(s))
        left, pads = st.norm(st.ghost['#left%d' % s]), st.norm(st.ghost['#pads%d' % s])
        if st.eq0(x[0]):
            r = A.evalop(st, 'urem', D, K(4), 64)
            return [(st.eq0(D) or st.ne0(r) or st.ge0(sub(pads, K(3))), 'no-result', 'nothing is returned although the number of digits is a multiple of four')]
        out = [(st.eq0(A.evalop(st, 'urem', D, K(4), 64)), 'partial', 'something is returned although the number of digits is not a multiple of four'),
               (st.ge0(sub(D, ONE)), 'empty', 'something is returned although there is no digit')]
        b, o, z = T.end(st, x[0], ins, 'the result')
        z = None if z is None else st.ghost.get('#end%d' % b)
        z = None if z is None else st.norm(z)
        out.append((z is not None, 'end', 'no terminator is put behind the result'))
        if z is not None and not only:
            l = st.norm(sub(z, o))
            d = st.norm(sub(scale(add(l, pads), 4), scale(sub(D, left), 3)))
            out.append((st.eq0(d), 'length', 'the result has %s bytes for %s digits, %s of them padding' % (show(l), show(st.norm(sub(D, left))), show(pads))))
        if z is not None and only:
            for i in range(only * 3 // 4):
                if st.ge0(st.norm(sub(sub(z, o), K(i + 1)))):
                    w = an.load(st, b, st.norm(add(o, K(i))), 1)
                    w = None if w[0] == 'agg' else base64.decoded(T.codes, st, s, w, i)
                    if w is not None:
                        T.codes.nbits += 8
                        out.append((w == '', 'bits', w))
        return out
    return extra, want


def isit(mod):
    def want(T, an, st, ins, kind, x):
        s = block(T, 's')
        D = st.norm(T.codes.count(s))
        n = T.args[s]
        if st.eq0(x[0]):
            return [(st.ge0(st.norm(sub(sub(n, D), ONE))), 'rejected', 'text that consists of digits is rejected')]
        return [(st.ne0(x[0]) and st.eq0(st.norm(sub(n, D))), 'accepted', 'text with other bytes than digits is accepted')]
    return lambda T, a: counted(T, a, mod), want


def digit(st, d):
    """the character number d of the alphabet"""
    return lanes.pointwise(st, 8, lambda q: base64.ALPHABET[q], d, wide=True)


def bits(st, x, *parts):
    """the bits of unknown bytes put together: (unknown, right shift, mask, left shift)"""
    r = lanes.N(8, 0)
    for v, a, m, b in parts:
        r = lanes.add(st, r, lanes.N(8, 0, {v: tuple((x(c) >> a & m) << b for c in st.vals[v])}))
    return r


def encodes(ctx, mod, n):
    """every text of n bytes: each character of the result is the one the coding calls for"""
    c = C30.Text(ctx, mod, 'str_encode64_ex', 'text of %d' % n)
    t = c.unknown(n)

    def judge(st, r):
        if not isinstance(r, lanes.Ptr):
            return 'there is no result'
        k, x = 0, lambda c: c
        for i in range(0, n, 3):
            v = ['s%d' % j for j in range(i, min(i + 3, n))]
            want = [bits(st, x, (v[0], 2, 63, 0)), bits(st, x, (v[0], 0, 3, 4), *[(v[1], 4, 15, 0)] if len(v) > 1 else [])]
            if len(v) > 1:
                want.append(bits(st, x, (v[1], 0, 15, 2), *[(v[2], 6, 3, 0)] if len(v) > 2 else []))
            if len(v) > 2:
                want.append(bits(st, x, (v[2], 0, 63, 0)))
            want = [digit(st, d) for d in want]
            want += [lanes.N(8, base64.PAD)] * (4 - len(want))
            for w in want:
                e = lanes.same(st, c.M.load(st, None, C30.add_(r, k), 1), w)
                if e:
                    return 'character %d %s' % (k, e)
                k += 1
        return c.byte(st, r, k, 0)
    c.run([lanes.N(64, 0), t], judge)


def decodes(ctx, mod, n, pads, odd=None):
    """every text of n digits, the last of them padding, with a byte that is no digit before one of them"""
    A64, other = tuple(base64.ALPHABET), tuple(i for i in range(1, 256) if i not in base64.ALPHABET and i != base64.PAD)
    c = C30.Text(ctx, mod, 'str_decode64_ex', '%d digits, %d of them padding%s' % (n, pads, '' if odd is None else ', another byte before digit %d' % odd))
    M, names = c.M, []
    for i in range(n):
        if i == odd:
            names.append('o%d' % i)
            M.var(c.st, names[-1], other)
        names.append('s%d' % i)
        M.var(c.st, names[-1], (base64.PAD,) if i >= n - pads else A64)
    z = len(names)
    t = lanes.Ptr(M.obj('the text', z + 1, lambda st, i: lanes.norm(st, C30.unknown(st, names[i])) if 0 <= i < z else lanes.N(8, 0) if i == z else
                        lanes.top(8), const=True, loose=(-8, z + 9)), lanes.N(64, 0))

    def judge(st, r):
        if n == 0 or n % 4:
            return None if isinstance(r, lanes.N) and lanes.const(lanes.norm(st, r)) == 0 else 'there is a result'
        if not isinstance(r, lanes.Ptr):
            return 'there is no result'
        x = lambda c: max(base64.ALPHABET.find(bytes([c])), 0)
        for k in range(n // 4 * 3 - pads):
            i, j = k // 3 * 4, k % 3
            e = lanes.same(st, M.load(st, None, C30.add_(r, k), 1),
                           bits(st, x, ('s%d' % (i + j), 0, (63, 15, 3)[j], (2, 4, 6)[j]), ('s%d' % (i + j + 1), (4, 2, 0)[j], 63, 0)))
            if e:
                return 'byte %d %s' % (k, e)
        return c.byte(st, r, n // 4 * 3 - pads, 0)
    c.run([lanes.N(64, 0), t], judge)


def contents(ctx, mod):
    th = ctx.tier == 'thorough'
    a = [functools.partial(encodes, ctx, mod, n) for n in range(19 if th else 13)]
    for n in range(21 if th else 13):
        for p in (0, 1, 2) if n and n % 4 == 0 else (0,):
            a += [functools.partial(decodes, ctx, mod, n, p, o) for o in [None] + [o for o in {0, 1, n // 2, n - 1} if 0 <= o < n]]

    def part(g):
        for f in a[g::8]:
            f()
    return [functools.partial(part, g) for g in range(8)]


def run(ctx):
    A.DEPTH = 2
    A.ELIMINATE = True
    mod = ctx.mod('w_str.c', 'w_defer.c')
    ctx.need(mod, 'str_encode64_ex', 'str_decode64_ex', 'is_base64')
    lay = defer.Layout(ctx, mod)
    tables(ctx, mod)
    ctx.assumptions.append('texts are at most %d bytes long' % strcheck.text.MAXLEN)
    e, w = encode(mod)
    d, v = decode(mod)
    f, u = decode(mod, 8)
    i, t = isit(mod)
    parts = [Job('wb_encode', ['s'], w, extra=e), Job('wb_encode_thread', ['s'], w, extra=e), Job('wb_decode', ['s'], v, extra=d),
             Job('wb_decode_thread', ['s'], v, extra=d), Job('wb_is64', ['s'], t, extra=i)]
    first = Job('wb_decode', ['s'], u, extra=f, setup=lambda T, an, st: st.assume_ge0(sub(length(T, 's'), K(8))))
    narrow.check(ctx, mod, narrow.reach(mod, ['is_base64', 'str_encode64_ex', 'str_decode64_ex']))
    ctx.parallel([functools.partial(strcheck.run, ctx, mod, lay, j) for j in parts] +
                 [functools.partial(strcheck.once, ctx, mod, lay, first, 'first digits of wb_decode', unroll=5)] + contents(ctx, mod), enough=100)
