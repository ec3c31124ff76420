"""Base64 coding: tables, which bits of the input every character of the result is made of, and how many digits are left in a text.

The number of digits in a text is an unknown constant of the text; the ghosts '#left', '#pads' and '#dat' hold how many are left at
or behind the position a scan has reached, how many of those passed were '=', and that position. What is stored into a result is
evaluated bit by bit: every bit is 0, 1 or a particular bit of a particular byte (or digit) of the input."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, scale, is_const, single, show
import absint as A
import strings

ALPHABET = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
PAD = 61


def content(mod, g):
    """the bytes of a constant table, or None"""
    ty = mod.resolve(g.ty)
    if g.init is None or not getattr(g, 'const', False) or ty.k != 'arr' or mod.size(ty.elt) != 1:
        return None
    if g.init.kind == 'str':
        return bytes(g.init.v)
    if g.init.kind == 'agg':
        out = []
        for c in g.init.v:
            if c.kind == 'zero':
                out.append(0)
            elif isinstance(c.v, int):
                out.append(c.v % 256)
            else:
                return None
        return bytes(out)
    return None


def bits(st, x, w=64):
    """the bits of a value, lowest first: 0, 1, (symbol, number of the bit) or '*' for a mixture of several; None when that is not known"""
    x = st.norm(x)
    out = [(x[0] >> i) & 1 for i in range(w)] if x[0] >= 0 else None
    if out is None:
        return None
    for y, c in x[1]:
        if c <= 0 or c & (c - 1):
            return None
        b = symbits(st, y, w)
        if b is None:
            return None
        k = c.bit_length() - 1
        b = ([0] * k + b)[:w]
        for i in range(w):
            if b[i] != 0:
                if out[i] != 0:
                    # a sum in which digits carry
                    for j in range(i, w):
                        out[j] = '*'
                    break
                out[i] = b[i]
    return out


def symbits(st, y, w):
    t = L.term(y)
    k = t[0]
    lo, hi = st.symbound(y)
    if k == 'urem' and is_const(t[2]) and t[2][0] & (t[2][0] - 1) == 0:
        b = bits(st, t[1], w)
        n = t[2][0].bit_length() - 1
        return None if b is None else b[:n] + [0] * (w - n)
    if k in ('udiv', 'sdiv', 'lshr', 'ashr') and is_const(t[2]):
        n = t[2][0]
        if k in ('udiv', 'sdiv'):
            if n & (n - 1):
                return None
            n = n.bit_length() - 1
        b = bits(st, t[1], w)
        if b is None or k in ('ashr', 'sdiv') and b[-1] != 0:
            return None
        return b[n:] + [0] * n
    if k in ('or', 'and', 'xor'):
        a, b = bits(st, t[1], w), bits(st, t[2], w)
        if a is None or b is None:
            return None
        out = []
        for i, j in zip(a, b):
            if k == 'and':
                out.append(0 if i == 0 or j == 0 else i if j == 1 or i == j else j if i == 1 else '*')
            elif i == 0 or j == 0:
                out.append(j if i == 0 else i)
            elif k == 'or' and (i == 1 or j == 1 or i == j):
                out.append(1 if 1 in (i, j) else i)
            else:
                out.append('*')
        return out
    if k == 'trunc':
        b = bits(st, t[1], w)
        n = t[-1] if isinstance(t[-1], int) else None
        return None if b is None or n is None else b[:n] + [0] * (w - n)
    if k == 'zext':
        b = bits(st, t[1], w)
        n = t[2]
        return None if b is None else b[:n] + [0] * (w - n)
    if lo < 0 or hi >= 1 << 32:
        return None
    n = int(hi).bit_length()
    return [(y, i) for i in range(n)] + [0] * (w - n)


class Codes:
    def __init__(s, T, mod, only=0):
        s.T, s.an, s.only = T, T.an, only
        s.tables = {}
        for n, g in mod.globals.items():
            c = content(mod, g)
            if c is not None:
                s.tables[n] = c
        s.old = T.an.loader
        T.an.loader = s.load
        s.checks = []
        s.nbits = 0
        T.an.hooks['store'].append(s.store)
        T.an.hooks['loop'].append(s.on_loop)
        T.an.hooks['hint'].append(s.hints)

    def decoders(s):
        return [n for n, c in s.tables.items() if len(c) == 256]

    def count(s, b):
        return V(L.sym(('digits', b), lo=0, hi=strings.MAXLEN))

    # ---------------------------------------------------------------- scans
    def rewind(s, st, b):
        st.ghost['#left%d' % b] = st.norm(s.count(b))
        st.ghost['#pads%d' % b] = ZERO
        st.ghost['#dat%d' % b] = ZERO
        n = s.T.args[b]
        st.assume_ge0(sub(n, s.count(b)))

    def on_loop(s, an, st, fr, bb, new):
        for b in s.T.args:
            k = '#left%d' % b
            if k not in st.ghost or st.eq0(st.norm(sub(s.T.args[b], st.norm(st.ghost['#dat%d' % b])))):
                s.rewind(st, b)

    def hints(s, an, st):
        out = []
        for b, n in s.T.args.items():
            if '#left%d' % b in st.ghost:
                l, d = st.norm(st.ghost['#left%d' % b]), st.norm(st.ghost['#dat%d' % b])
                out += [sub(n, d), sub(sub(n, d), l), l]
                # at most as many '=' as digits of the group, whichever value counts those
                p = st.norm(st.ghost['#pads%d' % b])
                out.append(p)
                for v in list(st.top().regs.values()):
                    if v[0] != 'agg' and single(v) is not None and L.term(single(v))[0] == 'fresh' and str(L.term(single(v))[1]).startswith('loop.') and not L.isptr(single(v)):
                        out.append(st.norm(sub(v, p)))
        return out

    # ---------------------------------------------------------------- loads
    def load(s, an, st, ins, base, off, size):
        t = L.term(base)
        c = s.tables.get(t[1]) if t[0] == 'glob' else None
        if c is None or size != 1:
            return s.old(an, st, ins, base, off, size)
        off = st.norm(off)
        if is_const(off):
            if len(c) == 256 and 0 <= off[0] < 256:
                s.known(st, c, off)
            return None
        lo, hi = st.bound(off)
        lo, hi = max(lo, 0), min(hi, len(c) - 1)
        if lo > hi:
            return None
        v = V(L.sym(('tab', base, off), lo=min(c), hi=max(c)))
        y = single(off)
        if len(c) == 256 and y is not None and L.term(y)[0] == 'byte' and L.term(y)[1] in s.T.args:
            return s.digit(an, st, ins, base, c, y, v)
        part = c[lo:hi + 1]
        if not (st.assume_ge0(sub(v, K(min(part)))) and st.assume_ge0(sub(K(max(part)), v))):
            return []
        return [(st, v)]

    def known(s, st, c, off):
        """the byte at the position of the scan is already known"""
        for b, n in s.T.args.items():
            if '#dat%d' % b not in st.ghost:
                continue
            at = st.norm(st.ghost['#dat%d' % b])
            z = L._index.get(('byte', b, at))
            if z is None or st.norm(V(z)) != off:
                continue
            l = st.norm(st.ghost['#left%d' % b])
            if c[off[0]] != c[0]:
                l = st.norm(sub(l, ONE))
                if off[0] == PAD:
                    st.ghost['#pads%d' % b] = add(st.norm(st.ghost['#pads%d' % b]), ONE)
            st.ghost['#left%d' % b] = l
            st.ghost['#dat%d' % b] = add(at, ONE)
            st.assume_ge0(l)
            st.assume_ge0(st.norm(sub(sub(sub(n, at), ONE), l)))
            return

    def digit(s, an, st, ins, base, c, y, v):
        b, at = L.term(y)[1], st.norm(L.term(y)[2])
        reject = c[0]
        good = [x for i, x in enumerate(c) if x != reject and i and i != PAD]
        out = []
        here = '#left%d' % b in st.ghost and st.eq0(st.norm(sub(at, st.ghost['#dat%d' % b])))
        for what in ('digit', 'pad', 'other'):
            x = st.clone()
            if what == 'digit':
                ok = good and x.assume_ne0(sub(V(y), K(PAD))) and x.assume_ge0(sub(v, K(min(good)))) and x.assume_ge0(sub(K(max(good)), v))
                if ok and not (min(good) <= reject <= max(good)):
                    pass
                elif ok:
                    ok = x.assume_ne0(sub(v, K(reject)))
            elif what == 'pad':
                ok = x.assume_eq0(sub(V(y), K(PAD))) and x.assume_eq0(sub(v, K(c[PAD])))
                if c[PAD] == reject:
                    what = 'other'
            else:
                ok = x.assume_eq0(sub(v, K(reject)))
                if ok and c[PAD] != reject:
                    ok = x.assume_ne0(sub(V(y), K(PAD)))
            if not ok:
                continue
            if what == 'other' and s.only and is_const(at) and at[0] < s.only:
                continue
            if here:
                l, n = x.norm(x.ghost['#left%d' % b]), s.T.args[b]
                if what != 'other':
                    l = x.norm(sub(l, ONE))
                    if not x.assume_ge0(l):
                        continue
                    if what == 'pad':
                        x.ghost['#pads%d' % b] = add(x.norm(x.ghost['#pads%d' % b]), ONE)
                x.ghost['#left%d' % b] = l
                x.ghost['#dat%d' % b] = add(at, ONE)
                if not x.assume_ge0(x.norm(sub(sub(sub(n, at), ONE), l))):
                    continue
            x.log('%s: reads %s' % (an.m.where(ins), {'digit': 'a digit', 'pad': "'='", 'other': 'a byte that is no digit'}[what]))
            out.append((x, x.norm(v)))
        return out

    # ---------------------------------------------------------------- what is written
    def store(s, an, st, ins, base, off, size, v):
        if base is None or size != 1 or v[0] == 'agg' or an.regions.get(base, {}).get('kind') != 'heap':
            return
        if st.eq0(v):
            st.ghost['#end%d' % base] = st.norm(off)
        for f in s.checks:
            f(an, st, ins, base, st.norm(off), st.norm(v))


def encoded(codes, src):
    """stores of a result: the characters come one after the other, each made of the right six bits"""
    def f(an, st, ins, base, off, v):
        T = codes.T
        n = T.args[src]
        k = '#put%d' % base
        put = st.norm(st.ghost.get(k, ZERO))
        y = single(v)
        t = L.term(y) if y is not None else None
        c = codes.tables.get(L.term(t[1])[1]) if t is not None and t[0] == 'tab' else None
        if is_const(v) and v[0] == 0:
            return
        if is_const(v) and v[0] % 256 == PAD:
            codes.nbits += 6
            if not st.eq0(st.norm(sub(off, put))):
                an.report(st, ins, 'order', "'=' is put at %s, not behind the last character (%s)" % (show(off), show(put)))
            st.ghost[k] = add(off, ONE)
            m = first(st, off, 0)
            if m is None or not st.ge0(st.norm(sub(m, n))):
                an.report(st, ins, 'pad', "'=' is put at %s, where input bytes are still due" % show(off))
            return
        if c is None:
            if is_const(v):
                an.report(st, ins, 'character', 'the character %s is put at %s' % (v[0], show(off)))
            return
        codes.nbits += 6
        if not st.eq0(st.norm(sub(off, put))):
            an.report(st, ins, 'order', 'a character is put at %s, not behind the last one (%s)' % (show(off), show(put)))
        st.ghost[k] = add(off, ONE)
        b = bits(st, t[2])
        if b is None:
            return
        for i in range(6):
            m = first(st, off, 5 - i)
            if m is None:
                an.report(st, ins, 'place', 'a character is put at %s' % show(off))
                return
            bit = 7 - (6 * (off[0] % 4) + 5 - i) % 8
            if st.ge0(st.norm(sub(m, n))):
                want = (0,)
            else:
                z = L._index.get(('byte', src, m))
                want = ((z, bit),) if z is not None else ()
                if z is not None and z in st.sub:
                    r = st.sub[z]
                    want = (((r[0] >> bit) & 1),) if is_const(r) else ((single(r), bit),)
                if not st.ge0(st.norm(sub(sub(n, m), ONE))):
                    want = ()
            if b[i] not in want:
                an.report(st, ins, 'bits', 'bit %d of the digit put at %s is not bit %d of input byte %s' % (i, show(off), bit, show(m)))
                return
        if any(x != 0 for x in b[6:]):
            an.report(st, ins, 'bits', 'the digit put at %s has more than six bits' % show(off))
    return f


def first(st, off, i):
    """the number of the input byte that holds bit i (counted from the highest) of the digit put at off"""
    q = (off[0] - off[0] % 4, off[1])
    if any(c % 4 for _, c in q[1]):
        return None
    return st.norm(add((q[0] * 3 // 4, tuple((y, c * 3 // 4) for y, c in q[1])), K((6 * (off[0] % 4) + i) // 8)))


def decoded(codes, st, src, v, i):
    """what is wrong with byte i of a result"""
    b = bits(st, v)
    ds = digits(codes, st, src)
    if b is None or (8 * i + 7) // 6 >= len(ds):
        return None
    for j in range(8):
        n = 8 * i + 7 - j
        d = st.norm(ds[n // 6])
        k = 5 - n % 6
        if is_const(d):
            ok = b[j] == (d[0] >> k) & 1
        else:
            ok = b[j] == (single(d), k) or b[j] == 0 and st.bound(d)[1] < 1 << k
        if not ok:
            return 'bit %d of byte %d is not bit %d of digit %d' % (j, i, k, n // 6)
    return ''


def digits(codes, st, src):
    """the values of the leading digits that were read"""
    out = []
    base = [y for y in (L._index.get(('glob', n)) for n in codes.decoders()) if y is not None]
    for i in range(64):
        z = L._index.get(('byte', src, K(i)))
        if z is None:
            break
        for g in base:
            y = L._index.get(('tab', g, V(z)))
            if y is None and z in st.sub:
                y = L._index.get(('tab', g, V(z)))
            if y is not None:
                out.append(V(y))
    return out
