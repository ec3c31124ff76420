"""Strings: constant ones are read from the program, others are blocks of unknown length with their terminator."""
import lin as L
from lin import K, V, ZERO, ONE, add, sub, scale, is_const, single, show
import absint as A

MAXLEN = 1 << 30


def const(an, st, p):
    """bytes of a constant string, or None"""
    p = st.norm(p)
    b = A.baseof(p)
    if b is None:
        return None
    t = L.term(b)
    if t[0] != 'glob':
        return None
    g = an.m.globals.get(t[1])
    off = sub(p, V(b))
    if g is None or g.init is None or not is_const(off):
        return None
    if not getattr(g, 'const', True):
        return None
    if g.init.kind == 'str':
        return g.init.v[off[0]:].split(b'\0')[0]
    if g.init.kind == 'zero':
        return b''
    return None


def length(an, st, p):
    """the length of the string at p as a linear value"""
    c = const(an, st, p)
    if c is not None:
        return K(len(c))
    p = st.norm(p)
    return V(L.sym(('len', p), lo=0, hi=MAXLEN))


def m_strlen(an, st, ins, a):
    if is_const(st.norm(a[0])) and st.norm(a[0])[0] == 0:
        an.report(st, ins, 'null-string', 'the length of a NULL string is taken')
    return [(st, length(an, st, a[0]))]


MODELS = {'simd_strlen': m_strlen, 'strlen': m_strlen}


def strarg(an, name):
    """pointer to an unknown string: a block of its length plus the terminator"""
    y = L.sym(('arg', name), True, lo=1)
    p = V(y)
    an.regions[y] = dict(kind='arg', name='string ' + name, size=add(V(L.sym(('len', p), lo=0, hi=MAXLEN)), ONE), where='', init='lazy')
    return p
