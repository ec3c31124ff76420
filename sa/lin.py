"""Symbols and linear expressions, the value domain of the analyser.

A value is (const, ((sym, coef), ...)) with sym an interned integer.  Every symbol has a hashable term that says
where it comes from, so the same program quantity reached on two paths is the same symbol."""
from math import gcd

_terms = []
_index = {}
_isptr = []
_bounds = []


def reset():
    del _terms[:]
    _index.clear()
    del _isptr[:]
    del _bounds[:]


def sym(term, ptr=False, lo=None, hi=None):
    if ptr and lo is None:
        lo = 0
    i = _index.get(term)
    if i is None:
        i = len(_terms)
        _terms.append(term)
        _index[term] = i
        _isptr.append(ptr)
        _bounds.append((lo, hi))
    elif ptr and not _isptr[i]:
        _isptr[i] = True
    return i


_fresh = [0]


def fresh(hint, ptr=False, lo=None, hi=None):
    _fresh[0] += 1
    return sym(('fresh', hint, _fresh[0]), ptr, lo, hi)


def term(s):
    return _terms[s]


def isptr(s):
    return _isptr[s]


def bounds(s):
    return _bounds[s]


def K(c):
    return (c, ())


ZERO = K(0)
ONE = K(1)


def V(s, c=0):
    return (c, ((s, 1),))


def is_const(l):
    return not l[1]


def add(a, b, k=1):
    """a + k*b"""
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    if not a[1] and k == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, c in b[1]:
        n = d.get(s, 0) + k * c
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def single(l):
    """symbol if l is exactly one symbol"""
    if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
        return l[1][0][0]
    return None


def canon(l):
    """(key, sign, g): l - const == sign*g*key with key's first coefficient positive and gcd 1"""
    items = l[1]
    g = 0
    for _, c in items:
        g = gcd(g, abs(c))
    sg = 1 if items[0][1] > 0 else -1
    return tuple((s, c * sg // g) for s, c in items), sg, g


def subst(l, m):
    for s, _ in l[1]:
        if s in m:
            break
    else:
        return l
    out = (l[0], ())
    for s, c in l[1]:
        r = m.get(s)
        out = add(out, (0, ((s, c),))) if r is None else add(out, r, c)
    return out


def show(l, depth=0):
    if not isinstance(l, tuple):
        return str(l)
    parts = []
    for s, c in l[1]:
        t = show_term(_terms[s], depth)
        parts.append(t if c == 1 else '%d*%s' % (c, t))
    if l[0] or not parts:
        parts.append(str(l[0]))
    return '+'.join(parts)


def show_term(t, depth=0):
    if depth > 3:
        return '..'
    k = t[0]
    if k == 'reg':
        return '&%s#%d' % (t[1], t[2])
    if k == 'glob':
        return t[1]
    if k == 'ld':
        return '*(%s+%s)' % (show_term(_terms[t[1]], depth + 1), show(t[2], depth + 1))
    if k == 'fresh':
        return '%s?%d' % (t[1], t[2])
    if k == 'arg':
        return t[1]
    out = []
    for x in t[1:]:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
            out.append(show(x, depth + 1))
        else:
            out.append(str(x))
    return '%s(%s)' % (k, ','.join(out))
