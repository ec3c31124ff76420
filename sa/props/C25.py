import functools
from core import *
import defer
import narrow
import strcheck
from props import C24

EXPLANATION = ('Ranking analysis by abstract interpretation: for every loop of the text functions, and texts of any length and content, something must '
               'grow with every round (a count, a position, the matches already used up) and stay below a bound that does not change. Loops that '
               'come to their end when followed step by step need no such value.')


def run(ctx):
    A.DEPTH = 3
    mod = ctx.mod('w_str.c', 'w_defer.c')
    ctx.need(mod, 'str_split_ex', 'str_concat_ex', 'str_replace_ex', 'strpos', 'is_str_in', 'str_encode64_ex', 'str_decode64_ex', 'is_base64')
    lay = defer.Layout(ctx, mod)
    ctx.assumptions.append('texts are at most %d bytes long; the C library and the word-at-a-time length and comparison routines return' % strcheck.text.MAXLEN)
    todo = []
    for j in C24.jobs(ctx):
        j.want, j.rank = None, True
        todo.append(j)
    for c in ('encode', 'decode', 'encode_thread', 'decode_thread', 'is64'):
        todo.append(strcheck.Job('wb_' + c, ['s'], rank=True))
    narrow.check(ctx, mod, narrow.reach(mod, ['str_split_ex', 'str_concat_ex', 'str_replace_ex', 'str_copy', 'str_memdup_ex', 'strpos', 'is_base64', 'str_encode64_ex', 'str_decode64_ex']), loops=True)
    ctx.parallel([functools.partial(strcheck.run, ctx, mod, lay, j) for j in todo], enough=100)
