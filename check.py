#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]   decide one property from /repo's current sources"""
import sys, os, signal, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


class Late(Exception):
    pass


def late(*a):
    raise Late('out of time')


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    import core, build, absint, importlib
    pid = a[0]
    mod = importlib.import_module('props.' + pid)
    ctx = core.Ctx(pid, tier)
    # an analysis that cannot finish is an error, never a pass; what was found before it counts
    signal.signal(signal.SIGALRM, late)
    signal.alarm(840 if tier == 'quick' else 3000)
    try:
        try:
            mod.run(ctx)
        except (core.Anchor, absint.Limit, Late) as e:
            ctx.undecided.append('%s: %s' % (type(e).__name__, e))
        except build.BuildError:
            raise
        except Exception as e:
            traceback.print_exc()
            ctx.undecided.append('the analysis failed on this code: %s: %s' % (type(e).__name__, e))
        signal.alarm(0)
        rc = core.finish(ctx, mod.EXPLANATION)
    except Exception as e:
        print('ERROR property=%s %s: %s' % (pid, type(e).__name__, e))
        if not isinstance(e, (build.BuildError, core.Anchor)):
            traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
