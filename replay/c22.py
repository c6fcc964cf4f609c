import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pycommon import *

A = load("src/dynamic_graph/sot/core/utils/attime.py", "attime_mod")


class Functored:
    """a wrapper object carrying its function in .functor"""

    def __init__(self, f):
        self.functor = f

    def __call__(self, *a):
        raise Fail("the wrapper is called instead of its functor")


def run(g):
    rng = g.rng
    check(isinstance(A.attime, A.Calendar), "attime is not a Calendar")
    while g.more():
        cal = A.Calendar()
        log, hist, uid = [], [], [0]
        reg, always, pings = {}, [], []

        def mk(doc=0):
            uid[0] += 1
            n = uid[0]

            def f(*a):
                log.append((n, a))
            f.__doc__ = [None, "", "doc %d" % n][rng.randrange(3)] if doc == 0 else doc
            return n, f

        def expect(t, args):
            e = [(n, args) for n, _, _ in always]
            if t in reg:
                e += [(n, ()) for n in pings] + [(n, args) for n, _, _ in reg[t]]
            return e
        for _ in range(rng.randrange(1, 14)):
            op = rng.randrange(12)
            t = rng.choice([0, 1, 2, 3, 5, 8, -1, 1000, 2.5])
            tgt = reg.setdefault(t, []) if op < 7 else None
            every = op < 7 and rng.random() < .25
            if op < 7 and not reg[t] and every:
                del reg[t]
            if every:
                t, tgt = A.ALWAYS, always
            via = cal.registerEvents if rng.random() < .5 else cal
            if op == 0:
                n, f = mk(); via(t, f, "text"); tgt.append((n, f, "text"))
            elif op == 1:
                n, f = mk(); via(t, f); tgt.append((n, f, f.__doc__))
            elif op == 2:
                n, f = mk(); via(t, Functored(f)); tgt.append((n, f, f.__doc__))
            elif op == 3:
                ps = []
                for _ in range(rng.randrange(1, 4)):
                    n, f = mk(); ps.append((f, "d%d" % n)); tgt.append((n, f, "d%d" % n))
                via(t, *ps)
            elif op == 4:
                n, f = mk(); m, h = mk(); via(t, f, (h, None)); tgt += [(n, f, f.__doc__), (m, h, None)]
            elif op == 5:
                n, f = mk(); cal.registerEvent(t, (f, "x")); tgt.append((n, f, "x"))
            elif op == 6:
                n, f = mk(doc="some doc" if rng.random() < .5 else None)
                d = cal(t)(f)
                tgt.append((n, f, f.__doc__))
                del log[:]
                d(7)
                check(log == [(n, (7,))], "calling a decorated function runs %s" % log)
            elif op == 7:
                n, f = mk(); cal.addPing(f); pings.append(n)
            elif op == 8 and always and rng.random() < .5:
                i = rng.randrange(len(always)); n, f, d = always.pop(i)
                cal.stop((f, d))
            elif op == 9:
                T = rng.randrange(0, 7)
                del log[:]
                cal.fastForward(T)
                e = []
                for i in range(T + 1):
                    e += expect(i, ())
                check(log == e, "after %s, fastForward(%d) runs %s, expected %s" % (hist, T, log, e))
            else:
                args = tuple(range(rng.randrange(3)))
                q = rng.choice([0, 1, 2, 3, 5, 8, -1, 1000, 2.5, 4, 999])
                del log[:]
                cal.run(q, *args)
                e = expect(q, args)
                check(log == e, "after %s, run(%r) executes (action, arguments) %s, expected %s" % (hist, q, log, e))
            hist.append((op, t if not every else "always"))
            if reg.get(t) == []:
                del reg[t]
            for k, v in list(reg.items()) + [(A.ALWAYS, always)]:
                got = [p[0] for p in cal.events.get(k, [])]
                check(got == [f for _, f, _ in v], "after %s the list of time %s holds %d actions in another order or number (%d expected)" % (hist, k, len(got), len(v)))
        del log[:]
        g.count(tuple(hist))


main(run)
