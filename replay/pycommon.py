"""Common part of the Python replay drivers: loads the modules of VERIF_REPO by path, generates inputs, reports."""
import importlib.util
import math
import os
import random
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, path))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Fail(Exception):
    pass


class Gen:
    def __init__(self):
        self.rng = random.Random(int(sys.argv[1]))
        self.budget = float(sys.argv[2])
        self.t0 = time.time()
        self.tags = sys.argv[4:]
        self.nums = []
        try:
            for l in open(sys.argv[3]):
                try:
                    self.nums.append(float(l))
                except ValueError:
                    pass
        except (OSError, IndexError):
            pass
        self.n, self.seen, self.samples = 0, set(), []

    def more(self):
        return time.time() - self.t0 < self.budget and self.n < 2000000

    def real(self):
        k = self.rng.randrange(10)
        if k == 0:
            return float(self.rng.choice([0, 1, -1, 0.5, 2]))
        if k == 1 and self.nums:
            return self.rng.choice(self.nums) * self.rng.choice([1, -1])
        return self.rng.uniform(-3, 3)

    def angle(self):
        k = self.rng.randrange(8)
        if k == 0:
            return self.rng.choice([0, math.pi / 2, -math.pi / 2, math.pi / 4, 1e-3, -1e-3, math.pi * 0.99])
        return self.rng.uniform(-3.2, 3.2)

    def count(self, key):
        self.n += 1
        if len(self.seen) < 200000:
            self.seen.add(hash(key))
        if len(self.samples) < 3:
            self.samples.append(str(key)[:200])


def main(run):
    g = Gen()
    try:
        import io
        import contextlib
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            run(g)
    except Fail as e:
        print("FAIL %s" % str(e).replace("\n", " "))
        sys.exit(1)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        if inrepo:
            print("FAIL the code raises %s: %s (%s line %d)" % (type(e).__name__, str(e)[:200].replace("\n", " "), os.path.basename(inrepo[-1].filename), inrepo[-1].lineno))
            sys.exit(1)
        raise
    for s in g.samples:
        print("SAMPLE " + s)
    print("OK evaluations=%d distinct=%d" % (g.n, len(g.seen)))


def check(c, msg):
    if not c:
        raise Fail(msg)
