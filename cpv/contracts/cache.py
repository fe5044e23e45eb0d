"""Contracts of the cache (cosmic_profiles/common/caching.py): see cpv/cachevc.py and cpv/cachekeys.py for the statements."""
import ast
import os
import time
from .. import cachevc, cachekeys, frontend
from ..contract import REGISTRY
from ..engine import Obl
from ..prover import Result
from ..terms import FALSE

SRC = 'cosmic_profiles/common/caching.py'
MODES = {'A': 'limited by free memory', 'B': 'caching off', 'C': 'without limit', 'D': 'limited to maxsize'}


class ZObl(Obl):
    """an obligation that is a z3 formula"""
    __slots__ = ('path', 'form')

    def prove(self, pr, budget):
        t0 = time.time()
        s = cachevc.z3.Solver()
        s.set('timeout', int(min(budget, 60) * 1000))
        for p in self.path:
            s.add(p)
        s.add(cachevc.z3.Not(self.form))
        r = s.check()
        pr.time['z3'] += time.time() - t0
        if r == cachevc.z3.unsat:
            return Result(True, 'z3')
        return Result(False, 'z3', 'counterexample of the verification condition: %s' % str(s.model())[:1500] if r == cachevc.z3.sat else 'z3: %s' % r)


class Where:
    def __init__(self, lineno):
        self.lineno = lineno


class CacheContract:
    level, parts, deps = 'top', 1, ()

    def __init__(self, name, make):
        self.key, self.make = SRC + '::' + name, make

    def tree(self):
        with open(os.path.join(frontend.REPO, SRC)) as f:
            return ast.parse(f.read())

    def func(self):
        nm = self.key.split('::')[1]
        return Where(next((x.lineno for x in self.tree().body if getattr(x, 'name', '') == nm), 0))

    def verify(self, eng):
        out = []
        for name, path, goal, line, kind in self.make(self.tree()):
            o = ZObl(name, (), FALSE, self.key, line, kind)
            o.path, o.form = path, goal
            out.append(o)
        return out


def lru(tree):
    out = []
    for m, what in MODES.items():
        out += [('%s: %s' % (what, n), p, g, l, k) for n, p, g, l, k in cachevc.Machine(tree, m).run()]
    return out


for _n, _f in (('lru_cache', lru), ('_make_key', cachekeys.make_key), ('_HashedSeq', cachekeys.hashed_seq), ('np_cache_factory', cachekeys.np_cache)):
    REGISTRY[SRC + '::' + _n] = CacheContract(_n, _f)
