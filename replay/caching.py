"""Histories of cached calls against a reference least-recently-used cache."""
from common import *
import threading
from collections import OrderedDict
from types import SimpleNamespace
from cosmic_profiles.common import caching, config


class Ref:
    """what a least-recently-used cache does; full(n) tells whether n entries fill it"""
    def __init__(self, limit):
        self.d, self.limit, self.hits, self.misses, self.full, self.log = OrderedDict(), limit, 0, 0, False, []

    def call(self, key, low=False):
        if self.limit == 0:
            self.misses += 1
            return 'miss'
        if key in self.d:
            self.d.move_to_end(key)
            self.hits += 1
            return 'hit'
        self.misses += 1
        if self.full:
            self.d.popitem(last=False)
            self.d[key] = 1
        else:
            self.d[key] = 1
            if self.limit == 'memory':
                self.full = low
            elif self.limit is not None:
                self.full = len(self.d) >= self.limit
        return 'miss'

    def clear(self):
        self.__init__(self.limit)


def histories():
    mode = rng.choice(['limit', 'limit', 'memory', 'none', 'off'])
    limit = {'limit': int(rng.integers(1, 5)), 'memory': 'memory', 'none': None, 'off': 0}[mode]
    typed = bool(rng.random() < 0.3)
    low = [False]
    calls = []

    def f(*args, **kw):
        calls.append((args, kw))
        return ('value', args, tuple(sorted(kw.items())), len(calls))
    old = caching.psutil
    caching.psutil = SimpleNamespace(virtual_memory=lambda: SimpleNamespace(available=0 if low[0] else 10 ** 15))
    try:
        deco = caching.lru_cache(maxsize=100 if limit == 'memory' else limit, typed=typed, use_memory_up_to=1000 if limit == 'memory' else False)
        g = deco(f)
        ref, val = Ref(limit), {}
        keys = [((int(k),), {}) for k in range(6)] + [((1, 2), {}), ((1,), {'a': 2}), ((), {'a': 1, 'b': 2}), ((1, 'a', 2), {}), (('a',), {}), ((), {}),
                                                      (((1, 2),), {}), ((), {'a': 1}), ((), {'b': 1})]
        hist = []
        for _ in range(int(rng.integers(3, 40))):
            u = rng.random()
            if u < 0.03:
                g.cache_clear()
                ref.clear()
                hist.append('clear')
                continue
            if limit == 'memory':
                low[0] = bool(rng.random() < 0.4)
            a, kw = keys[int(rng.integers(0, 6 if rng.random() < 0.6 else len(keys)))]
            key = (a, tuple(sorted(kw.items()))) + ((tuple(map(type, a)), tuple(type(kw[k]) for k in sorted(kw))) if typed else ())
            hist.append((a, kw))
            inp = dict(mode=str(mode), maxsize=str(limit), typed=typed, history=[str(h) for h in hist])
            n0 = len(calls)
            want = ref.call(key, low[0])
            r = guarded(lambda: g(*a, **kw), 'cached call', **inp)
            made = len(calls) > n0
            if made != (want == 'miss'):
                found('a cached call %s the function' % ('repeats' if made else 'skips'), **inp)
            if made:
                val[key] = r
                if calls[-1] != (a, kw):
                    found('arguments of the cached function', got=str(calls[-1]), want=str((a, kw)), **inp)
            if r[1] != a or r[2] != tuple(sorted(kw.items())) or val.get(key) != r:
                found('result of a cached call', got=str(r), want=str(val.get(key)), **inp)
            i = g.cache_info()
            if (i.hits, i.misses, i.currsize) != (ref.hits, ref.misses, len(ref.d)):
                found('statistics of the cache', got=str(i), want=str((ref.hits, ref.misses, len(ref.d))), **inp)
    finally:
        caching.psutil = old


def meanwhile():
    """the same key is stored by another call while the function runs; errors are not cached"""
    limit = int(rng.integers(1, 4))
    n = [0]

    def f(k, depth=0):
        n[0] += 1
        if k == 99:
            raise KeyError('no')
        if n[0] == deep[0]:
            for q in inner:
                g(q)
        return ('value', k)
    g = caching.lru_cache(maxsize=limit)(f)
    hist = []
    for _ in range(int(rng.integers(3, 15))):
        k = int(rng.integers(0, 4))
        deep = [n[0] + 1 if rng.random() < 0.4 else -1]
        inner = [int(x) for x in rng.integers(0, 4, int(rng.integers(1, 4)))] if rng.random() < 0.7 else [k]
        hist.append((k, inner if deep[0] > 0 else []))
        inp = dict(maxsize=limit, history=hist)
        r = guarded(lambda: g(k), 'cached call', **inp)
        if r != ('value', k):
            found('result of a cached call during which others were made', got=str(r), **inp)
        if g.cache_info().currsize > limit:
            found('the cache outgrows its limit', got=str(g.cache_info()), **inp)
        if rng.random() < 0.2:
            try:
                g(99)
                found('a failing call returned', **inp)
            except KeyError:
                pass
        m = n[0]
        g(k)
        if n[0] != m and deep[0] < 0:
            found('the entry just used was dropped', **inp)


def threads():
    limit = int(rng.integers(1, 4))
    import time

    def f(k):
        time.sleep(0.0005)
        return ('value', k)
    g = caching.lru_cache(maxsize=limit)(f)
    bad = []

    def work(s):
        r = np.random.default_rng(s)
        for _ in range(30):
            k = int(r.integers(0, 5))
            try:
                if g(k) != ('value', k):
                    bad.append('wrong result for %d' % k)
            except Exception as e:
                bad.append(repr(e))
    ts = [threading.Thread(target=work, args=(int(rng.integers(0, 10 ** 6)),)) for _ in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    i = g.cache_info()
    if bad or i.currsize > limit or i.hits + i.misses != 120:
        found('cached calls of four threads', got=bad[:3] + [str(i)], maxsize=limit)


def arrays():
    na, nl = int(rng.integers(0, 3)), int(rng.integers(0, 2))
    got = []

    def f(*args):
        got.append(args)
        return len(got)
    old = config.CACHE_MAXSIZE, config.GBs
    try:
        config.CACHE_MAXSIZE, config.GBs = int(rng.integers(1, 5)), 0
        g = caching.np_cache_factory(na, nl)(f)
    finally:
        config.CACHE_MAXSIZE, config.GBs = old

    def arr():
        d = rng.choice(['float64', 'int32', 'int64', 'float32'])
        shp = [(4,), (2, 2), (1, 4), (4, 1), (0,), (0, 3), (2,)][int(rng.integers(0, 7))]
        return rng.integers(0, 2, shp).astype(d)
    last = {}

    def ident(a):
        return tuple((x.dtype.str, x.shape, x.tobytes()) if isinstance(x, np.ndarray) else repr(x) for x in a)
    hist = []
    for _ in range(int(rng.integers(2, 14))):
        a = [arr() for _ in range(na)] + [[[int(x) for x in rng.integers(0, 2, int(rng.integers(0, 3)))] for _ in range(int(rng.integers(0, 3)))]
                                          for _ in range(nl)] + [int(x) for x in rng.integers(0, 2, int(rng.integers(0, 3)))]
        before = ident(a)
        hist.append(str(before))
        inp = dict(nb_arrs=na, nb_lists=nl, arguments=hist)
        m = len(got)
        r = guarded(lambda: g(*a), 'np_cache', **inp)
        if ident(a) != before:
            found('np_cache changed its arguments', **inp)
        if len(got) > m:
            last[before] = r
            if ident(got[-1]) != before:
                found('arguments of the cached function', got=str(ident(got[-1])), want=str(before), **inp)
        elif last.get(before) != r:
            found('result of another call', got=r, want=last.get(before), **inp)


def factory():
    """the limits of the configuration reach the cache"""
    if caching.np_cache_factory(0, 0)(lambda k: k).cache_info().maxsize not in (config.CACHE_MAXSIZE, None):
        found('limit of np_cache', got=str(caching.np_cache_factory(0, 0)(lambda k: k).cache_info()))


k = 0
while more() and k < 3000:
    k += 1
    histories()
    meanwhile()
    arrays()
    if k % 20 == 1:
        threads()
        factory()
print('no difference in %d cases' % k)
