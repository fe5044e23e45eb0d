"""Decides one property: verifies every contract the property rests on, function by function, against the current
source of /repo. Usage: run.py PROPERTY [--tier quick|thorough]"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import pkgutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(40000)

from cpv import contract, engine, prover, terms as t, frontend as F     # noqa: E402
from cpv.frontend import Unsupported                                    # noqa: E402


def load_contracts():
    import cpv.contracts as pkg
    for m in pkgutil.iter_modules(pkg.__path__):
        importlib.import_module('cpv.contracts.' + m.name)


BUDGET = {'quick': (15, 60), 'thorough': (60, 240)}
MAXFAIL = 3


def verify_part(conn, key, failed, part, nparts, tier, kinds, deadline):
    """one worker: generates the obligations of one contract and discharges its share"""
    t0 = time.time()
    b1, b2 = BUDGET[tier]
    res = {'key': key, 'part': part, 'obligations': 0, 'discharged': 0, 'failures': [], 'used': [], 'inlined': [],
           'backends': {}, 'unsupported': None, 'kinds': {}, 'skipped': 0, 'slow': []}
    try:
        c = contract.REGISTRY[key]
        pr = prover.Prover(b1)
        pr.thorough = tier == 'thorough'
        eng = engine.Engine(contract.REGISTRY, pr)
        eng.failed = dict(failed)
        try:
            obs = c.verify(eng)
        except Unsupported as e:
            res['unsupported'] = str(e)[:600]
            res['used'] = sorted(eng.used_contracts - {key})
            return res
        except RecursionError:
            res['unsupported'] = 'recursion limit of the generator'
            return res
        res['gen'] = time.time() - t0
        res['used'] = sorted(eng.used_contracts - {key})
        res['inlined'] = sorted(eng.inlined - {key})
        res['assumptions'] = sorted(eng.assumptions)
        f = c.func()
        res['line'] = f.lineno if hasattr(f, 'lineno') else 0
        conn.send(('used', res['used']))
        maxfail = 1 if c.level == 'internal' else MAXFAIL
        if part == 0:
            # vacuity: the preconditions, and at least one way to the end of the body, must be satisfiable
            for k, vi, h in eng.vacuity:
                if pr.prove(h, t.FALSE, 3).ok:
                    res['failures'].append({'name': 'preconditions of %s are satisfiable' % key, 'line': 0, 'kind': 'vacuity', 'detail': '', 'func': key})
        todo = [o for k, o in enumerate(obs) if k % nparts == part]
        for o in todo:
            if kinds is not None and o.kind not in kinds and not o.kind.startswith('loop'):
                res['skipped'] += 1
                continue
            res['obligations'] += 1
            res['kinds'][o.kind] = res['kinds'].get(o.kind, 0) + 1
            if time.time() > deadline:
                res['failures'].append({'name': o.name, 'line': o.line, 'kind': o.kind, 'detail': 'time limit of the check', 'func': o.func})
                return res
            t1 = time.time()
            prove = (lambda b, o=o: o.prove(pr, b)) if hasattr(o, 'prove') else (lambda b, o=o: pr.prove(o.hyps, o.goal, b))
            r = prove(b1)
            if not r.ok:
                pr.thorough = True
                r = prove(min(b2, max(b1, deadline - time.time())))
                pr.thorough = tier == 'thorough'
            dt = time.time() - t1
            if r.ok:
                res['discharged'] += 1
                res['backends'][r.backend] = res['backends'].get(r.backend, 0) + 1
                if dt > 5:
                    res['slow'].append((round(dt, 1), o.name, o.line))
            else:
                res['failures'].append({'name': o.name, 'line': o.line, 'kind': o.kind, 'func': o.func,
                                        'detail': (r.detail or '')[:3000], 'goal': t.show(o.goal)[:3000],
                                        'hyps': [t.show(h)[:300] for h in o.hyps][:40]})
                if len(res['failures']) >= maxfail:
                    return res
        res['solver_s'] = round(sum(pr.time.values()), 3)
        res['solver_time'] = {k: round(v, 3) for k, v in pr.time.items()}
    except MemoryError:
        res['unsupported'] = 'out of memory'
    except Exception as e:          # a defect of the checker is reported as such, never as success
        res['unsupported'] = 'internal error: %s' % (traceback.format_exc()[-1500:],)
    finally:
        res['wall'] = round(time.time() - t0, 2)
    return res


MEM = 6 << 30


def _worker(conn, args):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        os.setpgid(0, 0)
    except (OSError, ValueError):
        pass
    try:
        r = verify_part(conn, *args)
    except BaseException:
        r = dict(blank(args[0], args[2]), unsupported='internal error: ' + traceback.format_exc()[-800:])
    try:
        conn.send(('done', r))
        conn.close()
    finally:
        os._exit(0)


def blank(key, part=0):
    return {'key': key, 'part': part, 'obligations': 0, 'discharged': 0, 'failures': [], 'used': [], 'inlined': [], 'backends': {},
            'unsupported': None, 'kinds': {}, 'skipped': 0, 'slow': [], 'wall': 0}


class Task:
    def __init__(self, key, part, failed):
        self.key, self.part, self.failed, self.proc, self.conn = key, part, frozenset(failed), None, None


DEPS = os.path.join(HERE, 'deps.json')      # a scheduling hint only: what is verified follows from the calls found in the source


class Check:
    def __init__(self, prop, tier, roots, kinds=None, budget=600, on_failure=None, assume=()):
        self.prop, self.tier, self.roots, self.kinds = prop, tier, roots, kinds
        self.assume = tuple(assume)        # prefixes of functions whose contracts other checks prove
        self.assumed = set()
        self.end = time.time() + budget
        self.results = {}
        self.failed = {}          # internal contracts given up: inlined at their callers
        self.retired = {}
        self.parts = {}
        self.queue, self.live = [], []
        self.on_failure = on_failure
        self.ctx = mp.get_context('fork')
        try:
            with open(DEPS) as f:
                self.deps = json.load(f)
        except (OSError, ValueError):
            self.deps = {}
        self.seen_used = {}

    def nparts(self, key):
        return max(1, getattr(contract.REGISTRY[key], 'parts', 1))

    def kinds_of(self, key):
        if isinstance(self.kinds, dict):
            for k, v in self.kinds.items():
                if k and key.startswith(k):
                    return v
            return self.kinds.get('')
        return self.kinds

    def submit(self, key, again=False):
        if key not in self.roots and key.startswith(self.assume):
            self.assumed.add(key)
            return
        if key in self.failed or (key in self.parts and not again):
            return
        self.drop(key)
        self.parts[key] = []
        self.results.pop(key, None)
        for p in range(self.nparts(key)):
            self.queue.append(Task(key, p, self.failed))

    def drop(self, key):
        self.queue = [x for x in self.queue if x.key != key]
        for x in [x for x in self.live if x.key == key]:
            self.kill(x)
        self.parts.pop(key, None)

    def kill(self, x):
        self.live.remove(x)
        x.proc.kill()
        x.proc.join()
        x.conn.close()

    def start(self, x):
        a, b = self.ctx.Pipe(False)
        x.proc = self.ctx.Process(target=_worker, args=(b, (x.key, tuple(self.failed.items()), x.part, self.nparts(x.key), self.tier, self.kinds_of(x.key), self.end)))
        x.failed = frozenset(self.failed)
        x.proc.start()
        b.close()
        x.conn = a
        self.live.append(x)

    def hints(self):
        todo, seen = list(self.roots), set(self.roots)
        while todo:
            k = todo.pop()
            for u in self.deps.get(k, ()):
                if u in contract.REGISTRY and u not in seen:
                    seen.add(u)
                    todo.append(u)
        return sorted(seen - set(self.roots), key=lambda k: -self.nparts(k))

    def run(self, stop=None):
        jobs = int(os.environ.get('CPV_JOBS', '8'))
        for r in self.roots:
            if r not in contract.REGISTRY:
                raise SystemExit('no contract for %s' % r)
            self.submit(r)
        for k in self.hints():
            self.submit(k)
        self.stopped = False
        while self.queue or self.live:
            while self.queue and len(self.live) < jobs:
                self.start(self.queue.pop(0))
            ready = mpc.wait([x.conn for x in self.live], timeout=1.0)
            now = time.time()
            for x in list(self.live):
                if x not in self.live:
                    continue
                if x.conn in ready:
                    try:
                        tag, r = x.conn.recv()
                    except (EOFError, OSError, MemoryError):
                        tag, r = 'done', dict(blank(x.key, x.part), unsupported='the worker ended (memory or crash)')
                    if tag == 'used':
                        self.saw(x.key, r)
                        continue
                    self.live.remove(x)
                    x.proc.join(5)
                    if x.proc.is_alive():
                        x.proc.kill()
                    x.conn.close()
                    self.finish(x, r)
                elif now > self.end + 20:
                    self.kill(x)
                    self.finish(x, dict(blank(x.key, x.part), unsupported='time limit of the check'))
            if now > self.end + 25 and self.queue:
                for x in self.queue:
                    self.parts[x.key].append(dict(blank(x.key, x.part), unsupported='time limit of the check'))
                    self.results.setdefault(x.key, self.parts[x.key][-1])
                self.queue = []
            if stop is not None and self.definite() and stop():
                for x in list(self.live):
                    self.kill(x)
                self.queue = []
                self.stopped = True
        reach, todo = set(), list(self.roots)
        while todo:
            k = todo.pop()
            if k in reach or (k in self.assumed and k not in self.roots):
                continue
            reach.add(k)
            r = self.results.get(k)
            for u in (r['used'] if r else ()):
                if u not in self.failed:
                    todo.append(u)
        self.results = {k: r for k, r in self.results.items() if k in reach}
        if not self.stopped:
            for k in reach:
                if k not in self.results:
                    self.results[k] = dict(blank(k), unsupported='not verified')
        return self

    def saw(self, key, used):
        self.seen_used[key] = used
        for u in used:
            self.submit(u)

    def definite(self):
        """some failure that no inlining can repair"""
        return any((r['unsupported'] or r['failures']) and (k in self.roots or contract.REGISTRY[k].level == 'top') for k, r in self.results.items())

    def finish(self, x, r):
        key = x.key
        if key not in self.parts:
            return
        if set(r['used']) & (set(self.failed) - x.failed):
            if time.time() < self.end:
                self.submit(key, True)          # verified against a contract that has been given up since
                return
        bad = r['unsupported'] or r['failures']
        if bad and self.on_failure:
            self.on_failure()
        for u in r['used']:
            self.submit(u)
        self.parts[key].append(r)
        internal = contract.REGISTRY[key].level == 'internal' and key not in self.roots
        if bad and internal and time.time() < self.end:
            # an internal contract that is not proved: its callers are verified against the body instead
            self.retired[key] = merge(self.parts[key])
            self.drop(key)
            self.failed[key] = r['unsupported'] or 'obligation failed: %s' % r['failures'][0]['name']
            for k, r2 in list(self.results.items()):
                if key in r2['used']:
                    self.submit(k, True)
            for k in list(self.parts):
                if k not in self.results and key in self.seen_used.get(k, ()):
                    self.submit(k, True)
            return
        if len(self.parts[key]) == self.nparts(key) or bad:
            if key not in self.results or bad:
                self.results[key] = merge(self.parts[key])
            if len(self.parts[key]) == self.nparts(key):
                self.results[key] = merge(self.parts[key])

    def alarms(self):
        out = []
        for k, r in self.results.items():
            if r['unsupported']:
                out.append({'name': 'body of %s is within reach of the verifier' % k, 'func': k, 'line': r.get('line', 0), 'kind': 'unsupported',
                            'detail': r['unsupported']})
            out.extend(r['failures'])
        n = sum(r['obligations'] for r in self.results.values())
        if n == 0:
            out.append({'name': 'obligations were generated', 'func': '', 'line': 0, 'kind': 'vacuity', 'detail': 'no obligation was generated'})
        for r in self.roots:
            if r in self.results and not self.results[r]['obligations'] and not self.results[r]['unsupported']:
                out.append({'name': 'obligations were generated for %s' % r, 'func': r, 'line': 0, 'kind': 'vacuity', 'detail': ''})
        return out


def merge(rs):
    out = dict(rs[0])
    for r in rs[1:]:
        for k in ('obligations', 'discharged', 'skipped'):
            out[k] = out[k] + r[k]
        for k in ('failures', 'slow'):
            out[k] = out[k] + r[k]
        for k in ('backends', 'kinds'):
            d = dict(out[k])
            for a, b in r[k].items():
                d[a] = d.get(a, 0) + b
            out[k] = d
        out['used'] = sorted(set(out['used']) | set(r['used']))
        out['inlined'] = sorted(set(out['inlined']) | set(r['inlined']))
        out['unsupported'] = out['unsupported'] or r['unsupported']
        out['wall'] = out.get('wall', 0) + r.get('wall', 0)
        out['solver_s'] = out.get('solver_s', 0) + r.get('solver_s', 0)
        st = dict(out.get('solver_time', {}))
        for a, b in r.get('solver_time', {}).items():
            st[a] = st.get(a, 0) + b
        out['solver_time'] = st
    return out


TRUSTED = [
    'cpv verification-condition generator (this repository): semantics of the Python/Cython subset and of the modelled numpy calls',
    'cpv normaliser and lemma schemas for finite sums, counts, filters',
    'z3 %s' % '.'.join(map(str, __import__('z3').get_version()[:3])),
    'cvc5 (second back end)',
    "CPython's ast and Cython's own parser (extraction of the function bodies from /repo)",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in BUDGET else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    load_contracts()
    from cpv import props
    p = props.PROPS[a.prop]
    roots = [r for r in p['roots']]
    rp = Replay(a.prop, p['replay'], seed) if p.get('replay') and not a.no_replay else None
    chk = Check(a.prop, tier, roots, p.get('kinds'), 430 if tier == 'quick' else 3000, rp.start if rp else None, p.get('assume', ()))
    chk.run(rp.found_now if rp else None)
    alarms = chk.alarms()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rc = 0
    nobl = sum(r['obligations'] for r in chk.results.values())
    ndis = sum(r['discharged'] for r in chk.results.values())
    backends, stime, kinds = {}, {}, {}
    for r in chk.results.values():
        for d, s in ((backends, r['backends']), (stime, r.get('solver_time', {})), (kinds, r['kinds'])):
            for k, v in s.items():
                d[k] = round(d.get(k, 0) + v, 3)
    if a.v:
        for k, r in sorted(chk.results.items()):
            print('%-110s %4d/%4d %6.1fs %s' % (k, r['discharged'], r['obligations'], r.get('wall', 0), r['unsupported'] or ''))
            for s in r['slow']:
                print('      slow', s)
    if alarms:
        rc = 1
        report_alarm(a, alarms, seed, rp)
    elif rp:
        rp.stop()
    for k, why in chk.failed.items():
        print('note: contract of %s not proved (%s); its callers were verified against its body' % (k, why[:200]))
    for x in known_findings(a.prop):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, x))
    if os.environ.get('CPV_DEPS') and not alarms:
        chk.deps.update({k: r['used'] for k, r in chk.results.items()})
        with open(DEPS, 'w') as f:
            json.dump(chk.deps, f, indent=0, sort_keys=True)
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': 'python3-vt /verif/cpv/run.py %s --tier %s' % (a.prop, tier),
            'trusted_base': TRUSTED,
            'functions_under_contract': [{'function': k, 'level': contract.REGISTRY[k].level, 'obligations': r['obligations'],
                                          'discharged': r['discharged'], 'source_sha256': src_hash(k)}
                                         for k, r in sorted(chk.results.items())],
            'inlined_functions': sorted({x for r in chk.results.values() for x in r['inlined']}),
            'obligations_by_kind': kinds, 'obligations_by_backend': backends, 'solver_seconds': stime,
            'contracts_given_up': chk.failed,
            'contracts_proved_by_other_checks': sorted(chk.assumed),
            'obligations_outside_this_property': sum(r['skipped'] for r in chk.results.values()),
        },
        'assumptions': sorted(set(props.ASSUMPTIONS + p.get('assumptions', []) + [x for r in chk.results.values() for x in r.get('assumptions', [])])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(alarms),
    }
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d contracts, %d/%d obligations discharged, %.1f s' % (a.prop, len(chk.results), ndis, nobl, time.time() - t0))
    sys.stdout.flush()
    sys.exit(rc)


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


def src_hash(key):
    try:
        with open(os.path.join(F.REPO, key.split('::')[0]), 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()[:16]
    except OSError:
        return ''


def report_alarm(a, alarms, seed, rp):
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.json' % a.prop)
    rep = {'property': a.prop, 'failed_obligations': alarms[:12], 'seed': seed}
    for x in alarms[:6]:
        print('FAILED OBLIGATION %s  [%s, %s:%s]' % (x['name'], x['kind'], x['func'], x['line']))
        if x.get('detail'):
            print('    ' + x['detail'].replace('\n', '\n    ')[:600])
    sys.stdout.flush()
    found = rp.result(rep) if rp else None
    rep['failing_input'] = found
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1, default=str)
    if found is not None:
        print('failing input: %s' % json.dumps(found, default=str)[:800])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, path))


class Replay:
    """runs the real code (a scratch build of the current tree) against the specification on concrete inputs; started in
    the background by the first obligation that fails, consulted only if the verifier rejects the property"""
    LIMIT = 330

    def __init__(self, prop, drivers, seed):
        self.prop, self.drivers, self.seed, self.proc = prop, list(drivers), seed, None
        self.out = os.path.join(VERIF, 'evidence', 'replay', '%s.found.json' % prop)
        self.log = self.out[:-5] + '.log'

    def start(self):
        if self.proc is not None:
            return
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        if os.path.exists(self.out):
            os.unlink(self.out)
        self.t0 = time.time()
        with open(self.log, 'w') as f:
            self.proc = subprocess.Popen(['bash', os.path.join(VERIF, 'replay', 'run.sh'), self.prop, self.out, str(self.seed)] + self.drivers,
                                         stdout=f, stderr=subprocess.STDOUT, start_new_session=True)

    def read(self):
        if os.path.exists(self.out):
            try:
                with open(self.out) as f:
                    return json.load(f)
            except ValueError:
                pass
        return None

    def found_now(self):
        return self.proc is not None and self.read() is not None

    def stop(self):
        if self.proc is not None and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, 15)
                self.proc.wait(10)
            except (OSError, subprocess.TimeoutExpired):
                pass
            if self.proc.poll() is None:
                try:
                    os.killpg(self.proc.pid, 9)
                except OSError:
                    pass

    def result(self, rep):
        self.start()
        left = self.LIMIT - (time.time() - self.t0)
        try:
            self.proc.wait(max(left, 1))
        except subprocess.TimeoutExpired:
            rep['replay_output'] = 'time limit'
        self.stop()
        try:
            with open(self.log) as f:
                rep['replay_output'] = f.read()[-4000:]
        except OSError:
            pass
        return self.read()


if __name__ == '__main__':
    main()
