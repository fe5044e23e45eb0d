"""Concrete search for an input on which the built code and the specification differ. Only run after the verifier
has rejected an obligation; what decides a property is the verifier."""
import json
import os
import sys
import time
import traceback
import numpy as np

PROP, OUT, SEED = sys.argv[1], sys.argv[2], int(sys.argv[3])
WORK = sys.argv[4] if len(sys.argv) > 4 else '.'
rng = np.random.default_rng(SEED)
END = time.time() + float(os.environ.get('CPV_SEARCH', '60'))


def enc(x):
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {'shape': list(x.shape), 'first': x.ravel()[:60].tolist()}
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x if isinstance(x, (int, float, str, bool, type(None))) else repr(x)[:500]


def found(what, **kw):
    tmp = '%s.%d' % (OUT, os.getpid())
    with open(tmp, 'w') as f:
        json.dump({'what': what, 'input': {k: enc(v) for k, v in kw.items()}}, f, default=str)
    os.replace(tmp, OUT)
    print('found:', what)
    sys.stdout.flush()
    os._exit(0)


def same(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


def guarded(fn, what, *args, ok=(), **inp):
    """calls fn; an exception outside ok is a finding"""
    try:
        return fn(*args)
    except ok:
        return None
    except Exception as e:
        found('%s raised %s: %s' % (what, type(e).__name__, str(e)[:300]), trace=traceback.format_exc()[-1500:], **inp)


def more():
    return time.time() < END
