import contextlib, io
from lib import vf
from lib.vf import fx, fxa

Q = 10000
LIMITS = 6


def st(s):
    import numpy as np
    return {'I': np.asarray(s.I).astype(int).tolist(), 'v': fxa(s.x_I, 2), 'r': fxa(s.r, 1), 'miss': int(s.n_mismatched_bits), 'it': int(s.iterations)}


def record(d):
    import numpy as np, jax.numpy as jnp
    import cr.sparse.cs.cs1bit as cs
    ev = {'d': d, 'exc': ''}
    k = d['kind']
    try:
        A = jnp.asarray(np.array(d['A'], dtype=np.float32))
        y = jnp.asarray(np.array(d['y'], dtype=np.float32)) if 'y' in d else None
        if k == 'biht':
            ev['st'] = [st(cs.biht_jit(A, y, d['K'], float(d['tau']), t)) for t in range(LIMITS)]
            ev['plain'] = st(cs.biht(A, y, d['K'], float(d['tau']), LIMITS - 1)) if sum(d['y']) == 1 else ev['st'][-1]
        elif k == 'measure':
            x = np.array(d['x'], dtype=np.float32)
            ev['ys'] = [fxa(cs.measure_1bit(A, jnp.asarray(c * x)), 1) for c in (1, 0.125, 3, 1000)]
        elif k == 'rfp':
            x0 = np.array(d['x0'], dtype=np.float64)
            x0 = (x0 / np.linalg.norm(x0)).astype(np.float32)
            ev['x0'] = fxa(x0, Q)
            run = lambda i, o: cs.rfp(A, y, jnp.asarray(x0), lambda_=float(d['lam']), delta=d['delta'] / 100, inner_iters=i, outer_iters=o)
            f = lambda s: {'x': fxa(s.x, Q), 'prev': fxa(s.x_prev, Q), 'it': int(s.iterations)}
            with contextlib.redirect_stdout(io.StringIO()):
                ev['inner'] = [f(run(i, 1)) for i in range(1, d['inner'] + 1)]
                ev['outer'] = [f(run(1, o)) for o in range(1, 4)] if d['inner'] == 1 else []
        elif k == 'guess':
            ev['rand'], ev['ls'] = fxa(cs.rfp_random_guess(A), Q), fxa(cs.rfp_lsqr_guess(A, y), Q)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['kind']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if e['d']['kind'] != 'biht' or not any(e['st'][-1]['v']):
        return None
    e['st'][-1]['v'] = [2 * v for v in e['st'][-1]['v']]
    return e


def check(rep):
    rep.assumptions = ['integer 5x4 matrices, every sign vector (thorough), sparsity 1 to 3, steps 1 and 2: BIHT is exact there',
                       'fixed point iteration judged only while the shrunk vector does not (nearly) vanish, where it has no direction']
    cases = vf.generate(rep, 'OneBitGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Sparse', 'SignOnly', 'Downhill'], minimum=150, workers=8)
    vf.conform(rep, 'drivers.p13', cases, 'OneBitTrace', 'OneBitVerdict', key, corrupt=corrupt, size=40, shards=6, group=lambda d: [d['kind'], d.get('K')])
