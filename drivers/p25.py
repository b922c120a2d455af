from lib import vf
from lib.vf import fx, fxa

Q = 10000


def opts(d, k):
    from cr.sparse.block import bsbl
    # the helpers must pass on every option they are given
    make = {'em': bsbl.bsbl_em_options, 'bo': bsbl.bsbl_bo_options, 'np': bsbl.BSBL_Options}[d['alg']]
    return make(learn_block_corr=d['corr'], learn_lambda=d['ll'], prune_gamma=d['prune'] / Q, lambda_val=d['lam'] / Q,
                             max_iters=k, epsilon=d['eps'] / Q if d['eps'] else 1e-9)


def state(s):
    import numpy as np
    f = lambda a: [fxa(r, Q) for r in np.asarray(a, np.float64)]
    return {'mu': f(s.mu_x), 'res': fxa(s.r, Q), 'r2': fx(s.r_norm_sqr, Q), 'g': fxa(s.gammas, Q), 'S0': [f(m) for m in s.Sigma0],
            'lam': fx(s.lambda_val, Q), 'dmu': fx(s.dmu, Q), 'it': int(s.iterations)}


def record(d):
    import numpy as np
    import jax.numpy as jnp
    from cr.sparse.block import bsbl
    ev = {'d': d, 'exc': '', 'flat': 1, 'plain': 1}
    try:
        Phi, y = jnp.array(d['P'], jnp.float32), jnp.array(d['y'], jnp.float32)
        fn = {'em': bsbl.bsbl_em_jit, 'bo': bsbl.bsbl_bo_jit, 'np': bsbl.bsbl_bo_np_jit}[d['alg']]
        raw = [fn(Phi, y, d['b'], opts(d, k)) for k in range(1, d['k'] + 1)]
        ev['sts'] = [state(s) for s in raw]
        ev['flat'] = int(all(np.array_equal(np.asarray(s.x), np.asarray(s.mu_x).reshape(-1)) for s in raw))
        if d['lam'] == 10000 and d['prune'] == 10 and d['corr'] == 1 and d['y'][0] == 3:     # plain entry points
            pl = {'em': bsbl.bsbl_em, 'bo': bsbl.bsbl_bo, 'np': bsbl.bsbl_bo_np}[d['alg']]
            ev['plain'] = int(np.abs(np.asarray(pl(Phi, y, d['b'], opts(d, 2)).x) - np.asarray(raw[1].x)).max() < 1e-3)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['alg']}-b{d['b']}-ll{d['ll']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if not e.get('sts'):
        return None
    e['sts'][0]['g'][0] += 3000
    return e


def check(rep):
    rep.assumptions = ['two and three measurements, up to six coefficients, blocks of one to four; noise variance fixed or learned by either rule',
                       'weights, correlation and noise are recomputed when the noise variance is at least 0.1; with data explained exactly the learned noise variance may collapse to zero and is not followed further']
    cases = vf.generate(rep, 'BsblGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Weights', 'Noise', 'Bounded', 'Facts', 'ArInverse'], minimum=500, workers=8)
    vf.conform(rep, 'drivers.p25', cases, 'BsblTrace', 'BsblVerdict', key, corrupt=corrupt, size=40, shards=8, group=lambda d: [d['alg'], len(d['P']), len(d['P'][0]), d['b']])
