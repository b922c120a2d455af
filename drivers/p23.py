from lib import vf
from drivers.convexkit import CS
from lib.vf import fxa


def record(d):
    import numpy as np, jax.numpy as jnp, cr.sparse.geo as geo, cr.sparse.opt as opt
    ev = {'d': d, 're': [], 'im': [], 'exc': ''}
    k = d['kind']
    try:
        if k == 'convert':
            g = d['th'] / 2
            z = np.array([geo.gamma_to_tau_hard_threshold(g), geo.gamma_to_tau_half_threshold(g)])
        else:
            x = np.array([a[0] / 2 + 1j * a[1] / 2 for a in d['x']], dtype=np.complex64) if d['cplx'] else np.array(d['x'], dtype=np.float32) / 2
            x = jnp.asarray(x)
            if 'percentile' in k:
                f = getattr(geo, k.replace('percentile', 'threshold_percentile'))
                z = f(x, d['perc'])
            else:
                f = opt.shrink if k == 'shrink' else getattr(geo, k.replace('_jit', '') + '_threshold' + ('_jit' if 'jit' in k else ''))
                z = f(x, d['th'] / 2)
        z = np.asarray(z)
        ev['re'], ev['im'] = fxa(z.real, CS), fxa(z.imag, CS)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    d = e.get('d', e)
    return f"{d['kind']}-{'c' if d['cplx'] else 'r'}-t{d['th']}-p{d['perc']}-{str(d['x'])[:30].replace(' ', '')}"


def corrupt(e):
    e['re'] = [v + 400 if v else v for v in e['re']]
    return e if any(e['re']) else None


def check(rep):
    rep.assumptions = ['half-integer grid of magnitudes, thresholds and percentiles of ThreshGen', 'float32 results projected to 1/10080; exact ties of computed thresholds accepted either way']
    cases = vf.generate(rep, 'ThreshGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'], ['Best', 'PercSane'], minimum=100, workers=8)
    vf.conform(rep, 'drivers.p23', cases, 'ThreshTrace', 'ThreshVerdict', key, corrupt=corrupt, size=40, shards=4)
