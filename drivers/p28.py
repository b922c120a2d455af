"""P28: phase transition grids, block layouts, image kernels and the Ricker wavelet."""
from lib import vf
from lib.vf import fxa

Q = 10000


def record(c):
    import contextlib, io, math
    import numpy as np
    d = c['d']
    ev = {'d': d, 'exc': ''}
    k = d['kind']
    try:
        if k in ('pt', 'ptbad'):
            from cr.sparse.pursuit import phasetransition as pt
            with contextlib.redirect_stdout(io.StringIO()):
                r = pt.configuration(d['N'])
            if k == 'ptbad':
                return ev
            N, R = d['N'], len(r.rhos)
            rho = lambda v: int(round(float(v) * 2 * R))
            eta = lambda v: int(round(float(v) * N))
            exact = all(abs(float(v) * 2 * R - rho(v)) < 1e-3 for v in r.rhos) and all(abs(float(v) * N - eta(v)) < 1e-3 for v in r.etas)
            if not exact or int(r.N) != N:
                raise ValueError('ratios off the grid')
            ev.update(listed=[list(t) for t in c['listed']], confs=[[int(t.K), int(t.M)] for t in r.configurations],
                      Ms=[int(v) for v in r.Ms], etas=[eta(v) for v in r.etas], rhos=[rho(v) for v in r.rhos],
                      map=[[rho(a), eta(b), int(K), int(M)] for (a, b), (K, M) in r.reverse_map.items()],
                      own=[[rho(t.rho), eta(t.eta)] for t in r.configurations])
        elif k == 'blk':
            from cr.sparse.block import block
            ev.update(s=[int(v) for v in block.start_locations(d['n'], d['b'])], t=[int(v) for v in block.end_locations(d['n'], d['b'])])
        elif k in ('box', 'fixed'):
            from cr.sparse import vision
            name = 'KERNEL_BOX_%dX%d' % (d['s'], d['s']) if k == 'box' else 'KERNEL_' + {'sharpen': 'SHARPEN_3X3', 'laplacian': 'LAPLACIAN_3X3', 'sobel_x': 'SOBEL_X', 'sobel_y': 'SOBEL_Y'}[d['name']]
            ev['K'] = fxa(np.asarray(getattr(vision, name)), Q)
        elif k == 'gauss':
            from cr.sparse import vision
            size = d['h'] if d['h'] == d['w'] else (d['h'], d['w'])
            sig = d['sx'] / 2 if d['sx'] == d['sy'] else (d['sx'] / 2, d['sy'] / 2)
            ev['K'] = fxa(np.asarray(vision.kernel_gaussian(size, sig)), Q)
        elif k == 'ricker':
            import jax.numpy as jnp
            from cr.sparse import geo
            f = d['f'] or 10
            t = np.sqrt(np.array(d['j']) / 32) / (math.pi * f)
            g = (lambda a: geo.ricker(a)) if d['f'] == 0 else (lambda a: geo.ricker(a, d['f']))
            ev.update(w=fxa(np.asarray(g(jnp.asarray(t))), Q), wn=fxa(np.asarray(g(jnp.asarray(-t))), Q))
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(c) for c in chunk]


def key(e):
    d = e['d']
    return d['kind'] + '-' + '-'.join(str(d[t]) for t in ('N', 'n', 'b', 's', 'name', 'h', 'w', 'sx', 'sy', 'f') if t in d)


def corrupt(e):
    if e['d']['kind'] != 'gauss':
        return None
    e['K'][0][0] += 40
    return e


def check(rep):
    rep.assumptions = ['grids for N up to 512 (2048 thorough), block layouts, kernels and times of GridGen', 'float32 results projected to 1/10000']
    cases = vf.generate(rep, 'GridGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Sane', 'Complete', 'KernelSane', 'LayoutSane'], minimum=300, workers=8)
    vf.conform(rep, 'drivers.p28', cases, 'GridTrace', 'GridVerdict', key, corrupt=corrupt, size=20, shards=4)
