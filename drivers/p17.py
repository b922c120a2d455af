from lib import vf
from lib.vf import fx, fxa

Q = 10000
_fn = {}


def arr(v, cx):
    import numpy as np, jax.numpy as jnp
    a = np.asarray(v, np.float64)
    z = a[..., 0] + 1j * a[..., 1]
    return jnp.asarray(z.astype(np.complex64) if cx else z.real.astype(np.float32))


def pairs(v):
    import numpy as np
    v = np.asarray(v)
    return [[fx(c.real, Q), fx(c.imag, Q)] for c in v.reshape(-1)]


def thr(h, tau):
    import jax.numpy as jnp
    from cr.sparse import sls, geo

    def soft(x, t):
        m = jnp.abs(x)
        return x * (jnp.maximum(m - t, 0.) / jnp.where(m > 0, m, 1.))
    if h == 'default':
        return None
    if h == 'soft':
        return lambda i, x: soft(x, tau)
    if h == 'hard':
        return lambda i, x: jnp.where(jnp.abs(x) > tau, x, 0.)
    return lambda i, x: soft(x, tau / (i + 1))


def ist(d):
    import jax
    from cr.sparse import sls, lop
    n = len(d['A'][0])
    ck = (d['alg'], len(d['A']), n, d['cx'], d['B']['k'], d['h']['k'])
    bm = arr(d['B']['M'], d['cx']) / d['B']['d'] if d['B']['M'] else None
    if ck not in _fn:
        def run(A, b, x0, step, tau, rt, xt, k):
            kw = {}
            t = thr(d['h']['k'], tau)
            if t is not None:
                kw['threshold_func'] = t
            if bm is not None:
                kw['basis'] = lop.matrix(bm)
            return getattr(sls, d['alg'])(lop.matrix(A), b, x0, step, res_norm_rtol=rt, x_norm_change_tol=xt, max_iters=k, **kw)
        _fn[ck] = jax.jit(run)
    A, b, x0 = arr(d['A'], d['cx']), arr(d['b'], d['cx']), arr(d['x0'], d['cx'])
    f = lambda k: _fn[ck](A, b, x0, 1.0 / d['den'], d['h']['tau'] / Q, d['o']['rt'] / 1000, d['o']['xt'] / Q if d['o']['xt'] else 1e-10, k)
    return f


def ist_state(s, alg):
    z = s.z if alg == 'fista' else s.x
    return {'x': pairs(s.x), 'z': pairs(z), 'r': pairs(s.r), 't': fx(s.t, Q) if alg == 'fista' else Q, 'r2': fx(complex(s.r_norm_sqr).real, Q), 'ch': fx(s.x_change_norm, Q), 'it': int(s.iterations)}


def fomf(d):
    import jax
    import jax.numpy as jnp
    from cr.sparse import fom, lop
    n = len(d['A'][0])
    fn = {'l1': fom.l1rls, 'ball': fom.lasso, 'owl1': fom.owl1rls}[d['h']['k']]
    ck = ('fom', len(d['A']), n, str(d['h']))
    w = [v / 100 for v in d['h']['w']]
    par = jnp.array(w, jnp.float32) if d['h']['k'] == 'owl1' else w[0]
    if ck not in _fn:
        _fn[ck] = jax.jit(lambda A, b, x0, L0, lx, al, be, tol, k: fn(lop.matrix(A), b, par, x0, fom.FomOptions(max_iters=k, tol=tol, L0=L0, Lexact=lx, alpha=al, beta=be)))
    f32 = lambda v: jnp.array(v, jnp.float32)
    o = d['o']
    A, b, x0 = f32(d['A']), f32(d['b']), f32(d['x0'])
    run = lambda k, tol=1e-9: _fn[ck](A, b, x0, float(o['L0']), float(o['lx']) if o['lx'] else jnp.inf, o['alpha'] / 100, o['beta'] / 100, tol, k)
    return run, par, (A, b, x0)


def fom_state(s):
    v = lambda a: fxa(a, Q)
    return {'x': v(s.x), 'y': v(s.y), 'z': v(s.z), 'Ax': v(s.A_x), 'Ay': v(s.A_y), 'Az': v(s.A_z), 'gAx': v(s.g_Ax), 'gAy': v(s.g_Ay), 'gy': v(s.g_y), 'gx': v(s.g_x),
            'fx': fx(s.f_x, Q), 'fy': fx(s.f_y, Q), 'Cx': fx(s.C_x, Q), 'Cz': fx(s.C_z, Q), 'L': fx(s.L, Q), 'th': fx(s.theta, Q), 'nx': fx(s.norm_x, Q), 'ndx': fx(s.norm_dx, Q), 'it': int(s.iterations)}


def record(d):
    import numpy as np
    ev = {'d': d, 'exc': '', 'jit': 1}
    try:
        if d['alg'] == 'fom':
            from cr.sparse import opt, fom, lop
            import jax.numpy as jnp
            run, par, (A, b, x0) = fomf(d)
            ev['x0'] = fxa(opt.prox_l1_ball(par).prox_vec_val(x0, 1.)[0] if d['h']['k'] == 'ball' else x0, Q)
            ev['sts'] = [fom_state(run(k)) for k in range(1, d['K'] + 1)]
            ev['last'] = fom_state(run(3000))
            ev['loose'] = fom_state(run(3000, 1e-2))
            ev['aff'] = []
            if d['o']['L0'] == 12 and not any(d['x0']) and d['h']['k'] == 'l1':
                x1 = jnp.arange(1., 1. + len(d['x0']))
                for AA, bb in ((A, b), (A, None), (None, b), (None, None)):
                    op = fom.matrix_affine_func(AA, bb)
                    ev['aff'].append([fxa(op(x1 if AA is not None else b, 0), Q), fxa(op(b, 1), Q), fxa(op(x1 if AA is not None else b, 2), Q)])
            if d['o']['L0'] == 12 and d['b'][0] == 3 and not any(d['x0']):
                fj = {'l1': fom.l1rls_jit, 'ball': fom.lasso_jit, 'owl1': fom.owl1rls_jit}[d['h']['k']]
                ev['jit'] = int(np.abs(np.asarray(fj(lop.matrix(A), b, par, x0, fom.FomOptions(L0=12., max_iters=4, tol=1e-9)).x) - np.asarray(run(4).x)).max() < 1e-4)
        else:
            run = ist(d)
            ev['sts'] = [ist_state(run(k), d['alg']) for k in range(1, d['K'] + 1)]
            if d['h']['k'] == 'default' and d['den'] == d['nn'] + 1 and d['o']['rt'] == 1 and d['o']['xt'] == 0 and not d['B']['M'] and d['b'][0][0] == 3:
                from cr.sparse import sls, lop
                fj = sls.ista_jit if d['alg'] == 'ista' else sls.fista_jit
                s = fj(lop.matrix(arr(d['A'], d['cx'])), arr(d['b'], d['cx']), arr(d['x0'], d['cx']), 1.0 / d['den'], max_iters=5)
                ev['jit'] = int(np.abs(np.asarray(s.x) - np.asarray(run(5).x)).max() < 1e-4)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['alg']}-{d['h']['k']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if not e.get('sts'):
        return None
    if e['d']['alg'] == 'fom':
        e['sts'][1]['th'] += 900
    else:
        e['sts'][0]['x'][0][0] += 900
    return e


def check(rep):
    rep.assumptions = ['systems of up to four unknowns, real and Gaussian-integer complex; orthonormal bases; soft, hard, decaying and default thresholds',
                       'every iteration limit up to eight; optimality of the final point of the first order method, run with a tolerance below single precision']
    cases = vf.generate(rep, 'FomGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Descent', 'Growth', 'Rate', 'ThetaOK', 'BallOK', 'ProxAgrees'], minimum=500, workers=8)
    vf.conform(rep, 'drivers.p17', cases, 'FomTrace', 'FomVerdict', key, corrupt=corrupt, size=40, shards=8,
               group=lambda d: [d['alg'], len(d['A']), len(d['A'][0]), d['h']['k'], d.get('cx', 0), d.get('B', {}).get('k', '')])
