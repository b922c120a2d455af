from lib import vf
from lib.vf import fx, fxa

Q = 10000
KMAX = 10
_fn = {}


def projector(c, n):
    import jax.numpy as jnp
    if c['s'] == 'free':
        return lambda z: z
    if c['s'] == 'pos':
        return lambda z: jnp.maximum(z, 0.)
    if c['s'] == 'ball':
        r = float(c['r'])
        return lambda z: z * jnp.minimum(1., r / jnp.maximum(jnp.sqrt(jnp.sum(z * z)), 1e-30))
    l, u = jnp.array(c['l'], jnp.float32), jnp.array(c['u'], jnp.float32)
    return lambda z: jnp.clip(z, l, u)


def make_f(f, H, b):
    import jax.numpy as jnp
    from cr.sparse import opt
    if f == 'quad':
        return opt.smooth_build(lambda x: 0.5 * jnp.dot(x, H @ x) - jnp.dot(b, x))
    return opt.smooth_build(lambda x: 0.25 * jnp.sum(x ** 4) - jnp.dot(b, x))


def solver(d):
    import jax, jax.numpy as jnp
    from cr.sparse.opt import spg
    n = len(d['x0'])
    o = d['o']
    ck = (d['f']['f'], str(d['c']), n, o['mem'])
    if ck not in _fn:
        pr = projector(d['c'], n)
        _fn[ck] = jax.jit(lambda H, b, x0, k, gam, otol, ptol, calls: spg.solve_from(make_f(d['f']['f'], H, b), pr, x0,
                          spg.SPGOptions(progress_tol=ptol, optim_tol=otol, suff_dec=gam, max_iters=k, max_f_calls=calls, memory=o['mem'])))
    H = jnp.array(d['f']['H'] or [[0.] * n] * n, jnp.float32)
    b = jnp.array(d['f']['b'], jnp.float32)
    x0 = jnp.array(d['x0'], jnp.float32)
    ptol = o['ptol'] / Q if o['ptol'] else 1e-9
    otol = o['otol'] / Q if o['otol'] > 1 else 1e-5
    return lambda k: _fn[ck](H, b, x0, k, o['gam'] / Q, otol, ptol, o['calls'])


def state(s):
    import numpy as np
    x, g, xp, gp = (np.asarray(v, np.float64) for v in (s.x, s.g, s.x_prev, s.g_prev))
    st, y = x - xp, g - gp
    m = max(np.abs(st).max(), np.abs(y).max())
    e = 1.0 if m == 0 else 10.0 / m
    return {'x': fxa(x, Q), 'g': fxa(g, Q), 'xp': fxa(xp, Q), 'gp': fxa(gp, Q), 'h': fxa(np.asarray(s.f_past), Q), 'delta': fx(s.delta, Q),
            'it': int(s.iterations), 'calls': int(s.f_calls), 'gcalls': int(s.g_calls),
            # step and gradient change, magnified alike (their ratio is the spectral step); too short to be meaningful in single precision?
            'sn': fxa(st * e, Q), 'yn': fxa(y * e, Q), 'tiny': int(abs(np.dot(st, y)) < 3e-4 or np.abs(st).max() < 0.02 * np.abs(x).max() or np.abs(st * e).max() < 0.2)}


def record(d):
    import numpy as np
    ev = {'d': d, 'exc': '', 'jit': 1}
    try:
        run = solver(d)
        ev['sts'] = [state(run(k)) for k in range(1, KMAX + 1)]
        ev['last'] = state(run(300))
        if d['o']['mem'] == 2 and d['c']['s'] != 'ball' and d['f']['b'][0] == 1:      # the ready made jitted entry point agrees
            import jax.numpy as jnp
            from cr.sparse.opt import spg
            n = len(d['x0'])
            f = make_f(d['f']['f'], jnp.array(d['f']['H'] or [[0.] * n] * n, jnp.float32), jnp.array(d['f']['b'], jnp.float32))
            s = spg.solve_from_jit(f, projector(d['c'], n), jnp.array(d['x0'], jnp.float32), spg.SPGOptions(progress_tol=d['o']['ptol'] / Q, max_iters=4, memory=2, suff_dec=d['o']['gam'] / Q))
            ev['jit'] = int(np.abs(np.asarray(s.x) - np.asarray(run(4).x)).max() < 1e-3)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['f']['f']}-{d['c']['s']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if len(e.get('sts', [])) < 2:
        return None
    e['sts'][1]['h'][0] += 900
    return e


def check(rep):
    rep.assumptions = ['convex and indefinite quadratics and quartics in two and three dimensions over the whole space, orthant, box and ball',
                       'every iteration limit up to ten and the final state; the spectral length is judged when the last step is resolved in single precision']
    cases = vf.generate(rep, 'SpgGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Feasible', 'Descent', 'History', 'NeverAboveStart', 'SearchEnds'], minimum=200, workers=8)
    vf.conform(rep, 'drivers.p26', cases, 'SpgTrace', 'SpgVerdict', key, corrupt=corrupt, size=30, shards=6, group=lambda d: [d['f']['f'], len(d['x0']), d['c']['s'], d['o']['mem']])
