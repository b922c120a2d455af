from lib import vf
from lib.vf import fx, fxa

Q = 10000
_fn = {}
_ops = {}
BASES = {3: [[0, 0, 1], [-1, 0, 0], [0, 1, 0]], 4: [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]}
CNT = {'t': 0, 'h': 0}


def np32(v, s=1.0):
    import numpy as np, jax.numpy as jnp
    return jnp.asarray((np.asarray(v, np.float64) / s).astype(np.float32))


def carr(v, cx):
    import numpy as np, jax.numpy as jnp
    a = np.asarray(v, np.float64)
    z = a[..., 0] + 1j * a[..., 1]
    return jnp.asarray(z.astype(np.complex64) if cx else z.real.astype(np.float32))


def pairs(v):
    import numpy as np
    return [[fx(c.real, Q), fx(c.imag, Q)] for c in np.asarray(v).reshape(-1)]


def counting(A):
    """operator of the matrix A which counts its applications"""
    import jax
    from cr.sparse import lop
    AH = A.conj().T

    def bump(k):
        CNT[k] += 1

    def times(x):
        jax.debug.callback(lambda: bump('t'))
        return A @ x

    def trans(x):
        jax.debug.callback(lambda: bump('h'))
        return AH @ x
    return lop.matrix(A)._replace(times=times, trans=trans)


def op_for(d):
    from cr.sparse import lop
    k = (str(d['M']), d['cnt'])
    if k not in _ops:
        A = np32(d['M'], d['d'])
        _ops[k] = counting(A) if d['cnt'] else lop.matrix(A)
    return _ops[k]


def counted(f):
    import jax
    jax.effects_barrier()
    CNT['t'] = CNT['h'] = 0
    s = f()
    jax.block_until_ready(s.x)
    jax.effects_barrier()
    return s, CNT['t'], CNT['h']


def sol(f):
    s, t, h = counted(f)
    return {'x': fxa(s.x, Q), 'r': fxa(s.r, Q), 'it': int(s.iterations), 'nt': int(s.n_times), 'nh': int(s.n_trans), 'ct': t, 'ch': h}


def adm(d):
    import numpy as np
    import jax.numpy as jnp
    from cr.sparse import lop
    from cr.sparse.cvx.adm import yall1
    A, b, w = op_for(d), np32(d['b'], Q), np32(d['w'], Q)
    kw = {}
    if d['wn']:
        kw['weights'] = w
    if d['nn']:
        kw['nonneg'] = True
    if d['z0']:
        kw['z0'] = w / 2
    if d['model'] == 'pen':
        kw['rho'] = d['par'] / Q
    if d['model'] == 'con':
        kw['delta'] = d['par'] / Q
    if d['gamma'] != Q:
        kw['gamma'] = d['gamma'] / Q
    f = lambda k, t: sol(lambda: yall1.solve(A, b, tolerance=t, max_iters=k, **kw))
    ks = (2,) if d['model'] == 'con' else (2, 4)
    ev = {'sts': [f(k, 1e-7) for k in ks], 'fin': f(3000, 1e-6), 'bp': [], 'stall': 0, 'W': [], 'wx': 0}
    if d['model'] != 'con' and ev['fin']['it'] > 0:
        if d['z0'] == 0 and d['gamma'] == Q and not d['cnt'] and not d['wn'] and d['b'][0] > 0 and d['b'][1] > 0:
            W = BASES[len(d['w'])]
            Wm = np32(W, 2.0 if len(W) == 4 else 1.0)
            k = (str(d['M']), 'W')
            if k not in _ops:
                _ops[k] = (lop.matrix(np32(d['M'], d['d']) @ Wm.T), lop.matrix(Wm))
            AW, WO = _ops[k]
            ev['W'] = W
            ev['wx'] = sol(lambda: yall1.solve(AW, b, W=WO, tolerance=1e-7, max_iters=4, jit=False, **kw))
        bm = float(np.abs(np.asarray(b)).max())
        bs = b / bm
        par = [d['par'] / Q / bm] if d['model'] == 'pen' else []
        fn = yall1.solve_l1_l2_jit if d['model'] == 'pen' else yall1.solve_bp_jit
        z0 = kw.get('z0', jnp.zeros(len(d['w'])))
        g = lambda k: fn(A, bs, A.trans(b) / bm, z0, w, bool(d['nn']), *par, d['gamma'] / Q, 5e-3, k)
        v = lambda t: {'x': fxa(t.x, Q), 'xp': fxa(t.x_prev, Q), 'z': fxa(t.z, Q), 'rp': fxa(t.rp, Q), 'rd': fxa(t.rd, Q), 'po': fx(t.primal_objective, Q), 'do': fx(t.dual_objective, Q)}
        last = g(9999)
        far = fn(A, bs, A.trans(b) / bm, z0, w, bool(d['nn']), *par, d['gamma'] / Q, 1e-6, 3000)
        ev['stall'] = int(float(jnp.linalg.norm(far.x - far.x_prev)) <= 1e-6 * float(jnp.linalg.norm(far.x)) and int(far.iterations) == ev['fin']['it'])
        n = int(last.iterations)
        ev['bp'] = [v(last)] + ([v(g(n - 2))] if n >= 4 else [])
    return ev


def ipm(d):
    import jax
    from cr.sparse import lop
    from cr.sparse.cvx import l1ls
    n = len(d['M'][0])
    ck = ('ipm', n, d['cnt'], d['x0'])
    if ck not in _fn:
        import jax.numpy as jnp
        mk = counting if d['cnt'] else lop.matrix
        kw = {} if d['x0'] == 0 else {'x0': jnp.arange(1., n + 1) * d['x0'], 'u0': jnp.full(n, 5. * d['x0'])}
        _fn[ck] = jax.jit(lambda A, b, lam, tol, k: l1ls.solve(mk(A), b, lam, tol=tol, max_iters=k, **kw))
    A, b = np32(d['M']), np32(d['b'], Q)
    f = lambda k: sol(lambda: _fn[ck](A, b, d['lam'] / Q, d['tol'] * 1e-5, k))
    ev = {'sts': [f(k) for k in (2, 3, 400)], 'jit': 1}
    if d['lam'] == 5000 and d['tol'] == 100 and not d['cnt'] and d['b'][1] == 30000:
        import jax.numpy as jnp, numpy as np
        ref = _fn[ck](A, b, d['lam'] / Q, d['tol'] * 1e-5, 3)
        x0, u0 = (jnp.zeros(n), jnp.ones(n)) if d['x0'] == 0 else (jnp.arange(1., n + 1) * d['x0'], jnp.full(n, 5. * d['x0']))
        for s in (l1ls.solve_from(lop.matrix(A), b, 0.5, x0, u0, tol=1e-3, max_iters=3), l1ls.solve_jit(lop.matrix(A), b, 0.5, x0=x0, u0=u0, tol=1e-3, max_iters=3), l1ls.solve_from_jit(lop.matrix(A), b, 0.5, x0, u0, tol=1e-3, max_iters=3)):
            if np.abs(np.asarray(s.x) - np.asarray(ref.x)).max() > 2e-3 or int(s.iterations) != int(ref.iterations):
                ev['jit'] = 0
    return ev


def foc(d):
    import jax, jax.numpy as jnp
    from cr.sparse.cvx import focuss
    if 'foc' not in _fn:
        _fn['foc'] = jax.jit(lambda A, b, p, k: focuss.matrix_solve_noiseless(A, b, p=p, max_iters=k))
    A, b = np32(d['M']), np32(d['b'], Q)
    f = lambda k: _fn['foc'](A, b, d['h'] / 2, k)
    st = lambda s: {'x': fxa(s.x, Q), 'r': fxa(s.r, Q), 'r2': fx(s.r_norm_sqr, Q), 'it': int(s.iterations), 'I': [int(i) + 1 for i in s.I], 'xI': fxa(s.x_I, Q)}
    return {'sts': [st(f(k)) for k in range(1, 7)], 'one': fxa(focuss.step_noiseless(A, b, jnp.ones(3), d['h'] / 2), Q)}


def spg(d):
    import jax, jax.numpy as jnp
    from cr.sparse import lop
    from cr.sparse.cvx import spgl1
    m, n = len(d['M']), len(d['M'][0])
    cb = d['cx'] and any(c[1] for c in d['b'])
    A, b = carr(d['M'], d['cx']), carr(d['b'], cb)
    ck = ('spg', m, n, d['cx'], cb, d['prob'], d['x0'], d['mem'], d['cnt'])
    if ck not in _fn:
        mk = counting if d['cnt'] else lop.matrix
        def run(A, b, par, x0, tol, k):
            o = spgl1.SPGL1Options(max_iters=k, memory=d['mem'], opt_tol=tol)
            if d['prob'] == 'lasso':
                return spgl1.solve_lasso_from(mk(A), b, par, x0, o) if d['x0'] else spgl1.solve_lasso(mk(A), b, par, o)
            if d['prob'] == 'bpic':
                return spgl1.solve_bpic_from(mk(A), b, par, x0, o) if d['x0'] else spgl1.solve_bpic(mk(A), b, par, o)
            return spgl1.solve_bp(mk(A), b, o)
        _fn[ck] = jax.jit(run)
    x0 = jnp.arange(1, n + 1).astype(A.dtype) * d['x0']
    d['xx'] = [[(i + 1) * d['x0'], 0] for i in range(n)]

    def st(k, tol=1e-6):
        s, t, h = counted(lambda: _fn[ck](A, b, d['par'] / Q, x0, tol, k))
        e = {'x': pairs(s.x), 'r': pairs(s.r), 'g': pairs(s.g), 'fp': fxa(s.f_past, Q), 'f': fx(s.f_past[0], Q), 'rn': fx(s.r_norm, Q), 'gap': fx(s.r_gap, Q), 'an': fx(s.alpha_next, Q),
             'it': int(s.iterations), 'nt': int(s.n_times), 'nh': int(s.n_trans), 'ls': int(s.n_ls_iters), 'ct': t, 'ch': h, 'tau': d['par'], 'tc': 0, 'nw': 0}
        if d['prob'] != 'lasso':
            e.update(tau=fx(s.tau, Q), tc=int(bool(s.tau_changed)), nw=int(s.n_newton))
        return e
    ev = {'sts': [st(k) for k in range(1, d['K'] + 1)] + [st(400, 1e-5)], 'jit': 1, 'rgf': []}
    if not d['cnt'] and d['mem'] == 3:
        xx = jnp.arange(1, n + 1).astype(A.dtype)
        r, g, f = spgl1.compute_rgf(lop.matrix(A), b, xx)
        ev['rgf'] = [{'x': pairs(xx), 'r': pairs(r), 'g': pairs(g), 'f': fx(f, Q)}]
    if not d['cnt'] and not d['x0'] and d['mem'] == 3 and (m, n) == (2, 3) and d['par'] in (0, 5000, 10000):
        import numpy as np
        o = spgl1.SPGL1Options(max_iters=4, memory=3, opt_tol=1e-6)
        fj = {'lasso': spgl1.solve_lasso_jit, 'bpic': spgl1.solve_bpic_jit, 'bp': spgl1.solve_bp_jit}[d['prob']]
        s = fj(lop.matrix(A), b, *([] if d['prob'] == 'bp' else [d['par'] / Q]), options=o)
        ev['jit'] = int(np.abs(np.asarray(s.x) - np.asarray(_fn[ck](A, b, d['par'] / Q, x0, 1e-6, 4).x)).max() < 2e-4)
    return ev


def scd(d):
    import jax.numpy as jnp
    from cr.sparse import fom, lop
    A, b = np32(d['M']), np32(d['b'])
    n = len(d['M'][0])
    if d['k'] == 'bp':
        s = fom.bp_scd(lop.matrix(A), b, 0.1, jnp.zeros(n), jnp.zeros(len(d['M'])))
    else:
        s = fom.dantzig_scd(lop.matrix(A), b, 0.01, 0.1, jnp.zeros(n), jnp.zeros(n))
    return {'x': fxa(s.x, Q)}


def record(d):
    ev = {'d': d, 'exc': ''}
    try:
        ev.update({'adm': adm, 'ipm': ipm, 'foc': foc, 'spg': spg, 'scd': scd}[d['alg']](d))
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = dict(e.get('d', e))
    d.pop('xx', None)
    return f"{d['alg']}-{d.get('model') or d.get('prob') or d.get('k') or ''}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if e['d']['alg'] != 'adm' or e['fin']['it'] == 0:
        return None
    e['fin']['x'][0] += 900
    return e


def check(rep):
    rep.assumptions = ['two or three measurements of two to four unknowns; alternating directions with orthonormal rows (their documented requirement)',
                       'optima from basic solutions, sign patterns and alignment conditions; single precision']
    cases = vf.generate(rep, 'L1Gen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['DualBox', 'BpBound', 'PatternOK', 'FocFeasible'], minimum=500, workers=8)
    vf.conform(rep, 'drivers.p18', cases, 'L1Trace', 'L1Verdict', key, corrupt=corrupt, size=60, shards=8,
               group=lambda d: [d['alg'], str(d['M']) if d['alg'] == 'adm' else [len(d['M']), len(d['M'][0])], d.get('cnt'), d.get('model') or d.get('prob'), d.get('x0'), d.get('mem'), d.get('cx'), (d.get('par') if d.get('model') == 'con' else 0)])
