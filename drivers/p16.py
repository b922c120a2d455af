import contextlib
from lib import vf
from lib.vf import fx, fxa

Q = 10000


_jit = {}


def svd_fn(kind, k):
    """one compilation per shape: the operator is built from the traced matrix"""
    if (kind, k) not in _jit:
        import jax
        from cr.sparse import lop
        import cr.sparse.sls.svd as crsvd
        f = crsvd.lansvd_simple if kind == 'svd' else crsvd.lanbpro
        _jit[kind, k] = jax.jit(lambda A, r: f(lop.matrix(A), k, r))
    return _jit[kind, k]


def record(d):
    import numpy as np, jax, jax.numpy as jnp
    import cr.nimble as cnb
    import cr.nimble.svd as nsvd
    from cr.sparse import lop, sls, dict as crdict
    import cr.sparse.sls.svd as crsvd
    ev = {'d': d, 'exc': ''}
    k = d['kind']
    own = d['t']['s'] in ([3, 3, 1], [5, 0]) and d['k'] == 2      # the packaged jitted form, compiled per operator
    from jax.experimental import enable_x64
    try:
        with (enable_x64() if d['x64'] else contextlib.nullcontext()):
            dt = np.float64 if d['x64'] else np.float32
            A = jnp.asarray((np.array(d['t']['A'], dtype=np.float64) / d['t']['den']).astype(dt))
            T = lop.matrix(A)
            if k in ('svd', 'bpro'):
                r = np.random.RandomState(d['key']).uniform(-0.5, 0.5, A.shape[0])
                r = jnp.asarray(r.astype(dt))
            if k == 'svd':
                U, S, V, bnd, nc, st = (crsvd.lansvd_simple_jit(T, d['k'], r) if own else svd_fn(k, d['k'])(A, r))
                j = int(st.iterations)
                ev.update(U=fxa(U, Q), S=fxa(S, Q), V=fxa(V, Q), bnd=fxa(bnd, Q)[:d['k']], nc=int(nc), steps=j, exact=int(float(st.beta[j]) == 0))
            elif k == 'bpro':
                st = (crsvd.lanbpro_jit(T, d['k'], r) if own else svd_fn(k, d['k'])(A, r))
                ev.update(U=fxa(st.U, Q), V=fxa(st.V, Q), alpha=fxa(st.alpha, Q), beta=fxa(st.beta, Q), p=fxa(st.p, Q), it=int(st.iterations))
            elif k == 'norm':
                ph = np.exp(1j * np.arange(A.shape[0]))[:, None].astype(np.complex64)
                C = lop.matrix(jnp.asarray(ph * np.asarray(A) * np.exp(0.5j * np.arange(A.shape[1])).astype(np.complex64)))
                ev['v'] = [fx(lop.normest(T), Q), fx(lop.normest_jit(T), Q), fx(lop.normest(C), Q)]
            elif k == 'bounds':
                ev.update(up=fx(crdict.upper_frame_bound(A), Q), lo=fx(crdict.lower_frame_bound(A), Q), both=fxa(crdict.frame_bounds(A), Q),
                          opup=fx(lop.upper_frame_bound(T), Q))
            else:
                b = jnp.asarray(np.array(d['b'], dtype=dt))
                f = lambda s: {'v': fxa(s.v, Q), 's': fx(s.s, Q), 'it': int(s.iterations)}
                ev['st'] = [f(sls.power_iterations_jit(T, b, t, 0.)) for t in range(1, 4)]
                ev['seq'] = [fx(sls.power_iterations(T, b, t, 0.).s, Q) for t in range(1, 9)] if d['top'] else []
                ev['loose'] = [dict(tol=tl, it=int(sls.power_iterations(T, b, 100, tl / 100).iterations)) for tl in (20, 5)] if d['top'] else []
                ev['fin'] = f(sls.power_iterations(T, b))
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['kind']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if e['d']['kind'] != 'svd' or e['d']['t']['s'][0] == 0:
        return None
    e['U'][0][0] += 600
    return e


def check(rep):
    rep.assumptions = ['matrices with exactly known singular systems (rational orthogonal bases), sizes 1x3 to 12x10, repeated and zero singular values included',
                       'Lanczos in single and double precision; estimators judged to about 0.1 percent']
    cases = vf.generate(rep, 'SpectrumGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Ortho', 'Triplets', 'Stretch', 'Sorted'], minimum=200, workers=8)
    vf.conform(rep, 'drivers.p16', cases, 'SpectrumTrace', 'SpectrumVerdict', key, corrupt=corrupt, size=24, shards=8,
               group=lambda d: [d['kind'], len(d['t']['A']), len(d['t']['A'][0]), d['k'], d['x64']])
