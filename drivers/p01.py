"""P01: linearity and adjointness of every built-in operator; the library's own dot test."""
from lib import vf
from drivers import lopkit, lopcommon, p04




def dottest(d):
    """run lop.dot_test_real over an operator whose adjoint is/ is not the real one"""
    import jax, jax.numpy as jnp, numpy as np
    import cr.sparse.lop as lop
    ev = {'kind': 'dottest', 'd': {'k': 'dottest', 'kind': d['kind'], 'name': d['test']}, 'exc': '', 'truth': d['truth']}
    try:
        rng = np.random.RandomState(d['seed'])
        A = rng.randint(-3, 4, size=(d['m'], d['n'])).astype(np.float32)
        Bt = A.T.copy()
        if d['kind'] == 'sign':
            Bt = -Bt
        elif d['kind'] == 'entry':
            Bt[0, 0] += 3
        elif d['kind'] == 'scale':
            Bt = 2 * Bt
        elif d['kind'] == 'perm':
            Bt = Bt[:, ::-1] + 1
        A, Bt = jnp.asarray(A), jnp.asarray(Bt)
        T = lop.Operator(times=lambda x: A @ x, trans=lambda x: Bt @ x, shape=A.shape)
        f = getattr(lop, d['test'])
        res = [bool(f(jax.random.PRNGKey(k), T)) for k in range(6)]
        ev['verdict'] = all(res) if d['truth'] else any(res)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {e}'[:200]
        ev['verdict'] = not d['truth']
    return ev


def run_case(chunk):
    return [dottest(d) if d['k'] == 'dottest' else lopkit.record(d) for d in chunk]


def check(rep):
    quick = rep.tier == 'quick'
    cases = lopcommon.gen(rep, 5 if quick else 8)
    cases += [c for c in p04.gen(rep, not quick) if c['k'] != 'mat']
    for kind, truth in (('ok', True), ('sign', False), ('entry', False), ('scale', False), ('perm', False)):
        for m, n in ((3, 3), (2, 5), (5, 2)):
            for seed in range(2 if quick else 6):
                cases.append({'k': 'dottest', 'kind': kind, 'truth': truth, 'm': m, 'n': n, 'seed': seed, 'test': 'dot_test_real'})
    rep.assumptions = ['operator sizes and parameters within the universe of LopGen/BasisGen', 'float32, tolerance 4/5040']
    lopcommon.run(rep, 'drivers.p01', cases, 'AdjVerdict')
