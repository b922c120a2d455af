"""Runs the greedy solvers on generated problems and records their states."""
import json
from lib import vf
from lib.vf import fxa

Q = 16380
_cache = {}


def problem(c):
    import numpy as np
    if c['kind'] == 'model':
        Phi = np.array(c['col'], dtype=np.float64).T / Q
        y = np.array(c['y'], dtype=np.float64) / Q
        return Phi, y
    rng = np.random.default_rng(1000 * c['seed'] + 7 * c['m'] + c['sv']['K'] + 31 * c['g'])
    m, N, K = c['m'], c['N'], max(2, c['sv']['K'])
    Phi = rng.standard_normal((m, N))
    if c['g'] == 2:
        Phi = Phi + 1j * rng.standard_normal((m, N))
    Phi = Phi / np.linalg.norm(Phi, axis=0)
    Phi = (np.round(Phi.real * Q) + (1j * np.round(Phi.imag * Q) if c['g'] == 2 else 0)) / Q
    x = np.zeros(N, dtype=Phi.dtype)
    I = rng.choice(N, K, replace=False)
    x[I] = rng.choice([-1, 1], K) * rng.uniform(1, 3, K)
    if c['g'] == 2:
        x[I] = x[I] * np.exp(1j * rng.uniform(0, 6, K))
    e = rng.standard_normal(m) * 0.15
    if c['g'] == 2:
        e = e + 1j * rng.standard_normal(m) * 0.15
    y = Phi @ x + e
    y = np.round(y.real * Q) / Q + (1j * np.round(y.imag * Q) / Q if c['g'] == 2 else 0)
    return Phi, y


def embed(v, g):
    import numpy as np
    v = np.asarray(v)
    return fxa(v.real, Q) + (fxa(v.imag, Q) if g == 2 else [])


def mods():
    from cr.sparse._src.pursuit import mp, omp, sp, cosamp, iht, htp
    return dict(mp=mp, omp=omp, sp=sp, cosamp=cosamp, iht=iht, htp=htp)


def call(sv, form, Phi, y, mi, rtol):
    """one solver call; jitted with the iteration limit as an argument when the code allows it"""
    import jax, jax.numpy as jnp, cr.sparse.lop as lop
    m = mods()[sv['name']]
    nm, K = sv['name'], sv['K']
    P, yy = jnp.asarray(Phi), jnp.asarray(y)
    if nm == 'omp' and form == 'op':
        key = ('ompop', str(Phi.dtype), Phi.tobytes())
        T = _cache.setdefault(key, lop.matrix(P))
        return m.operator_solve(T, yy, mi, res_norm_rtol=rtol)
    if nm == 'omp':
        return m.matrix_solve_jit(P, yy, mi)
    kw = {}
    if nm in ('iht', 'htp'):
        kw = dict(normalized=sv['nrm'])

    def f(P, y, mi, rt, mu):
        k2 = dict(kw)
        if nm in ('iht', 'htp') and not sv['nrm']:
            k2['step_size'] = mu
        if form == 'mat':
            return m.matrix_solve(P, y, max_iters=mi, res_norm_rtol=rt) if nm == 'mp' else m.matrix_solve(P, y, K, max_iters=mi, res_norm_rtol=rt, **k2)
        T = lop.matrix(P)
        return m.solve(T, y, max_iters=mi, res_norm_rtol=rt) if nm == 'mp' else m.operator_solve(T, y, K, max_iters=mi, res_norm_rtol=rt, **k2)
    mu = sv['mu'] / Q
    key = (nm, form, K, sv['nrm'], Phi.shape, str(Phi.dtype))
    if _cache.get(key) != 'eager':
        g = _cache.get(key)
        if g is None:
            g = jax.jit(f)
            _cache[key] = g
        try:
            return g(P, yy, mi, rtol, mu)
        except jax.errors.JAXTypeError:
            _cache[key] = 'eager'
    return f(P, yy, mi, rtol, mu)


def state(sol, k, g, N, name):
    import numpy as np
    I = np.asarray(sol.I).ravel()
    xI = np.asarray(sol.x_I).ravel()
    x = np.zeros(N, dtype=complex if g == 2 else float)
    for i, v in zip(I, xI):
        if 0 <= i < N:
            x[i] = v
    xs = np.asarray(sol.x)
    return {'k': k, 'x': embed(x, g), 'xs': embed(xs, g), 'I': [int(i) + 1 for i in I], 'r': embed(sol.r, g),
            'nz': [int(v != 0) for v in xs], 'rn': vf.fx(np.real(np.asarray(sol.r_norm_sqr)), Q), 'it': int(sol.iterations)}


def forms(c):
    return ['op'] if c.get('g', 1) == 2 else ['mat', 'op']


def record(c, form, rt=1, ends=False):
    import numpy as np
    g = c.get('g', 1)
    Phi, y = problem(c)
    N = Phi.shape[1]
    cols = [embed(Phi[:, j], g) for j in range(N)]
    if g == 2:
        cols += [embed(1j * Phi[:, j], g) for j in range(N)]
    P = {'m': len(y) * g, 'N': N, 'g': g, 'col': cols, 'y': embed(y, g)}
    its = c.get('its')
    sv = dict(c['sv'], form=form)
    if its is None:
        its = {'mp': 6, 'omp': 4}.get(sv['name'], 3 * sv['K'] + 3)
    elif c['more']:
        its += 1
    ev = {'kind': 'run', 'sv': sv, 'P': P, 'rt': rt, 'its': [], 'dflt': [], 'exc': ''}
    Phi = Phi.astype(np.complex64 if g == 2 else np.float32)
    y = y.astype(Phi.dtype)
    try:
        for k in (sorted({1, its}) if ends else range(1, its + 1)):
            ev['its'].append(state(call(sv, form, Phi, y, k, rt / 1000), k, g, N, sv['name']))
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def default_call(sv, form, Phi, y):
    """the solver with its default iteration limit and tolerance"""
    import jax, jax.numpy as jnp, cr.sparse.lop as lop
    nm, K = sv['name'], sv['K']
    m = mods()[nm]
    kw = dict(normalized=True) if sv['nrm'] else {}
    P, yy = jnp.asarray(Phi), jnp.asarray(y)
    if nm == 'omp':
        return m.solve(P, yy, K) if form == 'mat' else m.operator_solve(lop.matrix(P), yy, K)
    if form == 'mat':
        f = (lambda P, y: m.matrix_solve(P, y)) if nm == 'mp' else (lambda P, y: m.matrix_solve(P, y, K, **kw))
    else:
        f = (lambda P, y: m.solve(lop.matrix(P), y)) if nm == 'mp' else (lambda P, y: m.operator_solve(lop.matrix(P), y, K, **kw))
    key = ('d', nm, form, K, sv['nrm'], Phi.shape, str(Phi.dtype))
    if key not in _cache:
        _cache[key] = jax.jit(f)
    try:
        return _cache[key](P, yy)
    except jax.errors.JAXTypeError:
        return f(P, yy)


def run_self(chunk):
    """self-consistency: final states, default calls, agreement of the two forms"""
    import numpy as np
    out = []
    for i, c in enumerate(sorted(chunk, key=lambda c: json.dumps([c['sv'], c['m']]))):
        runs = {}
        for f in forms(c):
            if c['sv']['name'] == 'omp' and f == 'op' and i % 3:
                continue
            e = record(c, f, 1, ends=True)
            sv = e['sv']
            g = e['P']['g']
            Phi, y = problem(c)
            Phi = Phi.astype(np.complex64 if g == 2 else np.float32)
            y = y.astype(Phi.dtype)
            dl = 100 if sv['name'] == 'mp' else sv['K'] if sv['name'] == 'omp' else len(y)
            if not (sv['name'] == 'omp' and c['kind'] == 'model' and c['its'] < sv['K']):
                try:
                    s = default_call(sv, f, Phi, y)
                    # with its default step IHT/HTP may be at any point: only self-consistency is judged
                    e['dflt'] = [state(s, dl, g, Phi.shape[1], sv['name'])]
                except Exception as x:
                    e['exc'] = e['exc'] or f'{type(x).__name__}: {str(x)[:200]}'
            out.append(e)
            runs[f] = e
        if len(runs) == 2 and c['kind'] == 'model' and not c['tie'] and not runs['mat']['exc'] and not runs['op']['exc']:
            a, b = runs['mat']['its'][-1], runs['op']['its'][-1]
            if not (c['sv']['name'] in ('sp', 'cosamp', 'omp') and a['it'] != b['it']):     # only the operator form stops on support
                out.append({'kind': 'pair', 'sv': dict(c['sv'], form='pair'), 'P': runs['mat']['P'], 'xa': a['x'], 'xb': b['x'], 'ita': a['it'], 'itb': b['it'], 'exc': ''})
        if c['sv']['name'] == 'omp' and c['kind'] == 'model' and not c['tie'] and 'mat' in runs and not runs['mat']['exc']:
            e = {'kind': 'pair', 'sv': dict(c['sv'], form='multi'), 'P': runs['mat']['P'], 'exc': '', 'ita': 1, 'itb': 1}
            try:
                from cr.sparse._src.pursuit import omp
                import jax.numpy as jnp
                Phi, y = problem(c)
                k = runs['mat']['its'][-1]['k']
                s = omp.matrix_solve_multi(jnp.asarray(Phi), jnp.stack([jnp.asarray(y), -2 * jnp.asarray(y)], axis=1), k)
                x = np.zeros(Phi.shape[1])
                x[np.asarray(s.I)[1]] = np.asarray(s.x_I)[1] / -2
                e['xa'], e['xb'] = runs['mat']['its'][-1]['x'], embed(x, 1)
            except Exception as x:
                e['exc'] = f'{type(x).__name__}: {str(x)[:200]}'
            out.append(e)
    return out


def key(e):
    if 'P' in e:
        return f"{e['sv']['name']}-{e['sv']['form']}-K{e['sv']['K']}-{e['P']['m']}x{e['P']['N']}g{e['P']['g']}{'n' if e['sv']['nrm'] else ''}"
    return f"{e['sv']['name']}-K{e['sv']['K']}-{e['m']}x{e['N']}"


def gen(rep, names, deep=False):
    nm = ','.join(f'"{n}"' for n in names)
    return vf.generate(rep, 'PursuitGen', [f'Names={{{nm}}}', 'NDict=%d' % (24 if deep else 8), 'NY=%d' % (12 if deep else 3),
                                           'NSeed=%d' % (30 if deep else 4), f'MaxIt={8 if deep else 6}', 'Emit=TRUE'],
                       ['Consistent', 'Sparse', 'Distinct', 'NoGrowth', 'Ortho', 'Refines'], minimum=40, workers=8)


def corrupt(e):
    if e.get('kind') != 'run' or len(e['its']) < 2:
        return None
    for t in e['its']:
        t['x'] = [v + 300 if v else v for v in t['x']]
    return e


def group(c):
    return [c['kind'], c['sv'], c['m'], c['N'], c.get('g', 1)]


def self_check(rep):
    rep.assumptions = ['unit-norm dictionaries of PursuitGen and seeded random ones; nonzero measurements; OMP not continued past a zero residual']
    cases = gen(rep, ['mp', 'omp', 'sp', 'cosamp', 'iht', 'htp'], rep.tier != 'quick')
    vf.conform(rep, 'drivers.p09', cases, 'PursuitTrace', 'SelfVerdict', key, corrupt=corrupt, size=60, shards=8, group=group)


def rule_check(rep, pid, names):
    rep.assumptions = ['unit-norm rational dictionaries of PursuitGen and seeded random ones up to 14x20 (complex for OMP, SP, CoSaMP operators)',
                       'float32 results projected to 1/16380; selections closer than the tolerance are accepted either way']
    cases = gen(rep, names, rep.tier != 'quick')
    vf.conform(rep, f'drivers.{pid}', cases, 'PursuitTrace', 'RuleVerdict', key, corrupt=corrupt, size=24, shards=8, group=group)


def run_rules(chunk):
    out = []
    for i, c in enumerate(sorted(chunk, key=lambda c: json.dumps([c['sv'], c['m']]))):
        for f in forms(c):
            for rt in ((1, 300) if c['kind'] == 'model' else (1, 120)):
                if c['sv']['name'] == 'omp' and f == 'mat' and rt != 1:
                    continue
                if c['sv']['name'] == 'omp' and f == 'op' and rt != 1 and i % 3:
                    continue
                out.append(record(c, f, rt))
    return out
