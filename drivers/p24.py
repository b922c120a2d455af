import contextlib, io, os, re, tempfile
from lib import vf
from lib.vf import fx, fxa

U = 16


def I(a):
    import numpy as np
    return np.asarray(a).astype(int).ravel().tolist()


def report(d, ev):
    import numpy as np, jax.numpy as jnp
    import cr.sparse as crs
    from collections import namedtuple
    import cr.sparse.lop as lop
    Phi = np.array(d['Phi'], dtype=np.float32)
    x = np.array(d['x'], dtype=np.float32) / U
    xh = x + np.array(d['e'], dtype=np.float32) / U
    y = Phi @ x + np.array(d['nz'], dtype=np.float32) / U
    # the same report up to unit factors: every other case is made complex and turned back afterwards
    turn = (sum(d['x']) + len(d['form']) + d['oper']) % 2 == 0
    ph = np.array([1, 1j, -1, -1j, 1j])[np.arange(len(x)) % 5].astype(np.complex64)
    if turn:
        Phi, x, xh, y = 1j * Phi * ph.conj(), x * ph, xh * ph, 1j * y
    Phi, x, xh, y = (a.astype(np.complex64) if turn else a for a in (Phi, x, xh, y))

    def back(v, idx=None):
        if not turn:
            return fxa(v, U)
        v = np.asarray(v) * (-1j if idx is None else ph.conj()[np.asarray(idx, int)])
        if v.size and np.abs(v.imag).max() > 1e-5:
            raise ValueError('complex parts differ')
        return fxa(v.real, U)
    A = lop.matrix(jnp.asarray(Phi)) if d['oper'] else jnp.asarray(Phi)
    kw = {}
    if d['form'] == 'x_hat':
        kw['x_hat'] = jnp.asarray(xh)
    elif d['form'] == 'sol_x':
        kw['sol'] = namedtuple('Sol', 'x iterations')(jnp.asarray(xh), 3)
    else:
        idx = np.flatnonzero(xh)[::-1].copy()
        kw['sol'] = namedtuple('Sol', 'I x_I iterations')(jnp.asarray(idx), jnp.asarray(xh[idx]), 3)
    rp = crs.RecoveryPerformance(A, jnp.asarray(y), jnp.asarray(x), **kw)
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        rp.print(details=True)
    N = lambda v: fx(v, 100 * U)
    ev.update(M=int(rp.M), N=int(rp.N), K=int(rp.K), T0=I(rp.T0), T0C=I(rp.T0C), R0=I(rp.R0), T1=I(rp.T1), TRest=I(rp.TRest), overlap=I(rp.overlap),
              correct=int(rp.num_correct_atoms), h=back(rp.h, range(len(x))), r=back(rp.r), hT0=back(rp.h_T0, rp.T0), hT0C=back(rp.h_T0C, range(len(x))), hT1=back(rp.h_T1, rp.T1), hTRest=back(rp.h_TRest, rp.TRest),
              xn=N(rp.x_norm), yn=N(rp.y_norm), xhn=N(rp.x_hat_norm), hn=N(rp.h_norm), rn=N(rp.r_norm), snr=fx(rp.recovery_snr, 100), msnr=fx(rp.measurement_snr, 100),
              xdr=fx(rp.x_dr, 100), ydr=fx(rp.y_dr, 100), xhdr=fx(rp.x_hat_dr, 100), ratio=fx(rp.support_recovery_ratio, 10000), perfect=bool(rp.perfect_support_recovery),
              success=bool(rp.success), hbr=fx(rp.h_by_r_norms, 100))


def trials(d, ev):
    import numpy as np, jax.numpy as jnp
    import cr.sparse as crs
    from collections import namedtuple
    Sol = namedtuple('Sol', 'I x_I iterations')
    log = []

    def solver_for(q):
        def solver(Phi, y, K):
            P = np.asarray(Phi, dtype=np.float64)
            yy = np.asarray(y, dtype=np.float64)
            n = 1 + sum(1 for e in log if e[0] == q and e[1] == int(K))
            # exhaustive sparse solver: the stub knows the sparsity level
            import itertools
            best = None
            for S in itertools.combinations(range(P.shape[1]), int(K)):
                A = P[:, S]
                z, *_ = np.linalg.lstsq(A, yy, rcond=None)
                e = np.linalg.norm(yy - A @ z)
                if best is None or e < best[0]:
                    best = (e, S, z)
                if e < 1e-5:
                    break
            nnz = int(K) if best[0] < 1e-3 and np.all(np.abs(best[2]) > 1e-7) else -1
            its = (7 * n + 3 * int(K)) % 11
            z = best[2].astype(np.float32)
            if n in d['bad']:
                z = 0 * z + 9
            log.append((q, int(K), P.tobytes(), yy.tobytes(), its, nnz))
            return Sol(jnp.asarray(best[1]), jnp.asarray(z), its)
        return solver

    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        ex = crs.RecoveryTrialsAtFixed_M_N(24, 32, d['ks'], d['nd'], d['ns'])
        for q in range(1, d['solvers'] + 1):
            ex.add_solver(f's{q}', solver_for(q))
        path = os.path.join(tmp, 'out.csv')
        ex(path)
        import pandas as pd
        ev['csv'] = len(pd.read_csv(path))
        df = pd.read_csv(path)
    ev['rows'] = []
    for _, r in df.iterrows():
        q = int(str(r['method'])[1:])
        mine = [e for e in log if e[0] == q and e[1] == int(r['k'])]
        ev['rows'].append({'k': int(r['k']), 'method': q, 'm': int(r['m']), 'n': int(r['n']), 'trials': int(r['trials']), 'successes': int(r['successes']),
                           'failures': int(r['failures']), 'rate': fx(r['success_rate'], 10000), 'min': int(r['min_iters']), 'max': int(r['max_iters']), 'mean': fx(r['mean_iters'], 10000),
                           'solves': len(mine), 'its': [e[4] for e in mine], 'distinct': len({(e[2], e[3]) for e in mine}), 'dicts': len({e[2] for e in mine}), 'nnz': [e[5] for e in mine]})


def track(d, ev):
    import numpy as np, jax.numpy as jnp
    import cr.sparse as crs
    from collections import namedtuple
    x0 = np.array([32, 0, -48, 16], dtype=np.float32)
    states, ev['xs'], ev['rs'] = [], [], []
    cplx = lambda v: np.array([v[0] + 1j * v[1], v[2] + 1j * v[3]])
    for j, it in enumerate(d['calls']):
        x = x0 + np.array([(3 * j) % 5, 0, j + 1, -2], dtype=np.float32)
        r = np.array([16 - j, 2 * j + 1, 5], dtype=np.float32)
        ev['xs'].append(x.astype(int).tolist())
        ev['rs'].append(r.astype(int).tolist())
        X, R = jnp.asarray(x / U), jnp.asarray(r / U)
        if d['form'] == 'z_r':      # pairs of coordinates as complex entries
            s = namedtuple('S', 'x r iterations')(cplx(x / U), jnp.asarray(np.array([r[0] + 1j * r[1], r[2]]) / U), it)
        elif d['form'] == 'x_r':
            s = namedtuple('S', 'x r iterations')(X, R, it)
        elif d['form'] == 'x_r2':
            s = namedtuple('S', 'x r_norm_sqr iterations')(X, float(R @ R), it)
        else:
            idx = np.flatnonzero(x)[::-1].copy()
            s = namedtuple('S', 'x_I I r_norm_sqr iterations')(np.asarray(x[idx] / U), idx, float(R @ R), it)
        states.append(s)
    ev['x0'] = x0.astype(int).tolist()

    def run(t):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            for j, s in enumerate(states):
                t(s, more=j < len(states) - 1)
        return b.getvalue()
    shown = lambda o: [int(m) for m in re.findall(r'^\[(\d+)\]', o, re.M)]
    conv = lambda o: [int(m) for m in re.findall(r'converged in (\d+) iterations', o)]
    t = crs.ProgressTracker(x0=cplx(x0 / U) if d['form'] == 'z_r' else x0 / U, every=d['every']) if d['snr'] else crs.ProgressTracker(every=d['every'])
    o = run(t)
    ev.update(shown=shown(o), conv=conv(o), iters=[int(i) for i in t.iterations], xn=[fx(v, 100 * U) for v in t.x_norms], rn=[fx(v, 100 * U) for v in t.r_norms],
              snrs=[fx(v, 100) for v in t.snrs])
    o = run(crs.norm_tracker)
    ev.update(nshown=shown(o), nconv=conv(o))
    o = run(crs.print_tracker)
    ev.update(pconv=conv(o), plines=len(o.splitlines()))
    ev['noop'] = len(run(crs.noop_tracker))


def solver(d, ev):
    import numpy as np, jax, jax.numpy as jnp
    import cr.sparse.lop as lop
    r = np.random.default_rng(40 + d['p'])
    A = r.normal(size=(8, 12))
    A /= np.linalg.norm(A, axis=0)
    x = np.zeros(12)
    x[[1, 5, 7]] = [1.5, -2, 1]
    A, y = jnp.asarray(A.astype(np.float32)), jnp.asarray((A @ x).astype(np.float32))
    T = lop.matrix(A)
    its, more = [], []

    def tr(state, more=False, _m=more):
        its.append(int(state.iterations))
        _m.append(bool(more))
    a = d['algo']
    if a == 'mp':
        from cr.sparse.pursuit import mp
        s = mp.solve(T, y, max_iters=d['max'], tracker=tr)
    elif a == 'mp_matrix':
        from cr.sparse.pursuit import mp
        s = mp.matrix_solve(A, y, max_iters=d['max'], tracker=tr)
    elif a == 'sp':
        from cr.sparse.pursuit import sp
        s = sp.operator_solve(T, y, 3, max_iters=d['max'], tracker=tr)
    elif a == 'cosamp':
        from cr.sparse.pursuit import cosamp
        s = cosamp.operator_solve(T, y, 3, max_iters=d['max'], tracker=tr)
    else:
        import cr.sparse.cvx.spgl1 as spg
        s = spg.solve_lasso(T, y, 2.5, options=spg.SPGL1Options(max_iters=d['max']), tracker=tr)
    n = int(s.iterations)
    jax.effects_barrier()
    ev.update(its=its, more=more, result=n)


def record(d):
    ev = {'d': d, 'exc': ''}
    try:
        {'report': report, 'trials': trials, 'track': track, 'solver': solver}[d['kind']](d, ev)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['kind']}-{d.get('algo', d.get('form', ''))}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if e['d']['kind'] != 'report':
        return None
    e['snr'] += 60
    e['h'][0] += 1
    return e


def check(rep):
    rep.assumptions = ['signals of length 5 in sixteenths, supports of every size; nonzero reference signal',
                       'experiments driven with a scripted solver on 24x32 dictionaries; trackers with scripted states and five tracked solvers']
    cases = vf.generate(rep, 'PerfGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['FinalShown', 'LogSane', 'PerfectIsSuccess'], minimum=200, workers=8)
    vf.conform(rep, 'drivers.p24', cases, 'PerfTrace', 'PerfVerdict', key, corrupt=corrupt, size=24, shards=6, group=lambda d: [d['kind'], d.get('algo')])
