from lib import vf
from lib.vf import fx, fxa, fxc

Q = 10000


def nz(X, D):
    """fixed point that keeps nonzero entries nonzero; always D rows"""
    import numpy as np
    X = np.asarray(X, dtype=np.float64).reshape(D, -1)
    F = fxa(X, Q)
    return [[(1 if X[i, j] > 0 else -1) if F[i][j] == 0 and X[i, j] != 0 else F[i][j] for j in range(X.shape[1])] for i in range(D)]


def ints(v):
    import numpy as np
    return [int(i) for i in np.asarray(v).reshape(-1)]


def record(d):
    import numpy as np, jax, jax.numpy as jnp
    import cr.sparse.data as G
    ev = {'d': d, 'exc': ''}
    k = d['kind']
    K = jax.random.PRNGKey
    try:
        if k == 'sig':
            def make(key):
                if d['f'] == 'normal':
                    return G.sparse_normal_representations(K(key), d['D'], d['K'], d['S'])
                if d['f'] == 'spikes':
                    return G.sparse_spikes(K(key), d['D'], d['K'], d['S'])
                return G.sparse_biuniform_representations(K(key), float(d['a']), float(d['b']), d['D'], d['K'], d['S'])
            X, om = make(d['key'])
            ev.update(X=nz(X, d['D']), om=ints(om), ndim=int(np.ndim(X)), X2=nz(make(d['key'])[0], d['D']), X3=nz(make(d['key'] + 100)[0], d['D']))
        elif k in ('blk', 'blkbad'):
            if k == 'blkbad':
                G.sparse_normal_blocks(K(0), d['D'], d['K'], d['B'])
                return ev
            make = lambda key: G.sparse_normal_blocks(K(key), d['D'], d['K'], d['B'], d['S'], cor=d['cor'] / 100, normalize_blocks=bool(d['norm']))
            X, bl, ix = make(d['key'])
            ev.update(X=nz(X, d['D']), blocks=ints(bl), ix=ints(ix), ndim=int(np.ndim(X)), X2=nz(make(d['key'])[0], d['D']), X3=nz(make(d['key'] + 100)[0], d['D']))
        elif k == 'idx':
            make = lambda key: [ints(r) for r in np.asarray(G.index_sets(K(key), d['N'], d['K'], d['S'], d['axis']))]
            ev.update(I=make(d['key']), I2=make(d['key']), I3=make(d['key'] + 100))
        elif k == 'orth':
            re, im = np.array(d['x']['re'], np.float32), np.array(d['x']['im'], np.float32)
            ev['P'] = fxc(G.points_orthogonal_to(K(d['key']), jnp.asarray(re + 1j * im if im.any() else re), d['S']), Q)
        elif k == 'sub':
            a = (d['N'], d['D'], d['K'])
            B = G.random_subspaces(K(d['key']), *a)
            X = G.uniform_points_on_subspaces(K(d['key'] + 1), B, d['n'])
            near = lambda U, V: len(U) == len(V) and all(np.abs(np.asarray(u) - np.asarray(v)).max() < 1e-4 for u, v in zip(U, V))
            ev.update(B=[fxa(b, Q) for b in B], X=fxa(X, Q),
                      same=int(near(B, G.random_subspaces(K(d['key']), *a)) and near([X], [G.uniform_points_on_subspaces(K(d['key'] + 1), B, d['n'])])),
                      fresh=int(not near(B, G.random_subspaces(K(d['key'] + 100), *a)) and (d['D'] == 1 or not near([X], [G.uniform_points_on_subspaces(K(d['key'] + 101), B, d['n'])]))),
                      jit=int(near(B, G.random_subspaces_jit(K(d['key']), *a)) and near([X], [G.uniform_points_on_subspaces_jit(K(d['key'] + 1), B, d['n'])])))
        elif k == 'ang':
            f, fj = (G.two_subspaces_at_angle, G.two_subspaces_at_angle_jit) if d['m'] == 2 else (G.three_subspaces_at_angle, G.three_subspaces_at_angle_jit)
            a = (d['N'], d['D'], float(d['t']))
            B = f(K(d['key']), *a)
            # the extra directions are an arbitrary basis of a complement: compare leading vectors only
            near = lambda U, V: len(U) == len(V) and all(np.abs(np.asarray(u)[:, 0] - np.asarray(v)[:, 0]).max() < 1e-3 for u, v in zip(U, V))
            ev.update(B=[fxa(b, Q) for b in B], same=int(near(B, f(K(d['key']), *a))), fresh=int(not near(B, f(K(d['key'] + 100), *a))), jit=1)
            if d['key'] == 0:
                ev['jit'] = int(near(B, fj(K(d['key']), *a)))
        else:
            f, y = d['f'], 1000 * (d['key'] + 1)
            if f in ('normal', 'biuniform', 'spikes'):
                X, om = {'normal': lambda: G.sparse_normal_representations(K(y), 8, 8, 500), 'spikes': lambda: G.sparse_spikes(K(y), 8, 8, 500),
                         'biuniform': lambda: G.sparse_biuniform_representations(K(y), 2., 4., 8, 8, 500)}[f]()
                X = np.asarray(X, np.float64)
                ev.update(mean=fx(X.mean(), 1000), var=fx((X ** 2).mean(), 1000), mag=fx(np.abs(X).mean(), 1000), lo=fx(np.abs(X).min(), 1000), hi=fx(np.abs(X).max(), 1000), pos=fx((X > 0).mean(), 1000))
            elif f == 'blocks':
                cor = 0.8 if d['key'] else -0.5
                X = np.asarray(G.sparse_normal_blocks(K(y), 8, 2, 4, 1500, cor=cor)[0], np.float64).T.reshape(-1, 4)
                ev.update(mean=fx(X.mean(), 1000), vars=[fx((X[:, i] ** 2).mean(), 1000) for i in range(4)], want=fx(cor, 1000), cors=[fx((X[:, i] * X[:, i + 1]).mean(), 1000) for i in range(3)])
            elif f == 'places':
                ev.update(n=6, seen=sorted({i for t in range(60) for i in ints(G.sparse_spikes(K(y + t), 6, 2)[1])} & {i for t in range(60) for i in ints(G.sparse_normal_representations(K(y + t), 6, 2)[1])}
                                           & {i for t in range(60) for i in ints(G.sparse_biuniform_representations(K(y + t), 1., 2., 6, 2)[1])}))
            elif f == 'blockplaces':
                ev.update(n=5, seen=sorted({i for t in range(60) for i in ints(G.sparse_normal_blocks(K(y + t), 10, 2, 2)[1])}))
            else:
                ev.update(n=6, seen=sorted(set(ints(G.index_sets(K(y), 6, 2, 80)))))
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['kind']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if e['d']['kind'] != 'sig' or e['d']['K'] < 2:
        return None
    e['om'][0] = e['om'][1]
    return e


def check(rep):
    rep.assumptions = ['a few keys per shape; moments over thousands of draws with bounds at least six standard deviations wide', 'signals of length at least two; angles 0 to 90 degrees']
    cases = vf.generate(rep, 'SynthGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'], ['Drawing', 'ThreeOK'], minimum=400, workers=8)
    vf.conform(rep, 'drivers.p20', cases, 'SynthTrace', 'SynthVerdict', key, corrupt=corrupt, size=40, shards=6, group=lambda d: [d['kind'], d.get('f'), d.get('m')])
