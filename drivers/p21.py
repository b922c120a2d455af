from lib import vf
from lib.vf import fxa, fx

KS = 840
LIMITS = 9


def state(s):
    import numpy as np
    return {'cen': fxa(s.centroids, KS), 'lab': np.asarray(s.assignment).astype(int).tolist(), 'dist': fx(s.distortion, 10 * KS),
            'prev': fx(getattr(s, 'prev_distortion', 0), 10 * KS), 'it': int(s.iterations)}


def record(d):
    import numpy as np, jax, jax.numpy as jnp
    import cr.sparse.cluster as cl
    import cr.sparse.cluster.vq as vq
    ev = {'d': d, 'exc': ''}
    k = d['kind']
    L = lambda a: np.asarray(a).astype(int).tolist()
    try:
        if k in ('lloyd', 'restart', 'assign', 'centre'):
            P = jnp.asarray(np.array(d['pts'], dtype=np.float32).reshape(d['n'], d['d']))
            key = jax.random.PRNGKey(d['seed'])
        if k == 'lloyd':
            th = d['th'] / 100 if d['th'] else 1e-5
            ev['st'] = [state(vq.kmeans_with_seed_jit(key, P, d['k'], th, t)) for t in range(LIMITS)]
            ev['plain'] = ev['st'][-1] if d['seed'] > 2 else state(vq.kmeans_with_seed(key, P, d['k'], thresh=th, max_iters=LIMITS - 1))
        elif k == 'restart':
            th, lim = ((1e-5, 100), (1e-5, 1), (1e-5, 2), (0.3, 100))[(d['seed'] + d['k']) % 4]
            sol = vq.kmeans(key, P, d['k'], iter=6, thresh=th, max_iters=lim) if d['seed'] % 2 else vq.kmeans_jit(key, P, d['k'], 6, th, lim)
            ev['sol'] = state(sol)
            ev['again'] = state(vq.kmeans_with_seed_jit(sol.key, P, d['k'], th, lim))
            ev['runs'] = [state(vq.kmeans_with_seed_jit(q, P, d['k'], th, lim)) for q in jax.random.split(key, 6)]
        elif k == 'assign':
            r = np.random.default_rng(d['seed'])
            cen = r.integers(-4, 5, size=(d['k'], d['d'])) * (0.5 if d['seed'] % 2 else 1)
            if d['seed'] % 3 == 0:
                cen[2] = cen[0]
            ev['cen'] = fxa(cen, KS)
            cen = jnp.asarray(cen.astype(np.float32))
            f = vq.find_assignment_jit if d['seed'] % 2 else vq.find_assignment
            g = vq.find_nearest_jit if d['seed'] % 2 else vq.find_nearest
            lab, dist = f(P, cen)
            ev['lab'], ev['dist'] = L(lab), fxa(dist, 10 * KS)
            ev['one'] = [int(g(p, cen)) for p in P]
        elif k == 'centre':
            lab = jnp.asarray(d['lab'])
            f = vq.find_new_centroids_jit if sum(d['lab']) % 2 else vq.find_new_centroids
            ev['cen'] = fxa(f(lab, P, d['k']), KS)
            ev['counts'] = L(np.asarray(vq.assignment_counts(lab, d['k'])).ravel())
        elif k == 'match':
            t, p = jnp.asarray(d['tl']), jnp.asarray(d['pl'])
            ev['res'] = []
            es = [(cl.clustering_error(t, p), cl.best_map(t, p)[0])]
            if d['k']:
                es.append((cl.clustering_error_k(t, p, d['k']), cl.best_map_k(t, p, d['k'])[0]))
            for e, ml in es:
                ev['res'].append({'ml': L(ml), 'missed': int(e.num_missed), 'err': fx(e.error, 10000), 'perc': fx(e.error_perc, 100)})
                ev['res'].append({'ml': L(e.mapped_labels), 'missed': int(e.num_missed), 'err': fx(e.error, 10000), 'perc': fx(e.error_perc, 100)})
        elif k == 'sizes':
            z = jnp.asarray(d['sz'])
            lab = cl.labels_from_sizes(z)
            st, en = cl.start_end_indices(z)
            ev.update(lab=L(lab), sz=L(cl.sizes_from_labels(lab, len(d['sz']))), szj=L(cl.sizes_from_labels_jit(lab, len(d['sz']))), st=L(st), en=L(en))
        elif k == 'graph':
            import cr.sparse.cluster.spectral as sp
            from jax.experimental.sparse import BCOO
            W = jnp.asarray(np.array(d['W'], dtype=np.float32))
            key = jax.random.PRNGKey(d['seed'])
            a = sp.unnormalized_k(key, W, d['k'])
            b = sp.normalized_random_walk_k(key, W, d['k'])
            sols = [a, b]
            if d['auto']:
                sols += [sp.unnormalized(key, W), sp.normalized_random_walk(key, W)]
            ev['lap'] = fxa(a.laplancian, 10000)
            ev['rw'] = fxa(sp.normalized_random_walk_laplacian(W), 10000)
            ev['sym'] = fxa(sp.normalized_symmetric_w(W), 10000)
            ev['spsym'] = fxa(sp.normalized_symmetric_sparse_w(BCOO.fromdense(W)).todense(), 10000)
            ev['parts'] = [L(s.assignment) for s in sols]
            ev['ks'] = [int(s.num_clusters) for s in sols]
        elif k == 'fast':
            import cr.sparse.cluster.spectral as sp
            from jax.experimental.sparse import BCOO
            W = jnp.asarray(np.array(d['W'], dtype=np.float32))
            key = jax.random.PRNGKey(d['seed'])
            sols = [sp.normalized_symmetric_fast_k(key, W, d['k']), sp.normalized_symmetric_sparse_fast_k(key, BCOO.fromdense(W), d['k'])]
            if d['st'] == 1:
                sols += [sp.normalized_symmetric_fast_k_jit(key, W, d['k']), sp.normalized_symmetric_sparse_fast_k_jit(key, BCOO.fromdense(W), d['k'])]
            ev['parts'] = [L(s.assignment) for s in sols]
            ev['ks'] = [int(s.num_clusters) for s in sols]
            ev['sv'] = [fxa(s.singular_values, 10000) for s in sols]
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['kind']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if e['d']['kind'] != 'lloyd':
        return None
    e['st'][-1]['dist'] += 200
    return e


def check(rep):
    rep.assumptions = ['small integer clouds (at most 8 points), every label vector of length 4, sampled longer ones',
                       'the reported distortion is the mean distance; monotone descent is of the squared distance, which Lloyd minimises']
    cases = vf.generate(rep, 'ClusterGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Nearest', 'Matching', 'SizesInverse', 'LapNull'], minimum=300, properties=['Descends'], workers=8)
    vf.conform(rep, 'drivers.p21', cases, 'ClusterTrace', 'ClusterVerdict', key, corrupt=corrupt, size=60, shards=6,
               group=lambda d: [d['kind'], d.get('n'), d.get('d'), d.get('th'), len(d.get('lab', []))])
