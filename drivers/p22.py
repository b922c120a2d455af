from lib import vf
from lib.vf import fx, fxa

Q = 10000


def L(a):
    import numpy as np
    return np.asarray(a).astype(int).tolist()


def rep3(t):
    Z, I, R = t
    return {'Z': fxa(Z, Q), 'I': L(I), 'R': fxa(R, Q)}


def record(d):
    import numpy as np, jax.numpy as jnp
    import cr.sparse.cluster.ssc as ssc
    ev = {'d': d, 'exc': ''}
    k = d['kind']
    try:
        if 'pts' in d:
            X = jnp.asarray(np.array(d['pts'], dtype=np.float32).T)
        if k == 'rep':
            ev['plain'] = [rep3(ssc.build_representation_omp(X, q)) for q in range(1, d['K'] + 1)]
            ev['jit'] = [rep3(ssc.build_representation_omp_jit(X, q)) for q in range(1, d['K'] + 1)]
            f = ssc.batch_build_representation_omp if d['bs'] == 2 else ssc.batch_build_representation_omp_jit
            ev['batch'] = [rep3(f(X, q, d['bs'])) for q in range(1, d['K'] + 1)]
        elif k in ('angles', 'neigh'):
            A = ssc.angles_between_points(X)
            S = ssc.sorted_neighbors(A)
            ev['ang'] = fxa(A, 100)
            ev['cos'] = fxa(np.cos(np.deg2rad(np.asarray(A, dtype=np.float64))), Q)
            ev['sorted'] = L(S)
            if k == 'neigh':
                sz = jnp.asarray(d['sz'])
                lab = jnp.asarray(np.repeat(np.arange(len(d['sz'])), d['sz']))
                ev['inmin'] = fxa(ssc.min_angles_inside_cluster(A, sz), 100)
                ev['outmin'] = fxa(ssc.min_angles_outside_cluster(A, sz), 100)
                ev['inn'] = L(ssc.nearest_neighbors_inside_cluster(A, sz))
                ev['onn'] = L(ssc.nearest_neighbors_outside_cluster(A, sz))
                ev['pos'] = L(ssc.inn_positions(lab, lab[S]))
        elif k in ('form', 'small'):
            u = 10 if k == 'form' else Q
            Z = jnp.asarray(np.array(d['Z'], dtype=np.float32) / u)
            I = jnp.asarray(np.array(d['I']))
            lab = jnp.asarray(d['lab'])
            D = ssc.sparse_to_full_rep(Z, I)
            B = ssc.sparse_to_bcoo(Z, I)
            Z2, I2 = ssc.bcoo_to_sparse(B, 2)
            Z3, I3 = ssc.bcoo_to_sparse_jit(B, 2)
            a2 = ssc.rep_to_affinity(B)
            ev.update(dense=fxa(D, u), sparse=fxa(B.todense(), u), Z2=fxa(Z2, u), I2=L(I2), Z3=fxa(Z3, u), I3=L(I3),
                      aff=fxa(ssc.rep_to_affinity(D), u), spaff=fxa(a2.todense() if hasattr(a2, 'todense') else a2, u))
            ev['stats'] = []
            for s in (ssc.subspace_preservation_stats(D, lab), ssc.subspace_preservation_stats_jit(D, lab),
                      ssc.sparse_subspace_preservation_stats(Z, I, lab), ssc.sparse_subspace_preservation_stats_jit(Z, I, lab)):
                ev['stats'].append({'flags': [bool(b) for b in s.spr_flags], 'errs': fxa(s.spr_errors, Q), 'err': fx(s.spr_error, Q), 'flag': bool(s.spr_flag), 'perc': fx(s.spr_perc, Q)})
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['kind']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if e['d']['kind'] != 'form':
        return None
    e['aff'][0][1] += 1
    return e


def check(rep):
    rep.assumptions = ['3-dimensional integer points of integer length, 3 to 7 of them, sparsity 1 or 2',
                       'coefficients may be relative to the points or to their normalised versions (the plain and batched forms differ in that), but to the same at every sparsity level; ties in selection accepted either way']
    cases = vf.generate(rep, 'SscGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['IntegerLengths', 'Order', 'SelfNearest', 'Valid', 'Clear'], minimum=150, workers=8)
    vf.conform(rep, 'drivers.p22', cases, 'SscTrace', 'SscVerdict', key, corrupt=corrupt, size=30, shards=6,
               group=lambda d: [d['kind'], len(d.get('pts', [])), d.get('K'), d.get('bs')])
