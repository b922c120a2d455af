from lib import vf
from lib.vf import fx, fxa, fxc

DS, Q, WS = 1000, 10000, 5040


def cm(A):
    import numpy as np, jax.numpy as jnp
    re, im = np.array(A['re'], dtype=np.float32), np.array(A['im'], dtype=np.float32)
    return jnp.asarray(re + 1j * im if im.any() else re)


def record(d):
    import numpy as np, jax, jax.numpy as jnp
    import cr.sparse.dict as D
    ev = {'d': d, 'exc': ''}
    k = d['kind']
    ix = lambda r: {'v': fx(r[0], DS), 'i': int(r[1][0]), 'j': int(r[1][1])}
    try:
        if k == 'props':
            A = cm(d['A'])
            ev.update(gram=fxc(D.gram(A), DS), frame=fxc(D.frame(A), DS), coh=fx(D.coherence(A), DS), cohi=ix(D.coherence_with_index(A)), babel=fxa(D.babel(A), DS))
        elif k == 'mutual':
            A, B = cm(d['A']), cm(d['B'])
            ev.update(v=fx(D.mutual_coherence(A, B), DS), vi=ix(D.mutual_coherence_with_index(A, B)))
        elif k == 'match':
            ev['v'] = fx(D.matching_atoms_ratio(cm(d['A']) / 5, cm(d['B']) / 5, d['th'] / 100), Q)
        elif k == 'had':
            n = d['n']
            ev.update(H=fxa(D.hadamard(n), 1), B=fxa(D.hadamard_basis(n), Q), D=fxa(D.dirac_hadamard_basis(n), Q), T=fxa(D.dirac_hadamard_cosine_basis(n), Q))
        elif k == 'cos':
            ev.update(B=fxa(D.cosine_basis(d['n']), Q), D=fxa(D.dirac_cosine_basis(d['n']), Q))
        elif k == 'fou':
            ev['B'] = fxc(D.fourier_basis(d['n']), Q)
        elif k == 'wav':
            import math, cr.wavelets as w
            lv = d['level']
            L = len(w.to_wavelet(d['name']).rec_lo)
            top = max(0, int(math.floor(math.log2(d['n'] / (L - 1)) + 1e-9)))
            B = D.wavelet_basis(d['n'], d['name']) if lv == 99 else D.wavelet_basis(d['n'], d['name'], lv)
            ev.update(B=fxa(B, WS), level=top if lv == 99 else lv)
        elif k == 'rand':
            m, n, f, nm = d['m'], d['n'], d['f'], bool(d['norm'])
            def make(key):
                key = jax.random.PRNGKey(key)
                if f == 'gauss':
                    return D.gaussian_mtx(key, m, n, normalize_atoms=nm)
                if f == 'rade':
                    return D.rademacher_mtx(key, m, n, normalize_atoms=nm)
                if f == 'binary':
                    return D.sparse_binary_mtx(key, m, n, d['k'], normalize_atoms=nm, dense=True)
                return D.random_onb(key, n) if f == 'onb' else D.random_orthonormal_rows(key, m, n)
            ev.update(M=fxa(make(d['key']), Q), M2=fxa(make(d['key']), Q), M3=fxa(make(d['key'] + 100), Q))
            if f == 'binary':
                ev['sp'] = fxa(D.sparse_binary_mtx(jax.random.PRNGKey(d['key']), m, n, d['k'], normalize_atoms=nm).todense(), Q)
        else:
            A = D.gaussian_mtx(jax.random.PRNGKey(d['key']), d['m'], d['n'])
            F = [np.asarray(D.build_grassmannian_frame(A, iterations=t)) for t in (0, 1, 2, 8, 25)]
            G = np.asarray(A).T @ np.asarray(A)
            ev.update(F=[fxa(x, Q) for x in F], same=int(np.abs(F[0].T @ F[0] - G).max() < 1e-3), coh=[fx(D.coherence(A), Q), fx(D.coherence(jnp.asarray(F[4])), Q)],
                      mu=fx(D.minimum_coherence(d['m'], d['n']), Q))
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['kind']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if e['d']['kind'] != 'props':
        return None
    e['babel'][-1] += 300
    return e


def check(rep):
    rep.assumptions = ['unimodular real and complex dictionaries up to 4x6; structured bases up to size 16; random dictionaries on a few keys and shapes',
                       'Grassmannian frames of up to 25 iterations, more atoms than dimensions']
    cases = vf.generate(rep, 'DictGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['BabelShort', 'CoherenceIsBabel1', 'BabelGrows', 'Welch', 'HadOrtho'], minimum=150, workers=8)
    vf.conform(rep, 'drivers.p19', cases, 'DictTrace', 'DictVerdict', key, corrupt=corrupt, size=16, shards=6, group=lambda d: [d['kind'], d.get('f')])
