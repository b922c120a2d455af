from lib import vf
from lib.vf import fx, fxa, fxc

PS = 1000
NAMES = {'heavisine': 'heavi-sine:fourier:heavi-side', 'haar': 'blocks:haar', 'cosspikes': 'cosine-spikes:dirac-dct', 'sinspikes': 'complex:sinusoid-spikes:dirac-fourier',
         'cosgauss': 'cosine-spikes:dirac-dct:gaussian', 'poly': 'piecewise-cubic-poly:daubechies:gaussian', 'spikes': 'signed-spikes:dirac:gaussian',
         'cspikes': 'complex:signed-spikes:dirac:gaussian', 'heaviblocks': 'blocks:heavi-side', 'nheaviblocks': 'blocks:normalized-heavi-side',
         'gspikes': 'gaussian-spikes:dirac:gaussian', 'mix': 'src-sep-1'}


class Ax:
    """stands in for a plot: every drawn pair has to have equal lengths"""
    def __init__(self):
        self.title, self.drawn = None, 0

    def set_title(self, t):
        self.title = t

    def draw(self, *a, **k):
        import numpy as np
        a = [np.asarray(v) for v in a if not isinstance(v, str)]
        if len(a) == 2:
            assert a[0].shape == a[1].shape, 'figure axes differ'
        assert not np.iscomplexobj(a[-1]), 'complex figure'
        self.drawn += 1
    plot = stem = draw


def figures(p):
    for i, t in enumerate(p.figures):
        ax = Ax()
        p.plot(i, ax)
        if ax.title != t or ax.drawn < 1:
            return 0
    return 1


def args(d):
    n = d['name']
    if n in ('heavisine', 'haar', 'heaviblocks', 'nheaviblocks'):
        return dict(n=d['n'])
    if n in ('cosspikes', 'sinspikes'):
        return dict(n=d['n'], c=d['c'], k=d['k'])
    if n == 'cosgauss':
        return dict(n=d['n'], m=d['m'], c=d['c'], k=d['k'])
    if n == 'poly':
        return dict(n=d['n'], m=d['m'], p=d['p'], level=d['level'])
    return dict(n=d['n'], m=d['m'], k=d['k'], scale=d['scale'] / 1000)


def nzc(v):
    """complex fixed point that keeps nonzero entries nonzero (single precision noise is zero)"""
    import numpy as np
    v = np.asarray(v, np.complex128).reshape(-1)
    v = np.where(np.abs(v) < 2e-6, 0, v)
    f = fxc(v, PS)
    for i, z in enumerate(v):
        if z != 0 and f['re'][i] == 0 and f['im'][i] == 0:
            f['re'][i] = 1
    return f


def record(d):
    import numpy as np, jax, jax.numpy as jnp, io, contextlib, re, types
    from cr.sparse import problems as P
    ev = {'d': d, 'exc': ''}
    try:
        name = NAMES[d['name']]
        if d['name'] == 'mix':
            return mixture(ev, d, name)
        make = lambda: P.generate(name, jax.random.PRNGKey(d['key']), **args(d))
        p, q = make(), make()
        vec = lambda v: fxc(np.asarray(v, np.complex128).reshape(-1), PS)
        r = jnp.asarray(np.cos(np.arange(p.b.shape[0]) * 1.7 + 1), jnp.float32)
        Psix = p.Psi.times(p.x)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            P.analyze_solution(p, types.SimpleNamespace(x=p.x, iterations=1))
        m = re.search(r'ratio:\s*([0-9.]+)', out.getvalue())
        ev.update(Phi=list(p.Phi.shape), Psi=list(p.Psi.shape), A=list(p.A.shape), hasy=int(p.y is not None), x=nzc(p.x), b=vec(p.b), Ax=vec(p.A.times(p.x)),
                  PhiPsix=vec(p.Phi.times(Psix)), Psix=vec(Psix), rec=vec(p.reconstruct(p.x)), y=vec(p.y if p.y is not None else [0]),
                  Phiy=vec(p.Phi.times(p.y) if p.y is not None else [0]), At=vec(p.A.trans(r)), PsitPhit=vec(p.Psi.trans(p.Phi.trans(r))),
                  name=int(p.name == name and name in P.names()), pure=int(bool(jnp.all(p.x == q.x)) and bool(jnp.all(p.b == q.b))), figs=figures(p),
                  ratio=int(round(1000 * float(m.group(1)))))
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def mixture(ev, d, name):
    """the audio files are replaced by small integer recordings in a scratch cache"""
    import numpy as np, jax, jax.numpy as jnp, pathlib, tempfile, shutil
    from scipy.io import wavfile
    import cr.nimble._src.io.resource as R
    from cr.sparse import problems as P
    n, y = d['n'], d['key']
    tmp = tempfile.mkdtemp()
    old = R.CACHE_DIR
    try:
        R.CACHE_DIR = pathlib.Path(tmp)
        rng = np.random.RandomState(y)
        g = rng.randint(-90, 90, size=6 * n).astype(np.int16)
        pi = rng.randint(-90, 90, size=(5 * 4000, 2)).astype(np.int16)
        wavfile.write(tmp + '/sparco_prob401_Guitar.wav', 48000, g)
        wavfile.write(tmp + '/sparco_prob401_Piano.wav', 44100, pi)
        M = [[1375, 7250], [9905, 6888]] if y == 0 else [[10000, 20000], [-30000, 5000]] if y == 1 else [[0, 10000], [10000, 0]]
        p = P.generate(name) if y == 0 else P.generate(name, mixing=jnp.array(M, jnp.float32) / 10000)
        rows = list(range(0, n, 53)) + [n - 1]
        zr = np.asarray(p.Psi.trans(p.y)).shape[0]
        z = jnp.asarray(np.cos(np.arange(2 * zr) * 1.3).reshape(zr, 2), jnp.float32)
        src = np.stack([g[::6], np.ravel(pi[::5, :])[5000:5000 + n]], 1)
        pick = lambda v, s=PS: fxa(np.asarray(v)[::53], s)
        ev.update(by=[list(p.b.shape), list(p.y.shape)], mixing=M, bs=fxa(np.asarray(p.b)[rows], 10000), ys=fxa(np.asarray(p.y)[rows], 1), src=fxa(src[rows], 1),
                  Az=pick(p.A.times(z)), PhiPsiz=pick(p.Phi.times(p.Psi.times(z))), Psiz=pick(p.Psi.times(z)), rec=pick(p.reconstruct(z)), At=pick(p.A.trans(p.b / 100)),
                  PsitPhit=pick(p.Psi.trans(p.Phi.trans(p.b / 100))), name=int(p.name == name), figs=figures(p))
    finally:
        R.CACHE_DIR = old
        shutil.rmtree(tmp, ignore_errors=True)
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['name']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if 'Ax' not in e:
        return None
    e['Ax']['re'][0] += 500
    return e


def check(rep):
    rep.assumptions = ['small admissible sizes and a few keys of every named problem; the source separation problem runs on small recordings placed in a scratch cache instead of the downloaded audio']
    cases = vf.generate(rep, 'ProbGen', ['Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Compatible', 'SparseFits', 'BlocksSparse', 'BlocksEnds'], minimum=150, workers=8)
    vf.conform(rep, 'drivers.p27', cases, 'ProbTrace', 'ProbVerdict', key, corrupt=corrupt, size=20, shards=6, group=lambda d: [d['name'], d['n']])
