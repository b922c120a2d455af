"""Builds real operators from descriptors of the specification and records what they do."""
import numpy as np
from lib.vf import fx, fxa, fxc
SC = 5040


def cvec(re, im):
    import jax.numpy as jnp
    a = np.array(re, dtype=np.float32)
    b = np.array(im, dtype=np.float32)
    return jnp.asarray(a + 1j * b) if np.any(b != 0) else jnp.asarray(a)


def build(d):
    import jax, jax.numpy as jnp
    import cr.sparse.lop as lop
    from jax.experimental.sparse import BCOO
    k = d['k']
    ax = d.get('axis', 0)
    if k == 'identity':
        return lop.identity(d['n'], d['m'], axis=ax)
    if k in ('matrix', 'real_matrix', 'sparse_real_matrix'):
        A = cvec(d['A'], d['Ai'])
        if k == 'matrix' and d.get('cplx') and not jnp.iscomplexobj(A):
            A = A + 0j
        if k == 'matrix':
            return lop.matrix(A, axis=ax)
        if k == 'real_matrix':
            return lop.real_matrix(A)
        return lop.sparse_real_matrix(BCOO.fromdense(A), axis=ax)
    if k == 'diagonal':
        return lop.diagonal(cvec(d['v'], d['vi']), axis=ax)
    if k == 'scalar_mult':
        a = d['a'] + 1j * d['ai'] if d['ai'] else float(d['a'])
        return lop.scalar_mult(a, d['n'])
    if k == 'zero':
        return lop.zero(d['n'], d['m'], axis=ax)
    if k == 'realpart':
        return lop.real(d['n'])
    if k in ('flipud', 'sum', 'symmetrize'):
        return getattr(lop, k)(d['n'])
    if k == 'pad_zeros':
        return lop.pad_zeros(d['n'], d['before'], d['after'])
    if k == 'restriction':
        return lop.restriction(d['n'], jnp.array(d['I']), axis=ax)
    if k in ('cumsum', 'diff'):
        return getattr(lop, k)(d['n'], axis=ax)
    if k in ('heaviside', 'inv_heaviside'):
        return getattr(lop, k)(d['n'], axis=ax)
    if k == 'running_average':
        return lop.running_average(d['n'], d['len'], axis=ax)
    if k == 'fir_filter':
        return lop.fir_filter(d['n'], cvec(d['h'], d['hi']), axis=ax)
    if k == 'convolve':
        return lop.convolve(d['n'], cvec(d['h'], d['hi']), offset=d['offset'], axis=ax)
    if k == 'circulant':
        return lop.circulant(d['n'], cvec(d['h'], [0] * len(d['h'])), axis=ax)
    if k == 'first_derivative':
        return lop.first_derivative(d['n'], dx=d['dxn'] / d['dxd'], kind=d['kind'])
    if k == 'second_derivative':
        return lop.second_derivative(d['n'], dx=d['dxn'] / d['dxd'])
    if k == 'tv':
        return lop.tv(d['n'], kind=d['kind'], axis=ax)
    if k == 'tv2D':
        return lop.tv2D(tuple(d['shape']), kind=d['kind'])
    if k == 'dot':
        v = np.array(d['v'], dtype=np.float32).reshape(d['vshape'])
        return lop.dot(jnp.asarray(v), adjoint=d['adj'])
    if k == 'reshape':
        return lop.reshape(tuple(d['shape']), tuple(d['out']), order=d['order'])
    if k == 'arr2vec':
        return lop.arr2vec(tuple(d['shape']))
    if k == 'fft':
        return lop.fft(d['n'], None if d['nfft'] == d['n'] else d['nfft'], axis=ax, mode=d['mode'])
    if k == 'convolveND':
        h = cvec(np.array(d['h']).reshape(d['hshape']), np.array(d['hi']).reshape(d['hshape']))
        # offsets of zero and the leading axes are the defaults
        kw = {}
        if any(d['offs']):
            kw['offset'] = tuple(d['offs'])
        if list(d['axes']) != list(range(h.ndim)):
            kw['axes'] = tuple(d['axes'])
        f = lop.convolve2D if h.ndim == 2 else lop.convolveND
        return f(tuple(d['shape']), h, **kw)
    if k in ('fourier_basis', 'dirac_fourier_basis', 'cosine_basis', 'walsh_hadamard_basis'):
        return getattr(lop, k)(d['n'])
    if k == 'dwt':
        return lop.dwt(d['n'], wavelet=d['wavelet'], level=d['level'], axis=ax, basis=d['basis'])
    if k == 'dwt2D':
        return lop.dwt2D(tuple(d['shape']), wavelet=d['wavelet'], level=d['level'],
                         axes=tuple(d['axes']) if d['axes'] else None, basis=d['basis'])
    if k == 'random':
        f = getattr(lop, d['name'])
        key = jax.random.PRNGKey(d['key'])
        if d['name'] == 'random_onb_dict':
            return f(key, d['n'], axis=ax)
        if d['name'] == 'sparse_binary_dict':
            return f(key, d['m'], d['n'], d=d['d'], dense=d['dense'], axis=ax)
        return f(key, d['m'], d['n'], axis=ax)
    raise ValueError(k)


# kinds that treat stacks of more than two dimensions along their axis
STACK3 = {'matrix', 'sparse_real_matrix', 'diagonal', 'restriction', 'running_average', 'fir_filter', 'convolve', 'circulant',
          'heaviside', 'inv_heaviside', 'cumsum', 'diff', 'tv', 'dwt', 'fft', 'zero', 'identity', 'random'}


def ivec(size, s, lo=-3, span=7):
    """small deterministic integers without structure"""
    rng = np.random.RandomState(1000 + s)
    return rng.randint(lo, lo + span, size=size)


def mat_of(f, n, in_shape, S=SC, cplx_in=False):
    """matrix whose columns are f(e_j), flattened"""
    import jax.numpy as jnp
    cols = []
    for j in range(n):
        e = np.zeros(n, dtype=np.float32)
        e[j] = 1
        e = e.reshape(in_shape)
        if cplx_in:
            e = e + 0j
        cols.append(np.asarray(f(jnp.asarray(e))).reshape(-1))
    sizes = {c.size for c in cols}
    if len(sizes) != 1:
        raise ValueError('columns of different sizes')
    return np.stack(cols, axis=1)


def stacks(ev, d, T, T2, n, m, cin, cast, more=True):
    """applies the operator to 2-D and 3-D arrays and by its column-wise helpers"""
    import jax.numpy as jnp
    ax = d.get('axis', 0)
    for tag, f, f2, size, other in (('X', T2.times, T.times_2d, n, m), ('U', T2.trans, T.trans_2d, m, n)):
        In, Out, bad = [], [], None
        def col(c):
            a = ivec(size, (10 if tag == 'X' else 20) + c)
            return a + 1j * ivec(size, 40 + c + (10 if tag == 'X' else 20)) if cin else a.astype(float)
        def go(cols, shaped, unshaped):
            nonlocal bad
            a = np.stack(cols, axis=1)
            y = unshaped(np.asarray(shaped(cast(a))))
            if y.shape != (other, len(cols)):
                bad = list(y.shape)
                return
            In.extend(cols)
            Out.extend(y[:, c] for c in range(len(cols)))
        if T.matrix_safe:
            go([col(c) for c in range(3)], lambda a: f(a if ax == 0 else a.T), lambda y: y if ax == 0 else y.T)
        if T.matrix_safe and more and d['k'] in STACK3:
            go([col(3 + c) for c in range(4)], lambda a: f(jnp.moveaxis(a.reshape(size, 2, 2), 0, ax)),
               lambda y: np.moveaxis(y, ax, 0).reshape(other, -1) if y.ndim == 3 and y.shape[ax] == other else y)
        if more and T.jit_safe and n % 3 == 0 and d.get('axis', 0) == 0:
            go([col(7 + c) for c in range(2)], lambda a: f2(a), lambda y: y)
        ev['s' + tag] = [np.real(c).astype(int).tolist() for c in In]
        ev['s' + tag + 'i'] = [np.imag(c).astype(int).tolist() for c in In]
        o = 'Y' if tag == 'X' else 'V'
        ev['s' + o + 's'] = bad or [other, len(In)]
        ev['s' + o] = [fxc(c, SC) for c in Out]


def claims(ev, d, T, T2, n, m, ins, outs):
    """what the attributes promise: linear over the scalars it accepts, traceable, column by column on stacks"""
    import jax
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    cin = bool(d.get('cin'))
    cast = (lambda a: jnp.asarray(a.astype(np.complex64))) if cin else (lambda a: jnp.asarray(np.real(a).astype(np.float32)))
    xr, xi = ivec(n, 1), (ivec(n, 2) if cin else np.zeros(n, int))
    x, u = cast((xr + 1j * xi).reshape(ins)), cast(ivec(m, 3).reshape(outs))
    ev['xr'], ev['xi'], ev['y'] = xr.tolist(), xi.tolist(), fxc(np.asarray(T.times(x)).reshape(-1), SC)
    ev['jitok'] = ev['refused'] = True
    if T.jit_safe:
        try:
            jax.make_jaxpr(T.times)(x), jax.make_jaxpr(T.trans)(u)
        except Exception:
            ev['jitok'] = False
    if not T.linear:
        for f in (lop.to_matrix, lop.to_adjoint_matrix, lop.to_complex_matrix):
            try:
                f(T)
                ev['refused'] = False
            except Exception:
                pass
    ev['stk'], ev['stkexc'] = len(ins) == 1 and len(outs) == 1 and bool(T.matrix_safe), False
    if ev['stk']:
        try:
            stacks(ev, d, T, T2, n, m, cin and bool(T.linear), cast, False)
        except Exception:
            ev['stkexc'] = True


def record(d, full=True):
    """One trace event describing the observable behaviour of the operator d."""
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    ev = {'kind': 'op', 'd': d, 'exc': ''}
    try:
        T = build(d)
        T2 = T
        if d['k'] == 'fft' and d.get('axis', 0) == 1:
            # this operator takes the axis of its input literally: vectors go through the axis=0 form
            T = build(dict(d, axis=0))
        ins, outs = tuple(T.input_shape), tuple(T.output_shape)
        n, m = int(np.prod(ins)), int(np.prod(outs))
        ev['m'], ev['n'] = m, n
        ev['isz'], ev['osz'] = int(T.input_size), int(T.output_size)
        ev['ind'], ev['ond'] = int(T.input_ndim), int(T.output_ndim)
        ev['ilen'], ev['olen'] = len(ins), len(outs)
        F = mat_of(T.times, n, ins)
        if not full:
            ev['fwd'] = fxc(F, SC)
            ev['flags'] = {'real': bool(T.real), 'linear': bool(T.linear), 'jit': bool(T.jit_safe), 'mat': bool(T.matrix_safe)}
            claims(ev, d, T, T2, n, m, ins, outs)
            return ev
        A = mat_of(T.trans, m, outs)
        ev['fwd'], ev['adj'] = fxc(F, SC), fxc(A, SC)
        ev['fm'], ev['am'] = list(F.shape), list(A.shape)
        ev['tm'] = fxc(lop.to_matrix(T), SC)
        ev['ta'] = fxc(lop.to_adjoint_matrix(T), SC)
        ev['flags'] = {'real': bool(T.real), 'linear': bool(T.linear), 'jit': bool(T.jit_safe), 'mat': bool(T.matrix_safe)}
        # linearity on integer vectors (complex when admissible)
        cin = bool(d.get('cin'))
        xr, xi = ivec(n, 1), (ivec(n, 2) if cin else np.zeros(n, int))
        ur, ui = ivec(m, 3), (ivec(m, 4) if cin else np.zeros(m, int))
        x = (xr + 1j * xi if cin else xr.astype(np.float32)).reshape(ins)
        u = (ur + 1j * ui if cin else ur.astype(np.float32)).reshape(outs)
        cast = (lambda a: jnp.asarray(a.astype(np.complex64))) if cin else (lambda a: jnp.asarray(a.astype(np.float32)))
        y = np.asarray(T.times(cast(x)))
        v = np.asarray(T.trans(cast(u)))
        ev['ysh'] = list(y.shape) == list(outs)
        ev['vsh'] = list(v.shape) == list(ins)
        ev['xr'], ev['xi'], ev['ur'], ev['ui'] = xr.tolist(), xi.tolist(), ur.tolist(), ui.tolist()
        ev['y'], ev['v'] = fxc(y.reshape(-1), SC), fxc(v.reshape(-1), SC)
        if T.jit_safe:
            J = lop.jit(T)
            ev['yj'] = fxc(np.asarray(J.times(cast(x))).reshape(-1), SC)
            ev['vj'] = fxc(np.asarray(J.trans(cast(u))).reshape(-1), SC)
        else:
            ev['yj'], ev['vj'] = ev['y'], ev['v']
        # stacked application: matrices along the axis, column-by-column helpers
        stk = len(ins) == 1 and len(outs) == 1
        ev['stk'] = stk
        if stk:
            stacks(ev, d, T, T2, n, m, cin, cast)
        ev['tc'] = fxc(lop.to_complex_matrix(T), SC) if stk and cin and T.jit_safe and n % 3 == 0 else ev['fwd']
        # column access
        col = len(ins) == 1 and len(outs) == 1
        ev['col'] = col
        if col:
            js = sorted({0, n // 2, n - 1})
            j1 = (3 * n + m) % n
            ev['cj1'] = j1 + 1
            ev['c1'] = fxc(T.column(j1), SC)
            ev['cj'] = [j + 1 for j in js]
            ev['cols'] = False
            ev['ck'] = []
            if T.matrix_safe and d.get('axis', 0) == 0:
                js2 = list(reversed(js))
                Cm = np.asarray(T.columns(jnp.array(js2)))
                ev['cols'] = True
                ev['ck'] = [fxc(Cm[:, t], SC) for t in range(Cm.shape[1])]
                ev['cj2'] = [j + 1 for j in js2]
                I = jnp.array(js)
                w = np.asarray(T.apply_columns(jnp.asarray(xr.astype(np.float32)), I))
                ev['ac'] = fxc(w, SC)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev
