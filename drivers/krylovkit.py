"""Runs conjugate gradients, their preconditioned form and LSQR at every iteration limit."""
from lib.vf import fx, fxa

Q = 30000


def vec(a, ai=None):
    import numpy as np, jax.numpy as jnp
    r = np.array(a, dtype=np.float32)
    return jnp.asarray(r + 1j * np.array(ai, dtype=np.float32) if ai else r)


def emb(x):
    import numpy as np
    x = np.asarray(x)
    return fxa(x.real, Q) + fxa(x.imag, Q) if np.iscomplexobj(x) else fxa(x, Q)


_fn = {}


def fn(M):
    """one function per matrix: the preconditioned form is compiled per function"""
    k = repr(M)
    if k not in _fn:
        A = vec(M)
        _fn[k] = lambda v: A @ v
    return _fn[k]


def cg_state(s):
    return {'x': fxa(s.x, Q), 'r': fxa(s.r, Q), 'p': fxa(s.p, Q), 'gamma': fx(s.r_norm_sqr, Q), 'it': int(s.iterations)}


def pcg_state(s):
    return {'x': fxa(s.x, Q), 'r': fxa(s.r, Q), 'p': fxa(s.p, Q), 'gamma': fx(s.gamma, Q), 'it': int(s.iterations)}


def ls_state(s):
    import numpy as np
    re = lambda v: float(np.real(v))
    return {'x': emb(s.x), 'rn': fx(re(s.r_norm), Q), 'atr': fx(re(s.atr_norm), Q), 'xn': fx(re(s.x_norm), Q), 'an': fx(re(s.A_norm), Q),
            'ac': fx(re(s.A_cond), Q), 'it': int(s.iterations), 'nt': int(s.n_times), 'ntr': int(s.n_trans)}


def record(d):
    import numpy as np, zlib
    from cr.sparse import lop
    ev = {'d': d, 'exc': '', 'st': [], 'alt': [], 'dft': []}
    n = len(d['x0'])
    h = zlib.crc32(repr((d['A'], d['b'], d['x0'])).encode())
    try:
        if d['kind'] == 'cg':
            from cr.sparse.opt import cg
            A, b, x0, tol = vec(d['A']), vec(d['b']), vec(d['x0']), d['tol'] / 1e4
            ev['st'] = [cg_state(cg.solve_from_jit(A, b, x0, max_iters=t, res_norm_rtol=tol)) for t in range(n + 2)]
            if h % 4 == 0:
                ev['alt'].append(cg_state(cg.solve_from(A, b, x0, max_iters=n + 1, res_norm_rtol=tol)))
            if h % 5 == 0:      # without a limit: as many iterations as unknowns
                ev['dft'].append(cg_state(cg.solve_from_jit(A, b, x0, res_norm_rtol=tol)))
            if not any(d['x0']):
                ev['alt'].append(cg_state(cg.solve_jit(A, b, max_iters=n + 1, res_norm_rtol=tol)))
                if h % 3 == 0:
                    ev['alt'].append(cg_state(cg.solve(A, b, max_iters=n + 1, res_norm_rtol=tol)))
        elif d['kind'] == 'pcg':
            from cr.sparse.opt import pcg
            A, b, x0 = fn(d['A']), vec(d['b']), vec(d['x0'])
            kw = dict(tol=d['tol'] / 1e4, atol=d['atol'] / 1e4)
            ident = d['M'] == [[int(i == j) for j in range(n)] for i in range(n)]
            M = dict(M=fn(d['M'])) if not ident else {}
            ev['st'] = [pcg_state(pcg.solve_from_jit(A, b, x0, max_iters=t, **kw, **M)) for t in range(1, n + 3)]
            if h % 4 == 0:
                ev['alt'].append(pcg_state(pcg.solve_from(A, b, x0, max_iters=n + 2, **kw, **M)))
            if not any(d['x0']):
                ev['alt'].append(pcg_state(pcg.solve(A, b, max_iters=n + 2, **kw, **M)))
                if h % 3 == 0:
                    ev['alt'].append(pcg_state(pcg.solve_jit(A, b, max_iters=n + 2, **kw, **M)))
        else:
            from cr.sparse.sls import lsqr, lsqr_jit
            c = d['cr']
            op = lop.matrix(vec(d['A'], d['Ai']))
            b, x0 = vec(d['b'], d['bi']), vec(d['x0'], d['xi'])
            kw = {}
            if c['atol'] or c['btol']:
                kw = dict(atol=c['atol'] / 1e4, btol=c['btol'] / 1e4)
            args = (float(d['damp']), c['atol'] / 1e4 or 1e-8, c['btol'] / 1e4 or 1e-8, float(c['con']) or 1e8)
            T = min(n, len(d['b'])) + 2
            ev['st'] = [ls_state(lsqr_jit(op, b, x0, *args, t)) for t in range(1, T + 1)]
            if h % 3 == 0:
                ev['alt'].append(ls_state(lsqr(op, b, x0, *args, max_iters=T)))
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [record(d) for d in chunk]


def key(e):
    import zlib, json
    d = e.get('d', e)
    return f"{d['kind']}-{zlib.crc32(json.dumps(d, sort_keys=True).encode()):08x}"


def corrupt(e):
    if len(e['st']) < 2 or e['st'][1]['it'] == e['st'][0]['it']:
        return None
    e['st'][1]['x'][0] += 600
    return e
