import json
from lib import vf
from lib.vf import fxa, fx
CS = 10080


def half(v):
    return [a / 2 for a in v]


def arr(v):
    """half-unit list -> python list, integers when exact (the code promotes)"""
    return [a // 2 if a % 2 == 0 else a / 2 for a in v]


def build_set(d):
    import numpy as np, jax.numpy as jnp, cr.sparse.opt as opt
    k, q = d['k'], d['q'] / 2
    b = None if d['b'] == [] else np.array(half(d['b']), dtype=np.float32)
    A = None if d['A'] == [] else np.array(d['A'], dtype=np.float32)
    l = None if d['l'] == [] else (half(d['l'])[0] if len(d['l']) == 1 else np.array(half(d['l']), dtype=np.float32))
    u = None if d['u'] == [] else (half(d['u'])[0] if len(d['u']) == 1 else np.array(half(d['u']), dtype=np.float32))
    kw = {} if b is None else {'b': b}
    if k == 'zero':
        return opt.proj_zero(), opt.indicator_zero()
    if k == 'identity':
        return opt.proj_identity(), None
    if k == 'singleton':
        c = b[0] if len(b) == 1 else b
        return opt.proj_singleton(c), opt.indicator_singleton(c)
    if k == 'box':
        return opt.proj_box(l, u), opt.indicator_box(l, u)
    if k == 'l1':
        return opt.proj_l1_ball(q, **kw), opt.indicator_l1_ball(q, **kw)
    if k == 'l2':
        return opt.proj_l2_ball(q, **kw), opt.indicator_l2_ball(q, **kw)
    if k == 'linf':
        return (lambda x: opt.project_to_box(jnp.asarray(x, dtype=float), q)), None
    if k == 'ball':
        return (lambda x: opt.project_to_ball(jnp.asarray(x, dtype=float), q)), None
    if k == 'upper':
        return (lambda x: opt.project_to_real_upper_limit(jnp.asarray(x, dtype=float), q)), None
    if k == 'conic':
        return opt.proj_conic(), opt.indicator_conic()
    if k == 'affine':
        return opt.proj_affine(A, b), opt.indicator_affine(A, b)
    if k == 'boxaff':
        return None, opt.indicator_box_affine(l, u, A[0], alpha=q)
    if k == 'l1A':
        return None, opt.indicator_l1_ball(q, b=b, A=A)
    if k == 'l2A':
        return None, opt.indicator_l2_ball(q, b=b, A=A)
    raise KeyError(k)


def rec_proj(c):
    import numpy as np, jax.numpy as jnp
    d = c['d']
    ev = {'d': d, 'pts': [], 'exc': ''}
    try:
        P, I = build_set(d)
        for i, x in enumerate(c['pts']):
            v = jnp.asarray(arr(x)) if i % 5 == 0 else jnp.asarray(np.array(half(x), dtype=np.float32))
            t = {'x': x, 'has': P is not None, 'p': [], 'pp': [], 'ind': -1}
            if P is not None:
                p = P(v)
                t['p'] = fxa(p, CS)
                t['pp'] = fxa(P(p), CS)
            if I is not None:
                r = float(I(v))
                t['ind'] = 0 if r == 0 else 1 if r == float('inf') else 2
            ev['pts'].append(t)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def build_fun(d):
    import numpy as np, cr.sparse.opt as opt
    w = d['w'] and (d['w'][0] / 2 if len(d['w']) == 1 and d['f'] != 'owl1' else np.array(half(d['w']), dtype=np.float32))
    f = d['f']
    if f == 'zero':
        return opt.prox_zero()
    if f == 'l1':
        return opt.prox_l1(w)
    if f == 'l2':
        return opt.prox_l2(w)
    if f == 'l1_pos':
        return opt.prox_l1_pos(w)
    if f == 'owl1':
        return opt.prox_owl1(w if len(w) > 1 or d['n'] == 1 else float(w[0]))
    if f == 'set':
        s = d['s']
        if s['k'] == 'l1':
            return opt.prox_l1_ball(s['q'] / 2)
        P, I = build_set(s)
        return opt.build_from_ind_proj(I, P)


def rec_prox(c):
    import numpy as np, jax.numpy as jnp
    d = c['d']
    ev = {'d': d, 'pts': [], 'exc': ''}
    try:
        F = build_fun(d)
        for i, x in enumerate(c['pts']):
            th = 1 + i % 3
            v = jnp.asarray(np.array(half(x), dtype=np.float32))
            z = F.prox_op(v, th / 2)
            zz, val = F.prox_vec_val(v, th / 2)
            ev['pts'].append({'x': x, 'th': th, 'z': fxa(z, CS), 'zz': fxa(zz, CS), 'v': fx(val, CS), 'fx': fx(F.func(v), CS)})
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def build_smooth(d):
    import numpy as np, jax.numpy as jnp, cr.sparse.opt as opt
    f = d['f']
    c = np.array(half(d['c']))
    P = np.array(d['P'], dtype=float) if d['P'] else None
    if f == 'constant':
        return opt.smooth_constant(float(c[0]))
    if f == 'entropy':
        return opt.smooth_entropy()
    if f == 'entropy_vg':
        return opt.smooth_entropy_vg()
    if f == 'huber':
        return opt.smooth_huber(float(c[0]))
    if f == 'moreau_l1':
        return opt.moreau_envelope(opt.prox_l1(1.), float(c[0]))
    if f == 'linear':
        return opt.smooth_linear(c, d['r'] / 2)
    if f == 'quad':
        kw = {}
        if not np.array_equal(P, np.eye(2)):
            kw['P'] = P
        if d['c']:
            kw['q'] = c
        if d['r']:
            kw['r'] = d['r'] / 2
        return opt.smooth_quad_matrix(**kw)
    if f == 'quad_error':
        return opt.smooth_quad_error(jnp.asarray(P), jnp.asarray(c))
    if f == 'translate_quad':
        return opt.smooth_func_translate(opt.smooth_quad_matrix(), c)
    if f == 'build_cubic':
        return opt.smooth_build(lambda x: jnp.sum(x ** 3))
    if f == 'dual_l1':
        import cr.sparse.fom as fom
        kw = {}
        if d['q']:
            kw['mu'] = float(d['q'])
        if d['P']:
            kw['x0'] = jnp.asarray(half(d['P'][0]))
        return fom.smooth_dual(opt.prox_l1(float(c[0])) if d['c'][0] else opt.prox_zero(), **kw)
    if f == 'logdet':
        return opt.smooth_logdet(d['q'] / 2, P)


def rec_smooth(c):
    import numpy as np, jax, jax.numpy as jnp, cr.sparse.opt as opt
    from jax.experimental import enable_x64
    d = c['d']
    ev = {'d': d, 'pts': [], 'exc': ''}
    try:
        F = build_smooth(d)
        fun = jax.jit(F.func)
        E = opt.smooth_value_grad(F.func, F.grad)
        with enable_x64():
            F64 = build_smooth(d)
        h = 2.0 ** -12
        for i, x in enumerate(c['pts']):
            v = np.array([[x[0], x[1]], [x[1], x[2]]], dtype=np.float32) if d['f'] == 'logdet' else np.array(half(x), dtype=np.float32)
            val = F.func(v)
            g = F.grad(v)
            if i % 2:
                g2, v2 = F.grad_val(v)
            else:
                v2, g2 = E(v, 2)
            fd = []
            with enable_x64():
                w = v.astype(np.float64)
                for j in range(w.size):
                    e = np.zeros(w.size)
                    e[j] = h
                    e = e.reshape(w.shape)
                    if d['f'] == 'logdet':      # symmetric perturbation: the gradient entries (i,j) and (j,i) are equal
                        e = (e + e.T) / 2
                    fd.append((float(F64.func(jnp.asarray(w + e))) - float(F64.func(jnp.asarray(w - e)))) / (2 * h))
            ev['pts'].append({'x': x, 'v': fx(val, CS), 'v2': fx(v2, CS), 'g': fxa(np.asarray(g).ravel(), CS),
                              'g2': fxa(np.asarray(g2).ravel(), CS), 'fd': fxa(np.array(fd), CS)})
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def key(e):
    d = e['d']
    return json.dumps(d.get('k', d.get('f')))[1:-1] + '-' + '-'.join(str(d[t]) for t in ('n', 'q', 'b', 'l', 'u', 'w', 'c', 'r') if d.get(t) not in (None, [], 0)).replace(' ', '')


def gen(rep, what, minimum):
    return vf.generate(rep, 'ConvexGen', [f'What="{what}"', 'Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                       ['SoundNearest', 'FixedNearest'], minimum=minimum, workers=8)


def corrupt(e):
    if not any(t.get(f) for t in e['pts'] for f in ('p', 'z', 'g')):
        return None
    for t in e['pts']:
        for f in ('p', 'z', 'g'):
            if f in t and t[f]:
                t[f][0] += 700
    return e
