"""Builds real operator expressions from programs of the algebra machine and records them."""
import json
import numpy as np
from lib import vf
from lib.vf import fxc
from drivers import lopkit
TS = 16
LEAVES = None


def leaf(d):
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    if d['k'] != 'custom':
        return lopkit.build(d)
    A = np.array(d['A'], dtype=np.float32)
    if not d['real']:
        A = (A + 1j * np.array(d['Ai'])).astype(np.complex64)
    AH = np.conj(A.T)

    def mk(M):
        if not d['jit']:
            return lambda x: jnp.asarray(M @ np.asarray(x))
        Mj = jnp.asarray(M)

        def f(x):
            if not d['mat'] and x.ndim != 1:
                raise ValueError('vector only operator')
            return Mj @ x
        return f
    return lop.Operator(times=mk(A), trans=mk(AH), shape=A.shape, linear=d['linear'], jit_safe=d['jit'],
                        matrix_safe=d['mat'], real=d['real'])


def run_prog(a, b, prog):
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    for st in prog:
        o = st['op']
        if o == 'neg':
            a = -a if len(prog) % 2 else lop.neg(a)
        elif o == 'scale':
            al = float(st['re']) if st['im'] == 0 else complex(st['re'], st['im'])
            a = lop.scale(a, al)
        elif o in ('adjoint', 'hermitian', 'transpose', 'gram', 'frame'):
            a = getattr(lop, o)(a)
        elif o == 'jit':
            a = lop.jit(a)
        elif o == 'power':
            a = a ** st['p']
        elif o == 'partial':
            a = lop.partial_op(a, jnp.array(st['picks'], dtype=int), jnp.array(st['perm'], dtype=int) if st['perm'] else None)
        elif o == 'add':
            a = a + b
        elif o == 'sub':
            a = a - b
        elif o == 'compose':
            a = a @ b
        elif o == 'hcat':
            a = lop.hcat(a, b)
        elif o == 'block':
            a = lop.block_diag([a, b])
        elif o == 'block3':
            a = lop.block_diag([a, b, a])
        elif o == 'window':
            a = lop.windowed_op(st['m'], a, st['ov'])
        elif o == 'swap':
            a, b = b, a
        elif o == 'dup':
            b = a
        else:
            raise ValueError(o)
    return a


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


def record(c, leaves, caps):
    import jax.numpy as jnp
    import cr.sparse.lop as lop
    ev = {'kind': 'alg', 'c': c, 'exc': ''}
    try:
        T = run_prog(leaf(leaves[c['ia'] - 1]), leaf(leaves[c['ib'] - 1]), c['prog'])
        m, n = (int(t) for t in T.shape)
        ev['m'], ev['n'] = m, n
        ev['flags'] = {'real': bool(T.real), 'linear': bool(T.linear), 'jit': bool(T.jit_safe), 'mat': bool(T.matrix_safe)}
        xr, xi, ur, ui = (lopkit.ivec(n, 1), lopkit.ivec(n, 2), lopkit.ivec(m, 3), lopkit.ivec(m, 4))
        x = jnp.asarray((xr + 1j * xi).astype(np.complex64))
        u = jnp.asarray((ur + 1j * ui).astype(np.complex64))
        X = np.stack([lopkit.ivec(n, 10 + k) for k in range(2)], axis=1)
        U = np.stack([lopkit.ivec(m, 20 + k) for k in range(2)], axis=1)
        Xj, Uj = jnp.asarray(X.astype(np.float32)), jnp.asarray(U.astype(np.float32))
        if caps:
            ev['stkok'] = True
            if ev['flags']['mat']:
                ev['stkok'] = not refused(lambda: (T.times(Xj), T.trans(Uj)))
            ev['jitok'] = True
            ev['jitrefused'] = True
            if ev['flags']['jit']:
                ev['jitok'] = not refused(lambda: (lop.jit(T).times(x), lop.jit(T).trans(u)))
            else:
                ev['jitrefused'] = refused(lambda: lop.jit(T))
            ev['tmrefused'] = True
            if not ev['flags']['linear']:
                ev['tmrefused'] = all(refused(lambda f=f: f(T)) for f in (lop.to_matrix, lop.to_adjoint_matrix, lop.to_complex_matrix))
            return ev
        ev['xr'], ev['xi'], ev['ur'], ev['ui'] = xr.tolist(), xi.tolist(), ur.tolist(), ui.tolist()
        ev['fwd'] = fxc(lopkit.mat_of(T.times, n, (n,)), TS)
        ev['adj'] = fxc(lopkit.mat_of(T.trans, m, (m,)), TS)
        ev['y'], ev['v'] = fxc(T.times(x), TS), fxc(T.trans(u), TS)
        if ev['flags']['jit']:
            J = lop.jit(T)
            ev['yj'], ev['vj'] = fxc(J.times(x), TS), fxc(J.trans(u), TS)
        ev['stk'] = ev['flags']['mat']
        if ev['stk']:
            Y, V = np.asarray(T.times(Xj)), np.asarray(T.trans(Uj))
            ev['sX'], ev['sU'] = X.T.tolist(), U.T.tolist()
            ev['sY'] = [fxc(Y[:, k], TS) for k in range(Y.shape[1])]
            ev['sV'] = [fxc(V[:, k], TS) for k in range(V.shape[1])]
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def gen(rep, deep, walks, wlen, chunk=20):
    out, st = vf.tlc('LopAlgGen', f'SPECIFICATION Spec\nCONSTANTS Deep={deep} Walks={walks} WLen={wlen} Seed={rep.seed} Emit=TRUE\n'
                     'INVARIANTS ShapeLaw RealLaw AdjLaw GramLaw\nCHECK_DEADLOCK FALSE\n')
    rep.model(st)
    leaves = vf.printed_json(out, 'LEAVES')[0]
    cases = [json.loads(s) for s in sorted({json.dumps(c, sort_keys=True) for c in vf.printed_json(out)})]
    if len(cases) < 300:
        raise vf.MachineryError('too few programs')
    k = max(1, len(cases) // chunk)
    return leaves, cases, [{'leaves': leaves, 'cases': cases[i::k]} for i in range(k)]


def check(rep, modname, verdict, deep, walks, wlen):
    leaves, cases, chunks = gen(rep, deep, walks, wlen)
    res = vf.run_cases(modname, chunks)
    events = []
    for ch, r in zip(chunks, res):
        if r[0] == 'exc':
            rep.add('harness', 'running operator programs failed: ' + r[1][-300:], ch)
        else:
            events += r[1]
    sent = []
    for e in events:
        if e['exc'] == '' and len(e['c']['prog']):
            s = json.loads(json.dumps(e))
            s['flags'] = {'real': False, 'linear': False, 'jit': False, 'mat': True}
            s['stkok'] = False
            if 'fwd' in s:
                s['fwd']['re'][0][0] += 16
            sent = [s]
            break
    bad, st = vf.validate('LopAlgTrace', events + sent, verdict=f'Verdict <- {verdict}', shards=8)
    for i in sorted(bad):
        if i < len(events):
            e = events[i]
            rep.add('prog:%d,%d:' % (e['c']['ia'], e['c']['ib']) + '.'.join(s['op'] for s in e['c']['prog']) + ':' + '+'.join(bad[i]),
                    f"{[leaves[e['c'][t] - 1]['k'] for t in ('ia', 'ib')]} {e['c']['prog']} breaks {bad[i]} {e['exc']}"[:500], e)
    if not rep.viol and len(events) not in bad:
        raise vf.MachineryError('specification accepted a corrupted event')
    rep.traces(events, st)
    return events
