import json
from lib import vf
from drivers import lopkit, lopcommon


def rec_mat(d):
    import numpy as np, cr.sparse.dict as crdict
    ev = {'kind': 'mat', 'd': d, 'exc': ''}
    try:
        f = getattr(crdict, d['name'])
        M = f(d['n'], d['wavelet'], d['level']) if d['name'] == 'wavelet_basis' else f(d['n'])
        ev['M'] = lopkit.fxc(M, lopkit.SC)
    except Exception as e:
        ev['exc'] = f'{type(e).__name__}: {str(e)[:200]}'
    return ev


def run_case(chunk):
    return [rec_mat(d) if d['k'] == 'mat' else lopkit.record(d) for d in chunk]


def gen(rep, deep):
    out, st = vf.tlc('BasisGen', f'SPECIFICATION Spec\nCONSTANTS Deep={"TRUE" if deep else "FALSE"} Emit=TRUE\n'
                     'INVARIANTS Orthonormal\nCHECK_DEADLOCK FALSE\n')
    rep.model(st)
    cases = vf.printed_json(out)
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return cases


def check(rep):
    cases = gen(rep, rep.tier != 'quick')
    if len(cases) < 80:
        raise vf.MachineryError('too few cases')
    rep.assumptions = ['sizes, levels and wavelets of BasisGen', 'float32, tolerance 14/5040']
    chunks = lopcommon.chunk(cases, 4)
    res = vf.run_cases('drivers.p04', chunks)
    events = []
    for ch, r in zip(chunks, res):
        if r[0] == 'exc':
            rep.add('harness', r[1][-300:], ch)
        else:
            events += r[1]
    lopcommon.judge(rep, events, 'BasisVerdict', module='BasisTrace')
