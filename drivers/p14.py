from lib import vf
from drivers.krylovkit import run_case, key, corrupt  # noqa


def check(rep):
    rep.assumptions = ['integer symmetric positive definite systems of size 2 to 5, integer right-hand sides and starts, three preconditioners',
                       'single precision runs judged to 0.2 percent; the stop rule is left open within 0.001 of the threshold']
    cases = vf.generate(rep, 'KrylovGen', ['Fam="cg"', 'Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Galerkin', 'Solved', 'InSpace'], minimum=500, properties=['Descends'], workers=8)
    vf.conform(rep, 'drivers.p14', cases, 'KrylovTrace', 'KrylovVerdict', key, corrupt=corrupt, size=20, shards=8,
               group=lambda d: [d['kind'], d['A'], d['M'], d['tol']])
