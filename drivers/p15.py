from lib import vf
from drivers.krylovkit import run_case, key, corrupt  # noqa


def check(rep):
    rep.assumptions = ['integer (real and complex) matrices: tall, square, wide; damping 0, 1, 2; integer right-hand sides and starts; six stopping settings',
                       'single precision runs judged to 0.3 percent; the stop rule is left open near its thresholds; estimates judged up to the dimension of the Krylov space']
    cases = vf.generate(rep, 'KrylovGen', ['Fam="ls"', 'Deep=' + ('FALSE' if rep.tier == 'quick' else 'TRUE'), 'Emit=TRUE'],
                        ['Galerkin', 'Solved', 'InSpace'], minimum=150, properties=['Descends'], workers=8)
    vf.conform(rep, 'drivers.p15', cases, 'KrylovTrace', 'KrylovVerdict', key, corrupt=corrupt, size=4, shards=8,
               group=lambda d: [d['A'], d['Ai'], d['damp'], d['cr']])
