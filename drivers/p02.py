"""P02: operator expressions behave like matrix expressions."""
from drivers import algkit


def run_case(ch):
    return [algkit.record(c, ch['leaves'], False) for c in ch['cases']]


def check(rep):
    rep.assumptions = ['Gaussian integer leaf operators up to 3x3, entries below 3000 (exact in float32)',
                       'programs: all of depth 1, pseudo-random longer walks (seeded)']
    if rep.tier == 'quick':
        algkit.check(rep, 'drivers.p02', 'AlgVerdict', 1, 400, 4)
    else:
        algkit.check(rep, 'drivers.p02', 'AlgVerdict', 2, 3000, 6)
