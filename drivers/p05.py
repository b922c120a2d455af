"""P05: capability attributes of operators and operator expressions."""
from drivers import algkit, lopkit, lopcommon, p04


def run_case(ch):
    if isinstance(ch, list):
        return [lopkit.record(d, full=False) for d in ch]
    return [algkit.record(c, ch['leaves'], True) for c in ch['cases']]


def check(rep):
    quick = rep.tier == 'quick'
    rep.assumptions = ['leaf operators of LopAlg/LopGen/BasisGen; programs of depth 1 exhaustively, longer ones sampled']
    algkit.check(rep, 'drivers.p05', 'CapVerdict', 1 if quick else 2, 200 if quick else 2000, 4 if quick else 6)
    cases = lopcommon.gen(rep, 3 if quick else 5, True)
    cases += [c for c in p04.gen(rep, False) if c['k'] != 'mat']
    lopcommon.run(rep, 'drivers.p05', cases, 'FlagVerdict')
