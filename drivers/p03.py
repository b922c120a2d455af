from drivers import lopkit, lopcommon


def run_case(chunk):
    return [lopkit.record(d) for d in chunk]


def check(rep):
    cases = lopcommon.gen(rep, 5 if rep.tier == 'quick' else 8)
    rep.assumptions = ['operator sizes and parameters within the enumerated universe of LopGen', 'float32 evaluation, tolerance 4/5040']
    lopcommon.run(rep, 'drivers.p03', cases, 'SemVerdict')
