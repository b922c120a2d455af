from drivers import pursuitkit as pk


def run_case(chunk):
    return pk.run_rules(chunk)


def check(rep):
    pk.rule_check(rep, 'p11', 'sp,cosamp'.split(','))
