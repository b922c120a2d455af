from drivers import pursuitkit as pk


def run_case(chunk):
    return pk.run_self(chunk)


def check(rep):
    pk.self_check(rep)
