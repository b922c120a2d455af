from lib import vf
from drivers import convexkit as ck


def run_case(chunk):
    return [ck.rec_proj(c) for c in chunk]


def check(rep):
    rep.assumptions = ['sets, functions and points of ConvexGen (dimensions 1 to 4, half-integer grids)', 'float32 results projected to 1/10080']
    vf.conform(rep, 'drivers.p06', ck.gen(rep, 'proj', 60), 'ConvexTrace', 'ProjVerdict', ck.key, corrupt=ck.corrupt, size=6, shards=8)
