from lib import vf
from drivers import convexkit as ck


def run_case(chunk):
    return [ck.rec_smooth(c) for c in chunk]


def check(rep):
    rep.assumptions = ['sets, functions and points of ConvexGen (dimensions 1 to 4, half-integer grids)', 'float32 results projected to 1/10080']
    vf.conform(rep, 'drivers.p08', ck.gen(rep, 'smooth', 30), 'ConvexTrace', 'SmoothVerdict', ck.key, corrupt=ck.corrupt, size=6, shards=8)
