"""S04 surface currents of sweeps"""
from s02 import sn_case
from s03 import moc_case
from swcommon import *
TARGETS = ["h_s02", "h_s03"]


def run(ctx):
    r = ctx.rng
    ctx.model("SnSweepMC")
    ctx.conform("h_s02", "SnCurTrace", [sn_case(r, big=not ctx.quick) for _ in range(ctx.n(50, 400))], timeout=30, merge=slim)
    ctx.conform("h_s03", "MocCurTrace", [moc_case(r, big=not ctx.quick, coarse=1) for _ in range(ctx.n(40, 300))], timeout=30, merge=slim)
