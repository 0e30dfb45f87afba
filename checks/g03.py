"""G03 region volumes"""
from g01 import cases_for, slim
import geo
from geocommon import *
TARGETS = ["h_g01"]


def run(ctx):
    cases = cases_for(ctx, "volume", ctx.n(60, 700))
    # six sectors in a square pin
    m = {"id": 1, "type": "cyl", "pitch": 1.0, "subx": 1, "suby": 1, "radii": [0.4], "subr": [1], "azi": 6}
    _, lib, lx = materials(ctx.rng)
    g = {"meshes": [m], "pins": [{"id": 1, "mesh": 1, "mats": [1, 2]}], "lats": [{"id": 1, "nx": 1, "ny": 1, "pins": [1]}],
         "asys": [{"id": 1, "np": 1, "hz": [1.0], "groups": [[1]]}], "core": {"nx": 1, "ny": 1, "asy": [1]},
         "bc": {s: "reflect" for s in ("north", "south", "east", "west", "top", "bottom")}}
    cases.append({"op": "volume", "xml": wrap(g, lx), "lib": lib, "d": desc(g), "pts": [], "key": "six-sectors"})
    ctx.conform("h_g01", "VolumeTrace", cases, timeout=20, merge=slim)
