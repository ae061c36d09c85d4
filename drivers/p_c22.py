"""C22: area, storage and water account of whole calculations; more rain; identical runs."""
import os
import numpy as np
from common import *
import cli
from p_c19 import tree, layer, LAYERS, RASTERS, polyset


def everything(p, out, layers=LAYERS):
    """all results of a calculation"""
    db = os.path.join(out, "malstroem.gpkg")
    r = {}
    for n in sorted(os.listdir(out)):
        if n.endswith(".tif"):
            r[n] = digest(cli.raster_info(os.path.join(out, n)))
    for n in layers:
        r[n] = digest(layer(db, n))
    r["finalbluespots.polygons"] = digest(polyset(db, "finalbluespots", p.geo))
    return [[k, r[k]] for k in sorted(r)]


def cases(ctx):
    import big
    out = big.c22(ctx)
    for i in range(ctx.n(110, 1500)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, maxside=12 if rng.random() < .2 else 9, scaling=True)
            o = os.path.join(p.d, "out")
            p.mm8b = p.mm8 + rng.choice([0, 1, 1, 3, 8, 30, 80, 500, 8000])
            with rec.step("Input"):
                (cli.complete if rng.random() < .7 else cli.chain)(p, o)
                cli.scenario(p, o, p.mm8b / 8.0, "_b")
            cli.record(rec, p, o)
            cli.record(rec, p, o, sfx="_b", static=False)
            with rec.step("MoreRain", r=dict(fin1="fin", fin2="fin_b", lev1="lev", lev2="lev_b", fdepth1="fdepth", fdepth2="fdepth_b", flab1="flab", flab2="flab_b")):
                pass
        out.append(("rain:%d" % i, fn))
    for i in range(ctx.n(30, 400)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, maxside=12 if rng.random() < .2 else 9, scaling=True)
            a, b = os.path.join(p.d, "a"), os.path.join(p.d, "b")
            with rec.step("Again") as s:
                cli.complete(p, a)
                x = everything(p, a)
                if rng.random() < .5:      # another calculation in between
                    q = cli.setup(rec, rng)
                    cli.complete(q, os.path.join(q.d, "q"))
                cli.complete(p, b, *([lambda *a: cli.run_process(*a, cwd=p.d)] if rng.random() < .4 else []))
                s.p(a=x, b=everything(p, b))
        out.append(("again:%d" % i, fn))
    return out
