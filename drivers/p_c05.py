"""C05: bluespot labels (library in both modes, BluespotTool, command line)."""
import os
import numpy as np
from common import *
from malstroem import bluespots, io
from malstroem.algorithms import label
import cli

UNFILTERED = dict(tokens=[], dden=8, ca=[1, 1])


def wet_pattern(rng, h, w):
    """depths in 1/8 m with many touching, diagonal and nested regions"""
    k = rng.choice(["rand", "sparse", "dense", "diag", "rings", "comb", "all", "none", "deep"])
    R = rng.randint
    if k == "rand":
        return [[R(0, 1) * R(1, 40) for _ in range(w)] for _ in range(h)]
    if k == "sparse":
        return [[(R(1, 40) if rng.random() < .2 else 0) for _ in range(w)] for _ in range(h)]
    if k == "dense":
        return [[(R(1, 5) if rng.random() < .75 else 0) for _ in range(w)] for _ in range(h)]
    if k == "diag":
        m, o = R(2, 4), R(0, 3)
        return [[(R(1, 9) if (r + c + o) % m == 0 or (r - c) % 5 == o else 0) for c in range(w)] for r in range(h)]
    if k == "rings":
        return [[(3 if min(r, c, h - 1 - r, w - 1 - c) % 2 == 1 and rng.random() < .95 else 0) for c in range(w)] for r in range(h)]
    if k == "comb":
        return [[(2 if c % 2 == 0 or r == h - 1 else 0) for c in range(w)] for r in range(h)]
    if k == "all":
        return [[R(1, 3)] * w for _ in range(h)]
    if k == "none":
        return [[0] * w for _ in range(h)]
    return [[(R(1, 400) if rng.random() < .5 else 0) for _ in range(w)] for _ in range(h)]


def tool_case(rec, rng, p, tokens=None, fn=None, accum=None):
    """BluespotTool over files"""
    d = p.d
    a, f = os.path.join(d, "depths.tif"), os.path.join(d, "fd.tif")
    cli.write_raster(a, p.depth, transform=p.geo.transform)
    cli.write_raster(f, p.fd, transform=p.geo.transform)
    dem = os.path.join(d, "dem.tif")
    tr, crs = p.geo.transform, cli.WKT
    db = os.path.join(d, "o.gpkg")
    vec = rng.random() < .3
    from osgeo import ogr
    W = lambda n: io.RasterWriter(os.path.join(d, n), tr, crs, 0)
    V = lambda n, g: io.VectorWriter("gpkg", db, n, None, g, crs)
    t = bluespots.BluespotTool(
        input_depths=io.RasterReader(a), input_flowdir=io.RasterReader(f), input_bluespot_filter_function=fn,
        output_labeled_raster=W("lab.tif"), output_pourpoints=V("pourpoints", ogr.wkbPoint), output_watersheds_raster=W("wsh.tif"),
        input_accum=None, input_dem=io.RasterReader(dem, -999),
        output_labeled_vector=V("bluespots", ogr.wkbPolygon) if vec else None,
        output_watersheds_vector=V("watersheds", ogr.wkbPolygon) if vec else None)
    t.process()
    return os.path.join(d, "lab.tif")


def cases(ctx):
    import big
    out = big.c05(ctx)
    for i, g in enumerate(GEN):
        def fn(rec, g=g, i=i):
            depth = (np.array(g["wet"]) / 8.0).astype(np.float32)
            rec.put(depth=gi(depth, 8))
            with rec.step("Label", r=dict(depth="depth"), **UNFILTERED) as s:
                lab, n = label.connected_components(depth)
                s.w("lab", gi(lab))
        out.append(("spec:%d" % i, fn))
    for i in range(ctx.n(500, 6000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 16 if rng.random() < .08 else 9)
            d = np.array(wet_pattern(rng, h, w), dtype=np.float64) / 8
            depth = d.astype(rng.choice(["float32", "float32", "float64"]))
            tiny = rng.random() < .15
            if tiny:      # positive is positive, however small
                depth = np.where(depth > 0, depth.dtype.type(1e-30), depth.dtype.type(0)).astype(depth.dtype)
                rec.put(depth=[[int(v > 0) for v in row] for row in depth])
            else:
                rec.put(depth=gi(depth, 8))
            with rec.step("Label", r=dict(depth="depth"), **UNFILTERED) as s:
                lab, n = label.connected_components(forms(rng, depth))
                s.w("lab", gi(lab))
        out.append(("lib:%d" % i, fn))
    for i in range(ctx.n(240, 2500)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 9)
            geo = cli.geo_for(rng)
            depth = (np.array(wet_pattern(rng, h, w)) / 8.0).astype(rng.choice(["float32", "float32", "float64"]))
            d = rec.dir()
            cli.write_raster(d + "/d.tif", depth, nodata=rng.choice([None, -999]), transform=geo.transform)
            text, tokens = cli.random_filter(rng, geo.ca, 5.0, allow_empty=i % 4 == 0)
            rec.put(depth=gi(depth, 8))
            with mode(bool(i % 2)):
                with rec.step("Label", r=dict(depth="depth"), tokens=tokens, dden=8, ca=cli.frac(geo.ca)) as s:
                    cli.run(*(["bspots", "-depths", d + "/d.tif", "-out", d + "/lab.tif"] + (["-filter", text] if text else [])))
                    s.w("lab", gi(cli.read_raster(d + "/lab.tif")))
        out.append(("cli:%d" % i, fn))
    # the library tool with a filter given as a function, or none
    for i in range(ctx.n(40, 500)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            from malstroem.algorithms import fill, flow
            p = cli.setup(rec, rng, nodata=False)
            with mode(bool(i % 2)):
                filled = fill.fill_terrain(p.dem)
                short, diag = fill.minimum_safe_short_and_diag(p.dem)
                p.fd = flow.terrain_flowdirection(fill.fill_terrain_no_flats(p.dem, short, diag))
                p.depth = filled - p.dem
                rec.put(depth=gi(p.depth, 8))
                k = rng.choice(["none", "area", "max", "volume"])
                ca = p.geo.ca
                n = rng.choice([1, 2, 3, 5])
                z = 1.0
                if rng.random() < .4:      # the same in a smaller vertical unit: nothing is too shallow
                    z = 2.0 ** -rng.choice([10, 22, 40, 90])
                    p.depth = (p.depth * z).astype(p.depth.dtype)
                if k == "none":
                    f, tokens = None, []
                elif k == "area":
                    f = lambda s: s["area"] > (n + .4) * ca
                    tokens = [["id", "area"], ["cmp", ">"], ["num"] + cli.frac((n + .4) * ca)]
                elif k == "max":
                    f = lambda s: s["max"] >= z * n / 8.0
                    tokens = [["id", "maxdepth"], ["cmp", ">="], ["num", n, 8]]
                else:
                    f = lambda s: s["volume"] < z * (n + .05) * ca
                    tokens = [["id", "volume"], ["cmp", "<"], ["num"] + cli.frac((n + .05) * ca)]
                with rec.step("Label", r=dict(depth="depth"), tokens=tokens, dden=8, ca=cli.frac(ca)) as s:
                    s.w("lab", gi(cli.read_raster(tool_case(rec, rng, p, tokens, f))))
        out.append(("tool:%d" % i, fn))
    for i in range(ctx.n(16, 200)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
