"""C13: hypsometry."""
import os, random
import numpy as np
from common import *
from malstroem import hyps
import cli
from p_c11 import labels


def dem_for(rng, h, w, sc):
    """elevations as integers in 1/sc m: negative, zero, on bin borders"""
    lo = rng.choice([0, 0, -5, -40, 100, -1, 1000, -1002, -11000]) * sc
    top = rng.choice([1, 4, 12, 40]) * sc // rng.choice([1, 2, 4])
    top = max(1, top)
    k = rng.choice(["rand", "steps", "const"])
    if k == "const":
        return np.full((h, w), lo)
    step = rng.choice([sc, max(1, sc // 2)]) if k == "steps" else 1
    return np.array([[lo + rng.randint(0, max(1, top // step)) * step for _ in range(w)] for _ in range(h)])


def enc(items, unit):
    res = []
    f = (lambda v: ei(v, unit)) if unit != 1e6 else cli.um
    for k, st in items:
        b = st.zhistogram.bins
        n = int(b.num_bins)
        res.append(dict(id=int(k), n=n, lo=f(b.lower_bound), hi=f(b.upper_bound), res=f(b.resolution),
                        counts=[int(c) for c in st.zhistogram.counts],
                        zmin=f(st.zmin) if k or math.isfinite(st.zmin) else 0, zmax=f(st.zmax) if k or math.isfinite(st.zmax) else 0))
    return res


def from_props(q):
    return hyps.hypsometrystats_from_flatdict(q)


def raw_hyps(feats, unit):
    """the layer as it is, parsed without malstroem"""
    f = (lambda v: ei(v, unit)) if unit != 1e6 else cli.um
    res = []
    for x in feats:
        q = x["properties"]
        n = int(q["hist_num_bins"])
        res.append(dict(id=int(q["bspot_id"]), n=n, lo=f(q["hist_lower_bound"]), hi=f(q["hist_upper_bound"]), res=f(q["hist_resolution"]),
                        counts=[int(c) for c in q["hist_counts"].split("|")] if q["hist_counts"] else [], zmin=f(q["zmin"]), zmax=f(q["zmax"])))
    return res


def cases(ctx):
    import big
    out = big.c13(ctx)
    # exact: dyadic elevations and resolutions
    for i in range(ctx.n(400, 5000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 14 if rng.random() < .1 else 8)
            lab = labels(rng, h, w)
            sc = 16
            z = dem_for(rng, h, w, sc)
            dt = rng.choice(["float32", "float32", "float64", "float64", "int32", "int16"])
            if dt.startswith("int"):
                z = (z // sc) * sc
            dem = (z / sc).astype(dt)
            r16 = rng.choice([1, 2, 3, 4, 5, 8, 16, 24, 32, 160, 16 * 1000])
            ldt = rng.choice(["int32", "int32", "int32", "int64", "uint8", "int16"])
            lb = forms(rng, lab.astype(ldt))
            rec.put(lab=gi(lab), dem=gi(dem, sc))
            with mode(bool(i % 2)):
                with rec.step("Hyps", r=dict(lab="lab", dem="dem"), res=r16, tol=0) as s:
                    kw = {}
                    if rng.random() < .5:
                        kw["labels_max"] = int(lab.max())
                    s.w("hy", enc(hyps.bluespot_hypsometry_stats(lb, forms(rng, dem), r16 / sc, **kw), sc))
        out.append(("exact:%d" % i, fn))
    # any resolution: borders within rounding
    for i in range(ctx.n(250, 3000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 8)
            lab = labels(rng, h, w)
            base = rng.choice([0, 0.7, -3.3, 12.345, 150.0, -0.05])
            rel = rng.choice([0.05, 0.3, 1, 4, 25])
            q = rng.choice([None, 0.1, 0.01])
            dem = np.array([[base + rng.random() * rel for _ in range(w)] for _ in range(h)])
            if q:
                dem = np.round(dem / q) * q
            dem = dem.astype(rng.choice(["float32", "float64"]))
            res = rng.choice([x for x in [0.001, 0.01, 0.03, 0.05, 0.1, 0.2, 0.3, 0.7, 1.0, 2.5, 10.0] if rel / x < 300])
            rec.put(lab=gi(lab), dem=[[cli.um(v) for v in row] for row in dem])
            with mode(bool(i % 2)):
                with rec.step("Hyps", r=dict(lab="lab", dem="dem"), res=cli.um(res), tol=200) as s:
                    s.w("hy", enc(hyps.bluespot_hypsometry_stats(lab, dem, res), 1e6))
        out.append(("any:%d" % i, fn))
    # command line and text form
    for i in range(ctx.n(100, 1000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 8)
            lab = labels(rng, h, w)
            if lab.all():       # rasters of bluespots have background (the raster border)
                lab[0, 0] = 0
            lab = np.array(sorted(set(lab.ravel().tolist()) | {0})).searchsorted(lab).astype(lab.dtype)
            sc = 16
            dem = (dem_for(rng, h, w, sc) / sc).astype(rng.choice(["float32", "float64"]))
            r16 = rng.choice([1, 2, 4, 5, 8, 16, 32])
            geo = cli.geo_for(rng)
            d = rec.dir()
            nd = None
            rd = dem
            if rng.random() < .25:      # nodata cells are treated as -999 m
                nd = -9999.0
                dem = dem.copy()
                dem[rng.randrange(h), rng.randrange(w)] = nd
                rd = np.where(dem == nd, dem.dtype.type(-999), dem)
                r16 = max(r16, 16 * 4, int((dem.max() - min(-999, dem[dem != nd].min() if (dem != nd).any() else 0)) * 16 / 250) + 1)
            cli.write_raster(d + "/dem.tif", dem, transform=geo.transform, nodata=nd)
            cli.write_raster(d + "/lab.tif", lab, transform=geo.transform, nodata=0)
            n = int(lab.max())
            pp = [(dict(bspot_id=k, cell_row=0, cell_col=k, bspot_area=geo.ca, bspot_vol=1.5, bspot_dmax=.5, bspot_fumm=1.0, wshed_area=geo.ca),
                   (600000.0 + k, 6200000.0)) for k in range(n + 1)]
            src, fmt = cli.out_name(rng, d, "pp")
            if random.Random(rec.name).random() < .4:      # in any order
                random.Random(rec.name + "s").shuffle(pp)
            cli.write_layer(src, fmt, "pourpoints", pp)
            o, ofmt = cli.out_name(rng, d, "hy", ("gpkg", "geojson", "CSV"))
            rec.put(lab=gi(lab), dem=gi(rd, sc))
            with mode(bool(i % 2)):
                with rec.step("Hyps", r=dict(lab="lab", dem="dem"), res=r16, tol=0) as s:
                    args = ["hyps", "-bluespots", d + "/lab.tif", "-dem", d + "/dem.tif", "-pourpoints", src, "-zresolution", repr(r16 / sc),
                            "-out", o, "-out_hyps_layer", "hy"]
                    if ofmt != "CSV" or rng.random() < .5:
                        args += ["-format", ofmt]
                    cli.run(*args)
                    feats = cli.read_layer(o, "hy" if ofmt == "gpkg" else None)
                    s.w("hy", raw_hyps(feats, sc))
                    s.p(areas=[ei(float(f["properties"]["cell_area"]) / geo.ca, 1, cli.TOL) for f in feats])
            with rec.step("HypsText", r=dict(hy="hy")) as s:
                s.p(back=enc([(f["properties"]["bspot_id"], from_props(f["properties"])) for f in feats], sc))
            # the histogram in memory is the one in the text
            with rec.step("HypsText", r=dict(hy="hy")) as s:
                mem = enc(hyps.bluespot_hypsometry_stats(lab, rd, r16 / sc, n), sc)
                pos = {int(f["properties"]["bspot_id"]): k for k, f in enumerate(feats)}
                s.p(back=sorted(mem, key=lambda x: pos.get(x["id"], -1)))
        out.append(("cli:%d" % i, fn))
    # command line with elevations of full double precision: the extremes are compared exactly, through their ranks
    for i in range(ctx.n(50, 600)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 8)
            lab = labels(rng, h, w)
            lab[0, 0] = 0
            lab = np.array(sorted(set(lab.ravel().tolist()) | {0})).searchsorted(lab).astype(lab.dtype)
            base = rng.choice([0, 0.7, -3.3, 12.345, 150.0, 999.9])
            rel = rng.choice([0.05, 0.3, 1, 4, 25])
            dem = np.array([[base + rng.random() * rel for _ in range(w)] for _ in range(h)]).astype(rng.choice(["float64", "float64", "float32"]))
            res = rng.choice([x for x in [0.001, 0.01, 0.03, 0.05, 0.1, 0.3, 1.0, 10.0] if rel / x < 300])
            geo = cli.geo_for(rng)
            d = rec.dir()
            cli.write_raster(d + "/dem.tif", dem, transform=geo.transform)
            cli.write_raster(d + "/lab.tif", lab, transform=geo.transform, nodata=0)
            pp = [(dict(bspot_id=k, cell_row=0, cell_col=k, bspot_area=geo.ca, bspot_vol=1.5, bspot_dmax=.5, bspot_fumm=1.0, wshed_area=geo.ca),
                   (600000.0 + k, 6200000.0)) for k in range(int(lab.max()) + 1)]
            src, fmt = cli.out_name(rng, d, "pp")
            if random.Random(rec.name).random() < .4:      # in any order
                random.Random(rec.name + "s").shuffle(pp)
            cli.write_layer(src, fmt, "pourpoints", pp)
            o, ofmt = cli.out_name(rng, d, "hy", ("gpkg", "geojson", "CSV"))
            rank = {v: k for k, v in enumerate(sorted(set(dem.ravel().tolist())))}
            # text formats keep 15 digits
            eps = 0 if ofmt == "gpkg" else 1e-14
            rank_of = lambda v: next((k for x, k in rank.items() if abs(x - v) <= eps * abs(x)), -1)
            rec.put(lab=gi(lab), dem=[[cli.um(v) for v in row] for row in dem], rank=[[rank[v] for v in row] for row in dem.tolist()])
            with mode(bool(i % 2)):
                with rec.step("Hyps", r=dict(lab="lab", dem="dem", rank="rank"), res=cli.um(res), tol=200) as s:
                    cli.run("hyps", "-bluespots", d + "/lab.tif", "-dem", d + "/dem.tif", "-pourpoints", src, "-zresolution", repr(res),
                            "-out", o, "-out_hyps_layer", "hy", "-format", ofmt)
                    feats = cli.read_layer(o, "hy" if ofmt == "gpkg" else None)
                    s.w("hy", raw_hyps(feats, 1e6))
                    ex = [(f["properties"]["bspot_id"], float(f["properties"]["zmin"]), float(f["properties"]["zmax"])) for f in feats]
                    s.p(areas=[ei(float(f["properties"]["cell_area"]) / geo.ca, 1, cli.TOL) for f in feats],
                        ranks=[dict(id=int(k), lo=rank_of(a), hi=rank_of(b)) for k, a, b in ex])
        out.append(("fine:%d" % i, fn))
    for i in range(ctx.n(16, 200)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
