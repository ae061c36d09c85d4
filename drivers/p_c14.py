"""C14: approximate water levels."""
import os
import numpy as np
from common import *
import cli
from p_c11 import labels
from p_c13 import dem_for


class Sink:
    def __init__(self):
        self.feats = None

    def write_geojson_features(self, f):
        self.feats = json.loads(json.dumps(list(f)))


def spot_case(rec, rng, native, dyadic=True):
    h, w = shape(rng, 12 if rng.random() < .15 else 8)
    lab = labels(rng, h, w)
    if lab.all():
        lab[0, 0] = 0
    lab = np.array(sorted(set(lab.ravel().tolist()) | {0})).searchsorted(lab).astype(np.int32)
    n = int(lab.max())
    sc = 8
    z = dem_for(rng, h, w, sc)
    z = np.clip(z, -50 * sc, 400 * sc)
    dem = (z / sc).astype(rng.choice(["float32", "float64"]))
    geo = cli.geo_for(rng)
    d = rec.dir()
    steep = rng.random() < .3      # flat bottoms far below the water line
    if steep:
        for k in range(1, n + 1):
            z[lab == k] = int(z[lab == k].min())
            for c in np.argwhere(lab == k):
                z[tuple(c)] += rng.choice([0, 0, 0, 0, 1])
        dem = (z / sc).astype(dem.dtype)
    vs = 2.0 ** rng.choice([0, 0, 0, -20, -12, -7, 5])     # power of two: everything on disk is scaled
    cli.write_raster(d + "/dem.tif", (dem * vs).astype(dem.dtype), transform=geo.transform)
    cli.write_raster(d + "/lab.tif", lab, transform=geo.transform, nodata=0)
    cap, spill, low, relief = {0: 0}, {0: 0}, {0: 0}, 1
    for k in range(1, n + 1):
        zs = z[lab == k]
        spill[k] = int(zs.max()) + (rng.choice([24, 40, 100]) if steep else rng.choice([1, 1, 1, 2, 4, 20]))
        low[k] = int(zs.min())
        cap[k] = int((spill[k] - zs).sum())
        relief = max(relief, spill[k] - low[k])
    if rng.random() < .5:      # the background may hold some depressions which were filtered out
        cap[0] = rng.randint(1, 40)
    top = relief / sc
    fits = [x for x in ([0.125, 0.25, 0.5, 1.0, 2.0, 0.0625, 8.0] if dyadic else [0.01, 0.03, 0.05, 0.1, 0.2, 0.3, 0.7, 1.1]) if 1 / 150 <= x / top]
    res = min(fits or [top / 140]) if steep else rng.choice(fits or [top / 100])
    pp = [(dict(bspot_id=k, cell_row=0, cell_col=0, bspot_area=geo.ca * float((lab == k).sum()), bspot_vol=cap[k] / sc * geo.ca * vs,
                bspot_dmax=(spill[k] - low[k]) / sc * vs, bspot_fumm=1.0, wshed_area=geo.ca), cli.world(geo, 0, 0)) for k in range(n + 1)]
    cli.write_layer(d + "/pp.gpkg", "gpkg", "pourpoints", pp)
    hfmt = rng.choice(["gpkg", "geojson"])
    hy = d + "/hy." + hfmt
    rec.put(lab=gi(lab), dem=[[cli.fine(v) for v in row] for row in dem])
    with mode(native):
        with rec.step("Input"):
            cli.run("hyps", "-bluespots", d + "/lab.tif", "-dem", d + "/dem.tif", "-pourpoints", d + "/pp.gpkg", "-zresolution", repr(res * vs),
                    "-out", hy, "-out_hyps_layer", "hyps", "-format", hfmt)
        k_scen = rng.choice([2, 3, 4, 6])
        fr = sorted(rng.random() for _ in range(k_scen))
        if rng.random() < .6:
            fr[0] = 0.0
        if rng.random() < .6:
            fr[-1] = 1.0
        per = rng.random() < .3
        shares = {k: sorted(rng.choice([0, 0, .1, .3, .5, .9, .97, .9998, 1, 1, rng.random(), 1 - rng.random() / 20]) for _ in fr) for k in range(n + 1)}
        outs = []
        nj = rng.choice([0, 0, 1, 3])
        for s in range(k_scen):
            vol = {}
            for k in range(n + 1):
                c = cap[k] * 1000          # in 1/8000 m * cell
                vol[k] = min(c, int(c * (shares[k][s] if per else fr[s])))
            rows = []
            for k in range(n + 1):
                rows.append(dict(nodeid=k, nodetype="pourpoint", bspot_id=k, v=vol[k] / cli.F * geo.ca * vs, spillv=0.0, inputv=vol[k] / cli.F * geo.ca * vs,
                                 bspot_vol=cap[k] / sc * geo.ca * vs, dstrnodeid=None, pctv=None))
            for j in range(nj):
                rows.append(dict(nodeid=n + 1 + j, nodetype="junction", bspot_id=None, v=0.0, spillv=1.0, inputv=0.0, bspot_vol=0.0,
                                 dstrnodeid=0, pctv=None))
            if rng.random() < .4:
                rng.shuffle(rows)
            src, fmt = cli.out_name(rng, d, "fv%d" % s)
            cli.write_layer(src, fmt, "finalvolumes", [(q, cli.world(geo, 0, 0)) for q in rows])
            outs.append((src, fmt, rows, vol))
        res_levels = []
        with rec.step("Input"):
            for s, (src, fmt, rows, vol) in enumerate(outs):
                if rng.random() < .5:
                    o, ofmt = cli.out_name(rng, d, "lv%d" % s, ("gpkg", "geojson"))
                    cli.run("finallevels", "-finalvols", src, *(["-finalvols_layer", "finalvolumes"] if fmt == "gpkg" or rng.random() < .5 else []),
                            "-hyps", hy, "-hyps_layer", "hyps", "-out", o, "-out_layer", "lv", "-format", ofmt)
                    res_levels.append(cli.read_layer(o, "lv" if ofmt == "gpkg" else None))
                else:
                    from malstroem import approx, io
                    sink = Sink()
                    approx.approx_water_level_io(io.VectorReader(src, "finalvolumes"), io.VectorReader(hy, "hyps"), sink)
                    res_levels.append(sink.feats)
        allz = [float(f["properties"]["approx_z"]) for fs in res_levels for f in fs]
        rk, last, i = {}, None, -1
        for v in sorted(set(allz)):     # equal up to the rounding of text formats
            if last is None or v - last > 1e-9 * max(vs, abs(v)):
                i += 1
            rk[v], last = i, v
        for s, fs in enumerate(res_levels):
            r = dict(lab="lab", dem="dem")
            if s:
                r["prev"] = "lev%d" % (s - 1)
            with rec.step("Levels", r=r, res=cli.fine(res) + 1, slack=2) as st:
                out = []
                for f in fs:
                    q = f["properties"]
                    k = q["bspot_id"]
                    out.append(dict(id=cli.none(k), v=outs[s][3].get(k, -1), cap=cap.get(k, -1) * 1000, level=cli.fine(q["approx_z"] / vs),
                                    lrank=rk[float(q["approx_z"])], dmax=cli.fine(q["approx_dmax"] / vs), spill=spill.get(k, 0) * 1000))
                st.w("lev", out, "lev%d" % s)
            # the volume is handed on
            with rec.step("SameState", what="volume") as st:
                st.p(a=sorted([cli.none(f["properties"]["bspot_id"]), ei(f["properties"]["v"] / geo.ca / vs * cli.F, 1, cli.TOL)] for f in fs),
                     b=sorted([k, v] for k, v in outs[s][3].items()))


def cases(ctx):
    import big
    out = big.c14(ctx)
    for i in range(ctx.n(200, 3000)):
        out.append(("levels:%d" % i, lambda rec, i=i: spot_case(rec, ctx.rng(rec.name), bool(i % 4), True)))
    for i in range(ctx.n(120, 2000)):
        out.append(("anyres:%d" % i, lambda rec, i=i: spot_case(rec, ctx.rng(rec.name), bool(i % 4), False)))
    for i in range(ctx.n(24, 300)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
