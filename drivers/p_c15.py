"""C15: final extents and depths."""
import os
import numpy as np
from common import *
from malstroem import approx, io
import cli
from p_c11 import labels
from p_c13 import dem_for


def levels_for(rng, z, lab, n, sc):
    """water level (in 1/sc m) per id: below, at, between and above the elevations of the bluespot"""
    lv = {0: rng.choice([0, -999 * sc, 3 * sc, 100 * sc])}
    for k in range(1, n + 1):
        zs = sorted(set(z[lab == k].tolist())) or [0]
        lv[k] = rng.choice([zs[0], zs[-1], zs[len(zs) // 2], zs[0] - rng.randint(0, 5), zs[-1] + rng.randint(1, 30), (zs[0] + zs[-1]) // 2,
                            zs[len(zs) // 2] + rng.choice([-1, 1])])
    return lv


def cases(ctx):
    import big
    out = big.c15(ctx)
    for i in range(ctx.n(300, 4000)):
        def lib(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 14 if rng.random() < .1 else 8)
            lab = labels(rng, h, w)
            n = int(lab.max())
            sc = 8
            z = dem_for(rng, h, w, sc)
            dt = rng.choice(["float32", "float32", "float64", "int32"])
            if dt == "int32":
                z = (z // sc) * sc
            dem = (z / sc).astype(dt)
            lv = levels_for(rng, z, lab, n, sc)
            ldt = rng.choice(["int32", "int32", "uint8", "int16", "int64", "uint16", "uint32"])
            lb = np.array(forms(rng, lab.astype(ldt)))
            rec.put(lab=gi(lab), dem=gi(dem, sc), levels=[dict(id=k, z=v) for k, v in lv.items()])
            keys = list(lv)
            if rng.random() < .5:
                rng.shuffle(keys)
            d0 = dem.copy()
            with rec.step("FinalLabels", r=dict(lab="lab", dem="dem", levels="levels")) as s:
                fl, fd = approx.approx_bluespots(lb, {k: lv[k] / sc for k in keys}, dem)
                s.w("flab", gi(fl))
            with rec.step("FinalDepths", r=dict(lab="lab", dem="dem", levels="levels")) as s:
                s.w("fdepth", gi(fd, sc))
            with rec.step("Unchanged") as s:
                s.p(before=digest(gi(d0, sc)), after=digest(gi(dem, sc)))
        out.append(("lib:%d" % i, lib))
    for i in range(ctx.n(60, 900)):
        def fine(rec, i=i):
            """levels and elevations with all their digits, as near to each other as doubles can be: only their order counts"""
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 8)
            lab = labels(rng, h, w)
            n = int(lab.max())
            dt = rng.choice(["float64", "float64", "float32"])
            base = rng.choice([0.0, 10.1, -3.7, 1234.567, 1e-3, 16777216.0])
            dem = np.array([[base + rng.choice([0, 1e-9, -1e-9, 1e-6, .05, -.05, rng.random()]) for _ in range(w)] for _ in range(h)]).astype(dt)
            lv = {0: -999.0}
            for k in range(1, n + 1):
                zs = dem[lab == k].astype(np.float64).tolist() or [base]
                z = rng.choice(zs)
                lv[k] = float(rng.choice([z, np.nextafter(z, np.inf), np.nextafter(z, -np.inf), z + 1e-9, z - 1e-9, z + 1e-6, z + .03]))
            ranks = {v: j for j, v in enumerate(sorted(set(lv.values()) | set(dem.astype(np.float64).ravel().tolist())))}
            rec.put(lab=gi(lab), dem=[[ranks[float(v)] for v in row] for row in dem], levels=[dict(id=k, z=ranks[v]) for k, v in lv.items()])
            if i % 3:
                with rec.step("FinalLabels", r=dict(lab="lab", dem="dem", levels="levels")) as s:
                    fl, _ = approx.approx_bluespots(lab.astype("int32"), dict(lv), dem.copy())
                    s.w("flab", gi(fl))
            else:
                d = rec.dir()
                cli.write_raster(d + "/dem.tif", dem)
                cli.write_raster(d + "/lab.tif", lab.astype("int32"), nodata=0)
                cli.write_layer(d + "/fl.gpkg", "gpkg", "finallevels", [(dict(nodeid=k, nodetype="pourpoint", bspot_id=k, v=1.0, approx_z=v, approx_dmax=1.0),
                                                                         (600000.0 + k, 6200000.0)) for k, v in lv.items()])
                with rec.step("FinalLabels", r=dict(lab="lab", dem="dem", levels="levels")) as s:
                    cli.run("finalbluespots", "-bluespots", d + "/lab.tif", "-dem", d + "/dem.tif", "-finallevels", d + "/fl.gpkg",
                            "-finallevels_layer", "finallevels", "-out_bluespots", d + "/fb.tif")
                    s.w("flab", gi(cli.read_raster(d + "/fb.tif")))
        out.append(("fine:%d" % i, fine))
    for i in range(ctx.n(160, 2000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 14 if rng.random() < .1 else 8)
            lab = labels(rng, h, w)
            sc = 8
            z = dem_for(rng, h, w, sc)
            nd = None
            dem = (z / sc).astype(rng.choice(["float32", "float64"]))
            rd = dem
            if rng.random() < .3:      # nodata cells are treated as -999 m
                nd = rng.choice([-9999.0, 0.0, 3.0])
                dem = dem.copy()
                for _ in range(rng.randint(1, 4)):
                    dem[rng.randrange(h), rng.randrange(w)] = nd
                rd = np.where(dem == dem.dtype.type(nd), dem.dtype.type(-999), dem)
                z = np.where(rd == -999, -999 * sc, z)
            n = int(lab.max())
            lv = levels_for(rng, z, lab, n, sc)
            geo = cli.geo_for(rng)
            d = rec.dir()
            cli.write_raster(d + "/dem.tif", dem, transform=geo.transform, nodata=nd)
            ldt = rng.choice(["int32", "int32", "uint8", "uint16", "int16"])
            cli.write_raster(d + "/lab.tif", lab.astype(ldt), transform=geo.transform, nodata=rng.choice([0, 0, None]))
            rows = []
            for k in range(n + 1):
                rows.append(dict(nodeid=k, nodetype="pourpoint", bspot_id=k, v=1.0, approx_z=lv[k] / sc, approx_dmax=1.0))
            for j in range(rng.choice([0, 0, 2])):
                rows.append(dict(nodeid=n + 1 + j, nodetype="junction", bspot_id=None, v=0.0, approx_z=None, approx_dmax=None))
            if rng.random() < .6:
                rng.shuffle(rows)
            src, fmt = cli.out_name(rng, d, "fl")
            cli.write_layer(src, fmt, "finallevels", [(q, cli.world(geo, 0, 0)) for q in rows])
            rec.put(lab=gi(lab), dem=gi(rd, sc), levels=[dict(id=k, z=v) for k, v in lv.items()])
            names = ["dem.tif", "lab.tif"] + [os.path.basename(src)]
            before = [cli.file_digest(os.path.join(d, x)) for x in names]

            def command(od, ol):
                args = ["finalbluespots", "-bluespots", d + "/lab.tif", "-dem", d + "/dem.tif", "-finallevels", src, "-finallevels_layer", "finallevels"]
                if od:
                    args += ["-out_depths", od]
                if ol:
                    args += ["-out_bluespots", ol]
                cli.run(*args)
            which = rng.choice(["both", "split", "split"])
            with rec.step("Input"):
                if which == "both":
                    command(d + "/fd.tif", d + "/fb.tif")
                elif rng.random() < .5:
                    command(d + "/fd.tif", None)
                    command(None, d + "/fb.tif")
                else:
                    command(None, d + "/fb.tif")
                    command(d + "/fd.tif", None)
            with rec.step("FinalDepths", r=dict(lab="lab", dem="dem", levels="levels")) as s:
                s.w("fdepth", gi(cli.read_raster(d + "/fd.tif"), sc))
            with rec.step("FinalLabels", r=dict(lab="lab", dem="dem", levels="levels")) as s:
                s.w("flab", gi(cli.read_raster(d + "/fb.tif")))
            with rec.step("Unchanged") as s:
                s.p(before=before, after=[cli.file_digest(os.path.join(d, x)) for x in names])
            if rng.random() < .3:       # the steps in the other combination
                with rec.step("FinalLabels", r=dict(lab="lab", dem="dem", levels="levels")) as s:
                    command(d + "/fd2.tif", d + "/fb2.tif")
                    s.w("flab", gi(cli.read_raster(d + "/fb2.tif")))
                with rec.step("FinalDepths", r=dict(lab="lab", dem="dem", levels="levels")) as s:
                    s.w("fdepth", gi(cli.read_raster(d + "/fd2.tif"), sc))
        out.append(("cli:%d" % i, fn))
    for i in range(ctx.n(24, 300)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
