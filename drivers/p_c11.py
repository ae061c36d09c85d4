"""C11: input volumes."""
import os
import numpy as np
from common import *
import cli


def node_table(rng, geo, lab, extra_wshed=None):
    """node layer rows: pour points 0..n and junctions with larger ids, any order"""
    n = int(lab.max())
    nj = rng.choice([0, 0, 1, 3])
    ids = list(range(n + 1)) + [n + 1 + j for j in range(nj)]
    rows = []
    for k in ids:
        j = k > n
        down = rng.choice([x for x in ids if x > k] + [None])
        cells = 0 if j else (extra_wshed[k] if extra_wshed else rng.choice([0, 1, 2, 7, 100, 5000]))
        rows.append(dict(nodeid=k, dstrnodeid=down, nodetype="junction" if j else "pourpoint", cell_row=rng.randint(0, 9), cell_col=rng.randint(0, 9),
                         bspot_id=None if j else k, bspot_area=0.0 if j else 2 * geo.ca, bspot_vol=0.0 if j else geo.ca * rng.randint(0, 50) / 8,
                         wshed_area=cells * geo.ca))
    if rng.random() < .5:
        rng.shuffle(rows)
    return rows


def enc_rows(rows, geo):
    return [dict(id=q["nodeid"], junction=q["nodetype"] == "junction", wsh=ei(q["wshed_area"] / geo.ca, 1, cli.TOL)) for q in rows]


def put_nodes(rec, rng, rows, d, geo):
    src, fmt = cli.out_name(rng, d, "nodes")
    cli.write_layer(src, fmt, "nodes", [(q, cli.world(geo, q["cell_row"], q["cell_col"])) for q in rows])
    rec.put(nodes=enc_rows(rows, geo))
    return src


def labels(rng, h, w):
    k = rng.choice(["rand", "all", "few", "none"])
    n = rng.randint(1, 6)
    p = dict(rand=.5, all=1.1, few=.15, none=-1)[k]
    lab = np.array([[(rng.randint(1, n) if rng.random() < p else 0) for _ in range(w)] for _ in range(h)])
    ids = sorted(set(lab.ravel().tolist()) - {0})
    return np.array([[(ids.index(v) + 1 if v else 0) for v in row] for row in lab.tolist()], dtype=np.int32)


def read_vols(path, fmt, layer, attr, unit):
    feats = cli.read_layer(path, None if fmt == "geojson" else layer)
    return [dict(id=int(f["properties"]["nodeid"]), vol=ei(f["properties"][attr] * unit, 1, cli.TOL)) for f in feats]


def cases(ctx):
    import big
    out = big.c11(ctx)
    for i in range(ctx.n(110, 1200)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            geo = cli.geo_for(rng)
            d = rec.dir()
            lab = labels(rng, *shape(rng, 6))
            w = None
            cells = 0
            if rng.random() < .6:      # watersheds which partition the raster
                flat = np.random.RandomState(rng.randrange(2 ** 31)).randint(0, lab.max() + 1, lab.size)
                w = [int(x) for x in np.bincount(flat, minlength=lab.max() + 1)]
                cells = int(lab.size)
            rows = node_table(rng, geo, lab, w)
            src = put_nodes(rec, rng, rows, d, geo)
            mm8 = rng.choice([0, 1, 3, 8, 20, 80, 100, 801, 8000, 40000])
            attr = rng.choice(["inputv", "inputv", "rain_20", "x", "volume"])
            o, fmt = cli.out_name(rng, d, "o")
            lay = rng.choice(["initvolumes", "iv2"])
            with rec.step("RainMm", r=dict(nodes="nodes"), mm=mm8, cells=cells) as s:
                args = ["initvolumes", "-nodes", src, "-nodes_layer", "nodes", "-mm", repr(mm8 / 8), "-out", o, "-out_layer", lay, "-format", fmt]
                if attr != "inputv":
                    args += ["-out_attribute", attr]
                cli.run(*args)
                s.w("vols", read_vols(o, fmt, lay, attr, cli.F / geo.ca))
        out.append(("mm:%d" % i, fn))
    for i in range(ctx.n(180, 2000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            geo = cli.geo_for(rng)
            d = rec.dir()
            h, w = shape(rng, 8)
            lab = labels(rng, h, w)
            rows = node_table(rng, geo, lab)
            src = put_nodes(rec, rng, rows, d, geo)
            dt = rng.choice(["float32", "float32", "float64", "int16", "int32", "uint8", "uint16"])
            top = rng.choice([1, 8, 60, 255])
            pr = np.array([[rng.randint(0, top) for _ in range(w)] for _ in range(h)])
            sc = 1
            if dt.startswith("float"):
                sc = 8
                pr = pr / 8.0
            elif rng.random() < .3 and dt in ("int32", "int16", "uint16"):
                pr = pr * 100
            if rng.random() < .1:
                pr = pr * 0
            if dt in ("float64", "int32") and rng.random() < .2:       # more digits than single precision has
                if dt == "int32":
                    pr = np.array([[(1 << 24) + rng.randint(0, 9) for _ in range(w)] for _ in range(h)])
                else:
                    sc = 1 << 25
                    pr = np.array([[rng.choice([0, 1, 3]) + rng.randint(0, 9) / sc for _ in range(w)] for _ in range(h)])
                lim = (1 << 30) // max(1, int(pr.max() * sc))
                pr.ravel()[lim:] = 0          # sums must stay below 2^31 units
            pr = pr.astype(dt)
            ldt = rng.choice(["int32", "int32", "uint8", "uint16", "int16"])
            cli.write_raster(d + "/pr.tif", pr, transform=geo.transform)
            cli.write_raster(d + "/lab.tif", lab.astype(ldt), transform=geo.transform, nodata=rng.choice([None, 0]))
            unit = rng.choice(["mm", "mm", "l", "m3"])
            factor = dict(mm=1000 / geo.ca, l=1000, m3=1)[unit] * sc
            rec.put(lab=gi(lab), pr=gi(pr, sc))
            o, fmt = cli.out_name(rng, d, "o")
            attr = rng.choice(["inputv", "inputv", "pv"])
            with mode(bool(i % 2)):
                with rec.step("RainRaster", r=dict(nodes="nodes", lab="lab", pr="pr")) as s:
                    args = ["initvolumes", "-nodes", src, "-nodes_layer", "nodes", "-pr", d + "/pr.tif", "-bluespots", d + "/lab.tif",
                            "-out", o, "-out_layer", "iv", "-format", fmt]
                    if unit != "mm" or rng.random() < .5:
                        args += ["-pr_unit", unit]
                    if attr != "inputv":
                        args += ["-out_attribute", attr]
                    cli.run(*args)
                    s.w("vols", read_vols(o, fmt, "iv", attr, factor))
        out.append(("raster:%d" % i, fn))
    # uniform raster against even rain, over the results of a whole calculation
    for i in range(ctx.n(24, 240)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name) if i else random.Random("hollows 2")      # case 0 is the same for every seed
            p = cli.setup(rec, rng) if i else cli.setup(rec, rng, hw=(9, 9), kinds=RICH, relief=60, nodata=False)
            p.mm8 = max(p.mm8, 1)
            p.mm = p.mm8 / 8
            o = os.path.join(p.d, "out")
            with rec.step("Input"):
                cli.chain(p, o)
            db = o + "/malstroem.gpkg"
            pr = np.full(p.dem.shape, p.mm, dtype=rng.choice(["float32", "float64"]))
            cli.write_raster(p.d + "/pr.tif", pr, transform=p.geo.transform)
            over = "watersheds" if i % 4 else "bluespots"
            a = cli.read_layer(db, "initvolumes")
            rec.put(nodes=[dict(id=f["properties"]["nodeid"], junction=f["properties"]["nodetype"] == "junction",
                                wsh=ei(f["properties"]["wshed_area"] / p.geo.ca, 1, cli.TOL)) for f in a],
                    a=cli.enc_vols(a, p), lab=gi(cli.read_raster("%s/%s.tif" % (o, over))), pr=gi(pr, 8))
            with rec.step("RainRaster", r=dict(nodes="nodes", lab="lab", pr="pr")) as s:
                cli.run("initvolumes", "-nodes", db, "-pr", p.d + "/pr.tif", "-bluespots", "%s/%s.tif" % (o, over), "-out", p.d + "/v.gpkg",
                        "-format", "gpkg")
                s.w("vols", cli.enc_vols(cli.read_layer(p.d + "/v.gpkg", "initvolumes"), p), "b")
            with rec.step("RainSame", r=dict(a="a", b="b"), over=over):
                pass
        out.append(("uniform:%d" % i, fn))
    for i in range(ctx.n(16, 200)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
