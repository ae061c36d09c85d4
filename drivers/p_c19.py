"""C19: the complete command and the chain of subcommands."""
import hashlib, os
import numpy as np
from common import *
import cli

RASTERS = ["filled", "bs_depths", "flowdir", "bluespots", "watersheds", "finaldepths", "finalbluespots"]
LAYERS = ["pourpoints", "nodes", "streams", "initvolumes", "finalstate", "hypsometry", "finallevels"]


def tree(d):
    res = []
    for base, ds, fs in os.walk(d):
        for n in sorted(ds + fs):
            p = os.path.join(base, n)
            st = os.lstat(p)
            dg = ""
            if os.path.isfile(p) and not os.path.islink(p):
                dg = hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
            res.append([os.path.relpath(p, d), dg, str(st.st_mtime_ns) if not os.path.isdir(p) else ""])
    return sorted(res)


def val(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return str(v)
    return "%.10g" % (v + 0.0 if v else 0.0)


def layer(path, name):
    fs = cli.read_layer(path, name)
    res = []
    for f in fs:
        g = f.get("geometry")
        res.append([sorted([k, val(v)] for k, v in f["properties"].items()), [] if g is None else [g["type"], json.dumps(_round(g["coordinates"]))]])
    return res


def near(a, b):
    """b, with numbers which only differ from those of a by rounding written like them"""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [near(x, y) for x, y in zip(a, b)]
    if isinstance(a, str) and isinstance(b, str) and a != b:
        try:
            x, y = float(a), float(b)
        except ValueError:
            return b
        if abs(x - y) <= 1e-8 * max(abs(x), abs(y)) + 1e-12:
            return a
    return b


def near_level(a, b, da, db):
    """extent b with the cells at the very water line like in a (water levels which passed through a text format are rounded)"""
    if a.shape == b.shape == da.shape == db.shape:
        return np.where((np.abs(da) < 1e-5) & (np.abs(db) < 1e-5), a, b)
    return b


def _round(c):
    return [_round(x) for x in c] if isinstance(c, (list, tuple)) else round(float(c), 5) + 0.0


def polyset(path, name, geo):
    res = []
    for f in cli.read_layer(path, name):
        cells = [sorted([r[0], r[1]] for r in ring[:-1]) for ring in cli.rings(f["geometry"], geo)]
        res.append([int(f["properties"]["bspot_id"]), sorted(cells)])
    return sorted(res)


def chain_files(p, o):
    """the chain with one GeoJSON file per layer and default layer names; returns the path and name of each layer"""
    os.makedirs(o)
    f = lambda n: os.path.join(o, n)
    J = ["-format", "geojson"]
    cli.run("flowdir", "-dem", p.path, "-out", f("flowdir.tif"))
    cli.run("filled", "-dem", p.path, "-out", f("filled.tif"))
    if p.accum:
        cli.run("accum", "-flowdir", f("flowdir.tif"), "-out", f("accum.tif"))
    cli.run("depths", "-filled", f("filled.tif"), "-dem", p.path, "-out", f("bs_depths.tif"))
    cli.run("bspots", "-depths", f("bs_depths.tif"), *(["-filter", p.filter] if p.filter else []), "-out", f("bluespots.tif"))
    cli.run("wsheds", "-bluespots", f("bluespots.tif"), "-flowdir", f("flowdir.tif"), "-out", f("watersheds.tif"))
    cli.run("pourpts", "-bluespots", f("bluespots.tif"), "-depths", f("bs_depths.tif"), "-watersheds", f("watersheds.tif"), "-out", f("pp.geojson"), *J,
            *(["-accum", f("accum.tif")] if p.accum else ["-dem", p.path]))
    cli.run("network", "-bluespots", f("bluespots.tif"), "-flowdir", f("flowdir.tif"), "-pourpoints", f("pp.geojson"), "-pourpoints_layer", "pourpoints",
            "-out", f("net"), "-out_nodes_layer", "nodes", "-out_streams_layer", "streams", "-format", "gpkg")
    cli.run("hyps", "-bluespots", f("bluespots.tif"), "-dem", p.path, "-pourpoints", f("pp.geojson"), "-zresolution", repr(p.zres), "-out", f("hy.geojson"), *J)
    cli.run("initvolumes", "-nodes", f("net"), "-mm", repr(p.mm), "-out", f("iv.geojson"), *J)
    cli.run("finalvolumes", "-inputvolumes", f("iv.geojson"), "-out", f("fv.geojson"), *J)
    cli.run("finallevels", "-finalvols", f("fv.geojson"), "-hyps", f("hy.geojson"), "-out", f("fl.geojson"))
    cli.run("finalbluespots", "-bluespots", f("bluespots.tif"), "-dem", p.path, "-finallevels", f("fl.geojson"), "-out_depths", f("finaldepths.tif"),
            "-out_bluespots", f("finalbluespots.tif"))
    cli.run("polys", "-raster", f("finalbluespots.tif"), "-out", f("net"), "-layername", "finalbluespots", "-format", "gpkg")
    if p.vector:
        cli.run("polys", "-raster", f("bluespots.tif"), "-out", f("net"), "-layername", "bluespots", "-format", "gpkg")
        cli.run("polys", "-raster", f("watersheds.tif"), "-out", f("net"), "-layername", "watersheds", "-format", "gpkg")
    return dict(pourpoints=(f("pp.geojson"), None), nodes=(f("net"), "nodes"), streams=(f("net"), "streams"), initvolumes=(f("iv.geojson"), None),
                finalstate=(f("fv.geojson"), None), hypsometry=(f("hy.geojson"), None), finallevels=(f("fl.geojson"), None),
                finalbluespots=(f("net"), "finalbluespots"), bluespots=(f("net"), "bluespots"), watersheds=(f("net"), "watersheds"))


def cases(ctx):
    import big
    out = big.c19(ctx)
    for i in range(ctx.n(110, 1500)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, maxside=9, rotated=rng.random() < .15, scaling=True)
            if rng.random() < .25:      # any elevations, not only exact ones
                a = p.a.copy()
                m = np.ones(a.shape, bool) if p.nodata is None else a != a.dtype.type(p.nodata)
                a[m] += np.array([rng.random() * rng.choice([.05, 1, 3]) for _ in range(int(m.sum()))], dtype=a.dtype)
                cli.write_raster(p.path, (a * p.vs).astype(a.dtype), nodata=p.nodata, transform=p.geo.transform, crs=p.crs)
            a, b = os.path.join(p.d, "complete"), os.path.join(p.d, "chain")
            db = os.path.join(a, "malstroem.gpkg")
            text = rng.random() >= .6 and p.vs == 1
            with rec.step("Input"):
                cli.complete(p, a)
                if not text:
                    cli.chain(p, b)
                    where = {n: (os.path.join(b, "malstroem.gpkg"), p.name(n)) for n in LAYERS + ["finalbluespots", "bluespots", "watersheds"]}
                else:
                    where = chain_files(p, b)
            for n in RASTERS + (["accum"] if p.accum else []):
                with rec.step("SameArtefact", what=n) as s:
                    x, y = (cli.read_raster(os.path.join(q, n + ".tif")) for q in (a, b))
                    if text and n == "finalbluespots":
                        y = near_level(x, y, *(cli.read_raster(os.path.join(q, "finaldepths.tif")) for q in (a, b)))
                    if text and n == "finaldepths" and x.shape == y.shape:
                        y = np.where(np.abs(x - y) < 1e-5, x, y)
                    s.p(a=gc(x), b=gc(y))
            for n in LAYERS:
                with rec.step("SameArtefact", what=n) as s:
                    x, y = layer(db, n), layer(*where[n])
                    if where[n][0].endswith("geojson"):     # text formats drop columns without any value
                        drop = lambda l: [[[kv for kv in q if kv[1] != "None"], g] for q, g in l]
                        x, y = drop(x), drop(y)
                    s.p(a=x, b=near(x, y))
            for n in ([] if text else ["finalbluespots"]) + (["bluespots", "watersheds"] if p.vector else []):
                with rec.step("SameArtefact", what=n + "_polygons") as s:
                    s.p(a=polyset(db, n, p.geo), b=polyset(*where[n], p.geo))
            with rec.step("SameArtefact", what="names") as s:
                want = {n + ".tif" for n in RASTERS + (["accum"] if p.accum else [])} | {"malstroem.gpkg"}
                s.p(a=sorted(x for x in os.listdir(a) if not x.endswith((".gpkg-wal", ".gpkg-shm"))), b=sorted(want))
        out.append(("same:%d" % i, fn))
    for i in range(ctx.n(40, 300)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, maxside=6)
            o = os.path.join(p.d, "outdir")
            os.makedirs(o)
            what = rng.choice(["file", "hidden", "subdir", "link", "named", "gpkg", "self"])
            if what == "file":
                open(o + "/notes.txt", "w").write("mine")
            elif what == "hidden":
                open(o + "/.keep", "w")
            elif what == "subdir":
                os.makedirs(o + "/sub")
            elif what == "link":
                os.symlink(p.d + "/nowhere", o + "/link")
            elif what == "named":
                open(o + "/" + rng.choice(["filled.tif", "malstroem.gpkg", "nodes.shp", "finaldepths.tif"]), "w").write("mine")
            elif what == "gpkg":
                cli.write_layer(o + "/malstroem.gpkg", "gpkg", "nodes", [(dict(nodeid=1), (0.0, 0.0))])
            elif what == "self":
                cli.write_raster(o + "/dem.tif", p.a, nodata=p.nodata, transform=p.geo.transform, crs=p.crs)
                p.path = o + "/dem.tif"
            before = tree(o)
            with rec.step("Refuses") as s:
                args = ["complete", "-dem", p.path, "-outdir", o + rng.choice(["", "/"]), "-mm", "10", "-zresolution", repr(p.zres)] + rng.choice([[], ["-accum"], ["-vector"]])
                cli.invoke(*args)
                after = tree(o)
                s.p(refused=len(after) == len(before), before=before, after=after)
        out.append(("refuse:%d" % i, fn))
    return out
