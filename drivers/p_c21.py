"""C21: polygonized id rasters."""
import os
import numpy as np
from common import *
from malstroem import io, vector
import cli


def id_raster(rng, h, w):
    """regions of equal id: touching each other and themselves by edges and corners, with holes, nested, scattered"""
    R = rng.randint
    k = rng.choice(["rand", "few", "blocks", "rings", "checker", "diag", "scatter", "one", "none", "full", "gaps"])
    if k == "rand":
        n = R(1, 6)
        return [[R(0, n) for _ in range(w)] for _ in range(h)]
    if k == "few":
        p = rng.choice([.3, .6])
        return [[(1 if rng.random() < p else 0) for _ in range(w)] for _ in range(h)]
    if k == "blocks":
        g = [[0] * w for _ in range(h)]
        for i in range(R(1, 6)):
            r0, c0, r1, c1 = R(0, h - 1), R(0, w - 1), R(1, h), R(1, w)
            v = R(0, 4)
            for r in range(r0, min(h, r0 + r1)):
                for c in range(c0, min(w, c0 + c1)):
                    g[r][c] = v
        return g
    if k == "rings":
        m = R(2, 4)
        o = R(0, 3)
        return [[(min(r, c, h - 1 - r, w - 1 - c) + o) % m for c in range(w)] for r in range(h)]
    if k == "checker":
        a, b = rng.choice([(1, 0), (1, 2), (0, 3)])
        return [[a if (r + c) % 2 else b for c in range(w)] for r in range(h)]
    if k == "diag":
        m = R(2, 4)
        return [[(1 + (r - c) % m) if (r + c) % m == 0 or (r - c) % m == 1 else 0 for c in range(w)] for r in range(h)]
    if k == "scatter":
        n = R(2, 40)
        return [[(R(1, n) if rng.random() < .3 else 0) for _ in range(w)] for _ in range(h)]
    if k == "one":
        g = [[0] * w for _ in range(h)]
        g[R(0, h - 1)][R(0, w - 1)] = R(1, 9)
        return g
    if k == "none":
        return [[0] * w for _ in range(h)]
    if k == "full":
        v = R(1, 300)
        return [[v] * w for _ in range(h)]
    ids = [R(1, 100000) for _ in range(3)] + [0]
    return [[rng.choice(ids) for _ in range(w)] for _ in range(h)]


def crs_of(path, layer=None):
    return digest(cli.srs_key(cli.layer_crs(path, layer)))


def feats(rec, fs, geo, attr="bspot_id"):
    return [dict(id=int(f["properties"][attr]), rings=cli.rings(f["geometry"], geo)) for f in fs]


OTHER = None


def other_crs(rng, fmt="gpkg"):
    return cli.crs_wkt(rng, [25832, 25832, 32633, 3857], fmt=fmt)


def raster_case(ctx, name, g=None, sink=None):
    def fn(rec):
        rng = ctx.rng(rec.name)
        geo = cli.geo_for(rng, rng.random() < .35)
        big = rng.random() < .06
        h, w = (rng.randint(20, 40), rng.randint(20, 40)) if big else shape(rng, 10)
        a = np.array(g if g is not None else id_raster(rng, h, w), dtype=np.int64)
        fits = [d for d in ["int32", "int32", "uint8", "int16", "uint16", "uint32"] if a.max() <= np.iinfo(d).max]
        a = a.astype(rng.choice(fits))
        d = rec.dir()
        fmt = rng.choice(["gpkg", "gpkg", "geojson", "ESRI shapefile"])
        crs = other_crs(rng, {"ESRI shapefile": "shp"}.get(fmt, fmt))
        src = os.path.join(d, "ids.tif")
        via = rng.random() < .5
        # background: the nodata value, usually 0
        nod = rng.choice([0, 0, 0, 0, None, int(a.ravel()[rng.randrange(a.size)])])
        if via:
            io.RasterWriter(src, geo.transform, crs, *([nod] if nod is not None or rng.random() < .5 else [])).write(a)
        else:
            cli.write_raster(src, a, nodata=nod, transform=geo.transform, crs=crs)
        rec.put(g=gi(a))
        kind = sink or rng.choice(["polys", "polys", "iter"])
        if fmt == "geojson":      # always WGS84
            crs = None
        ext = {"gpkg": "gpkg", "geojson": "geojson", "ESRI shapefile": "shp"}[fmt]
        with rec.step("Polys", r=dict(g="g"), u=-1 if nod is None else nod) as s:
            out = os.path.join(d, "out." + ext)
            layer = None
            if kind == "polys":
                if fmt == "gpkg":
                    layer = "areas"
                    if rng.random() < .5:      # into a datasource which already has a layer
                        cli.write_layer(out, "gpkg", "first", [(dict(a=1), (5.0, 6.0))])
                elif fmt == "ESRI shapefile":
                    layer = "out"
                if geo.b or geo.d or fmt != "geojson":
                    pass
                cli.run("polys", "-raster", src, "-out", out, "-format", fmt, *(["-layername", layer] if layer else []))
                fs = [] if fmt == "ESRI shapefile" and not os.path.exists(out) else cli.read_layer(out, layer)
                s.p(feats=feats(rec, fs, geo), crs_in=digest(cli.srs_key(crs)) if crs else "", crs_out=crs_of(out, layer) if crs else "")
            else:
                attr = rng.choice(["bspot_id", "wid"])
                fs = list(vector.vectorize_labels_file(src, attr) if attr != "bspot_id" or rng.random() < .5 else vector.vectorize_labels_file(src))
                s.p(feats=feats(rec, fs, geo, attr), crs_in="", crs_out="")
    return name, fn


def cases(ctx):
    import big
    out = big.c21(ctx)
    for i, g in enumerate(x["ids"] for x in GEN if "ids" in x):
        out.append(raster_case(ctx, "spec:%d" % i, g, sink="iter" if i % 4 else None))
    for i in range(ctx.n(260, 5000)):
        out.append(raster_case(ctx, "raster:%d" % i))
    # bluespot and watershed outputs of whole calculations, final bluespots of one or two scenarios
    for i in range(ctx.n(40, 800)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, rotated=rng.random() < .2)
            p.vector = True
            out = os.path.join(p.d, "out")
            two = rng.random() < .4
            with rec.step("Input"):
                (cli.complete if rng.random() < .6 else cli.chain)(p, out)
                if two:
                    cli.scenario(p, out, rng.choice([1.0, 5.0, 25.0]), "_2")
            db = out + "/malstroem.gpkg"
            for nm in ("bluespots", "watersheds", "finalbluespots") + (("finalbluespots_2",) if two else ()):
                cli.polys(rec, p, gi(cli.read_raster("%s/%s.tif" % (out, nm))), db, p.name(nm), nm)
        out.append(("whole:%d" % i, fn))
    return out
