"""C18: vector input and output, world coordinates."""
import os
import numpy as np
from common import *
from osgeo import ogr
from malstroem import io
from malstroem.vector import transform_cell_to_world
import cli

GT = dict(point=ogr.wkbPoint, line=ogr.wkbLineString, polygon=ogr.wkbPolygon, none=ogr.wkbNone)
STR = ["", "a", "pourpoint", "junction", "2|1|0|3", "æøå Ł", 'quote " and, comma; \\ back', "0", "12", "1.5", "null", "true", "x" * 300, "line\nbreak", " lead", "-1", "None"]
DATES = ["2020-01-01", "2021/02/03", "1999-12-31", "12:30:00", "2020-01-01T12:00:00Z", "2020-01-01T12:00:00", "2026-11-20 04:00:00"]
INTS = [0, 1, -1, 7, 255, 256, 65536, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 40, -999]
REALS = [0.0, 1.0, -1.5, 0.1, 1 / 3, 1e-7, 123456789.125, 1e15, -999.0, 6200000.5, 2.5e-5, 100.0]


def attr(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "b:%s" % v
    if isinstance(v, (int, float)):
        return "n:%.12g" % v
    return "s:" + v


def attrs(q, cols):
    return [[c, attr(q.get(c))] for c in cols] + [[c, attr(v)] for c, v in sorted(q.items()) if c not in cols and c != "fid"]


def geom(g):
    if g is None:
        return ["none"]

    def flat(c):
        if c and isinstance(c[0], (int, float)):
            return ["%.6f" % (round(v * 1e6) / 1e6 + 0.0) for v in c[:2]]
        return [flat(x) for x in c]
    c = flat(g["coordinates"])
    if g["type"] == "Polygon":      # a ring is the same in both directions (shapefiles prescribe one)
        c = [min(r, r[::-1]) if r[0] == r[-1] else r for r in c]
    return [g["type"], json.dumps(c)]


def features(rng, kind, n, fmt="gpkg"):
    """fmt: what the format itself cannot hold is left out (GeoJSON files turn dates into dates; shapefiles have short names, short text and no empty text)"""
    strs = STR if fmt != "shp" else [t for t in STR if 0 < len(t) < 200 and t == t.strip() and "\n" not in t and "Ł" not in t]
    names = rng.sample(["nodeid", "bspot_id", "bspot_vol", "inputv", "nodetype", "hist_counts", "A", "long_attribute_name_x", "v", "navn", "cell_row"], rng.randint(1, 6))
    if fmt == "shp":
        names = [c[:10] for c in names]
    types = {c: rng.choice(["int", "real", "str", "str"] + (["date", "day"] if fmt != "geojson" else [])) for c in names}
    nulls = rng.random() < .5
    res = []
    X0, Y0 = rng.choice([(600000.0, 6200000.0), (0.0, 0.0), (-1234.5, 77.25)])
    pt = lambda: [X0 + rng.randint(-4000, 4000) / 8, Y0 + rng.randint(-4000, 4000) / 8]
    for i in range(n):
        q = {}
        for c in names:
            t = types[c]
            q[c] = rng.choice(INTS) if t == "int" else rng.choice(REALS) if t == "real" else rng.choice(DATES) if t == "date" else \
                rng.choice(DATES[:3]) if t == "day" else rng.choice(strs)
            if nulls and rng.random() < .25:
                q[c] = None
        g = None
        if kind == "point":
            g = dict(type="Point", coordinates=pt())
        elif kind == "line":
            g = dict(type="LineString", coordinates=[pt() for _ in range(rng.randint(2, 12))])
        elif kind == "polygon":
            x, y = pt()
            w, h = rng.randint(2, 9), rng.randint(2, 9)
            ring = lambda a, b, c, d: [[a, b], [c, b], [c, d], [a, d], [a, b]]
            rs = [ring(x, y, x + w, y + h)]
            if rng.random() < .4:
                rs.append(ring(x + .5, y + .5, x + 1, y + 1)[::-1])
            g = dict(type="Polygon", coordinates=rs)
        f = dict(type="Feature", properties=q, geometry=g)
        if rng.random() < .3:
            f = {k: f[k] for k in rng.sample(list(f), 3)}
        res.append(f)
    return names, res


def layer_rec(names, feats, crs):
    return dict(feats=[dict(attrs=attrs(f["properties"], names), geom=geom(f["geometry"])) for f in feats], crs=crs)


def read_back(path, layer, names, mode_):
    r = io.VectorReader(path, layer) if mode_ != "default" else io.VectorReader(path)
    fs = r.read_geojson_features()
    # a reader can be used again
    again = r.read_geojson_features()
    assert json.dumps(fs) == json.dumps(again)
    for _ in r.read_ogr_feature():
        break
    r.reset_reader()
    assert len(r.read_geojson_features()) == len(fs)
    crs = cli.srs_key(r.crs)
    del r
    return dict(feats=[dict(attrs=attrs(f["properties"], names), geom=geom(f.get("geometry"))) for f in fs], crs=crs)


def cases(ctx):
    import big
    out = big.c18(ctx)
    for i in range(ctx.n(450, 5000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            d = rec.dir()
            fmt = rng.choice(["gpkg", "gpkg", "GPKG", "geojson", "GeoJSON", "ESRI Shapefile", "esri shapefile"])
            short = "shp" if fmt[0] in "eE" else fmt.lower()
            path = os.path.join(d, "x" + {"shp": "", "gpkg": ".gpkg", "geojson": ".geojson"}[short])
            k = 1 if fmt.lower() == "geojson" else rng.choice([1, 1, 2, 3, 4])
            written = []
            crs = cli.WKT
            if rng.random() < .5:
                crs = cli.crs_wkt(rng, [3857, 4326], fmt=short)
            order = ["lay%d" % j for j in range(k)] if rng.random() < .6 else ["nodes", "streams", "final_state", "æble"][:k]
            for ln in order:
                kind = rng.choice(["point", "point", "line", "polygon", "none"])
                names, fs = features(rng, kind, rng.choice([0, 1, 1, 2, 5, 20] + [300] * (rng.random() < .1)), short)
                with rec.step("VectorWrite") as s:
                    w = io.VectorWriter(fmt, path, ln, None, GT[kind], crs) if rng.random() < .5 else io.VectorWriter(fmt, path, ln, None, GT[kind], crs, dsco=[], lco=[])
                    form = rng.choice(["list", "list", "tuple", "gen", "values", "collection"])
                    src = json.loads(json.dumps(fs))
                    w.write_geojson_features(src if form == "list" else tuple(src) if form == "tuple" else (x for x in src) if form == "gen"
                                             else dict(enumerate(src)).values() if form == "values" else dict(type="FeatureCollection", features=src))
                    s.w("layer", layer_rec(names, fs, "" if kind == "none" else cli.srs_key(crs)), ln)
                written.append((ln, names, kind, fs))
                # earlier layers are still what they were
                if rng.random() < .4:
                    l0, n0, k0, _ = rng.choice(written)
                    with rec.step("VectorRead", r=dict(layer=l0)) as s:
                        o = read_back(path, l0, n0, "name")
                        if k0 == "none":
                            o["crs"] = ""
                        s.p(out=o)
            for j, (ln, names, kind, fs) in enumerate(written):
                with rec.step("VectorRead", r=dict(layer=ln)) as s:
                    how = rng.choice(["name", "name", "index", "default"]) if short != "shp" else "name"      # (files of a directory have no order)
                    if fmt.lower() == "gpkg" and len(set((x[2] == "none") for x in written)) > 1:
                        how = "name"       # the driver lists tables without geometry last
                    if how == "default" and j:
                        how = "name"
                    o = read_back(path, j if how == "index" else ln, names, how)
                    if kind == "none":
                        o["crs"] = ""
                    s.p(out=o)
        out.append(("rw:%d" % i, fn))
    for i in range(ctx.n(150, 2000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            for _ in range(4):
                geo = cli.geo_for(rng, rng.random() < .6)
                pts = []
                with rec.step("World") as s:
                    for _ in range(6):
                        r, c = rng.choice([(0, 0), (rng.randint(0, 20), rng.randint(0, 20)), (rng.randint(0, 30000), rng.randint(0, 30000))])
                        cell = (r, c) if rng.random() < .7 else [np.int64(r), np.int64(c)]
                        x, y = transform_cell_to_world(cell, geo.transform if rng.random() < .5 else list(geo.transform))
                        ux, uy = geo.units(x, y)
                        pts.append(dict(row=r + 1, col=c + 1, x=ux, y=uy))
                    s.p(geo=geo.spec(), pts=pts)
        out.append(("world:%d" % i, fn))
    for i in range(ctx.n(60, 700)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, rotated=rng.random() < .6, maxside=9)
            o = os.path.join(p.d, "out")
            with rec.step("Input"):
                (cli.complete if rng.random() < .5 else cli.chain)(p, o)
            cli.record(rec, p, o)
            # the layers derived from the nodes still carry their positions
            db = os.path.join(o, "malstroem.gpkg")
            base = cli.read_layer(db, "nodes")
            for ln in ("initvolumes", "finalstate"):
                with rec.step("World") as s:
                    s.p(geo=p.geo.spec(), pts=[dict(row=int(f["properties"]["cell_row"]) + 1, col=int(f["properties"]["cell_col"]) + 1,
                                                    **dict(zip(("x", "y"), p.geo.units(*f["geometry"]["coordinates"][:2])))) for f in cli.read_layer(db, p.name(ln))])
            rec.put(nodelayer=dict(feats=[dict(attrs=[], geom=geom(f["geometry"])) for f in base], crs=cli.WKT_FROM(p)))
            for ln in ("pourpoints", "initvolumes", "finalstate", "streams", "finalbluespots"):
                fs = cli.read_layer(db, p.name(ln))
                rec.put(**{"g_" + ln: dict(feats=[dict(attrs=[], geom=geom(f["geometry"])) for f in fs], crs=cli.WKT_FROM(p))})
                with rec.step("VectorRead", r=dict(layer="nodelayer" if ln in ("initvolumes", "finalstate") else "g_" + ln)) as s:
                    s.p(out=dict(feats=[dict(attrs=[], geom=geom(f["geometry"])) for f in fs], crs=cli.srs_key(cli.layer_crs(db, p.name(ln)))))
        out.append(("layers:%d" % i, fn))
    return out
