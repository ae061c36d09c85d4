"""C17: raster input and output."""
import os
import numpy as np
from common import *
from malstroem import io
import cli

DIRECT = ["float64", "float32", "int32", "uint32", "int16", "uint16", "uint8"]
NARROW = ["int64", "uint64", "int8", "bool", "float16", ">f4", ">i2", ">i4", "int64", "int64"]
ranges = {"int32": (-2 ** 31, 2 ** 31 - 1), "uint32": (0, 2 ** 32 - 1), "int16": (-2 ** 15, 2 ** 15 - 1), "uint16": (0, 2 ** 16 - 1), "uint8": (0, 255),
          "int8": (-128, 127)}


def values(rng, dt, h, w):
    kind = np.dtype(dt).kind
    if kind == "b":
        return np.array([[rng.random() < .5 for _ in range(w)] for _ in range(h)])
    if kind == "f":
        pool = [0.0, -0.0, 1.0, -1.5, 0.1, 1 / 3, 1e-3, -999.0, -9999.0, 3.5, 65504.0, 12345.678] + \
            ([float("nan"), float("inf"), float("-inf")] if dt not in NARROW else []) + \
            ([1e-30, 3.4028234663852886e+38, -3.4028234663852886e+38, 1e-45] if np.dtype(dt).itemsize >= 4 else []) + \
            ([1e300, -1e300, 5e-324, 1 + 2 ** -52] if dt == "float64" else [])
        f = (lambda: rng.choice(pool)) if rng.random() < .6 else (lambda: float(np.float32(rng.gauss(0, 100))))
        return np.array([[f() for _ in range(w)] for _ in range(h)]).astype(dt)
    key = str(np.dtype(dt).newbyteorder("="))
    if key in ("int64", "uint64"):     # representable in some supported type
        lo, hi = ranges[rng.choice(["int32", "uint32", "int16", "uint16", "uint8"])]
        if key == "uint64":
            lo = max(lo, 0)
    else:
        lo, hi = ranges[key]
    small = rng.random() < .4
    k = lambda: rng.choice([lo, hi, lo + 1, hi - 1, max(lo, 0), min(hi, 1), min(hi, 127), min(hi, 128), min(hi, 255), min(hi, 256), min(hi, 32768), min(hi, 65535), min(hi, 65536)]) \
        if not small else rng.randint(max(lo, -3), min(hi, 12))
    return np.array([[k() for _ in range(w)] for _ in range(h)], dtype=dt)


def transform_for(rng):
    if rng.random() < .2:
        return (0.0, 1.0, 0.0, 0.0, 0.0, 1.0) if rng.random() < .3 else (rng.uniform(-1e6, 1e6), 0.1, 0.0, rng.uniform(-1e6, 1e7), 0.0, -0.1)
    return cli.geo_for(rng, rng.random() < .4).transform


def crs_for(rng):
    return cli.crs_wkt(rng, [25832, 25832, 4326, 3857, None])


def file_rec(arr, tr, crs, nd):
    if nd is not None and arr.dtype.kind == "f" and arr.dtype.itemsize <= 4:
        nd = float(np.float32(nd))
    return dict(cells=gc(arr), transform=[canon(v) for v in tr], crs=cli.srs_key(crs), nodata="" if nd is None else canon(nd),
                res=[canon(abs(tr[5])), canon(abs(tr[1]))])


def read_rec(path, subst):
    before = [cli.file_digest(path), sorted(os.listdir(os.path.dirname(path)))]
    r = io.RasterReader(path) if subst is None else io.RasterReader(path, nodatasubst=subst)
    # every read gives the raster anew, whatever became of the arrays read before
    b = r.read()
    first = gc(b)
    b += b.dtype.type(1)
    a = r.read()
    assert gc(a) == first
    out = dict(cells=gc(a), transform=[canon(v) for v in r.transform], crs=cli.srs_key(r.crs), nodata="" if r.nodata is None else canon(r.nodata),
               shape=[int(x) for x in r.shape], resolution=[canon(x) for x in r.resolution])
    del r
    out["file_unchanged"] = before == [cli.file_digest(path), sorted(os.listdir(os.path.dirname(path)))]
    return out


ND = {"float32": [-9999.0, -999.0, 0.0, float("nan"), -3.4028234663852886e+38, 1e20, -32768.0, 3.5, 1.0], "float64": [-9999.0, 0.0, float("nan"), -1.7976931348623157e+308, 0.1, 255.0],
      "int32": [-9999, 0, -999, 255, 65535, -32768, 2147483647, -2147483648, 999999, 1000000], "int16": [-9999, 0, -32768, 255, 32767], "uint8": [0, 255, 1, 128], "uint16": [0, 65535, 255, 9999], "uint32": [0, 255, 65535, 4294967295, 1000000]}


def cases(ctx):
    import big
    out = big.c17(ctx)
    for i in range(ctx.n(500, 6000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, rng.choice([4, 9, 9, 20]))
            if rng.random() < .06:
                h, w = rng.choice([(1, 300), (257, 3), (130, 140), (256, 2)])
            dt = rng.choice(DIRECT + NARROW)
            a = values(rng, dt, h, w)
            if a.dtype.kind in "iu" and str(a.dtype) in ("int64", "uint64") and int(a.min()) < 0 and int(a.max()) > 2 ** 31 - 1:
                a = np.where(a > 2 ** 31 - 1, 7, a)
            tr, crs = transform_for(rng), crs_for(rng)
            d = rec.dir()
            path = os.path.join(d, rng.choice(["a.tif", "b c.tif", "x.TIF", "noext", "æ.tif"]))
            nd = rng.choice([None, None] + ND.get(str(a.dtype.newbyteorder("=")), [0]))
            with rec.step("RasterWrite") as s:
                wtr = io.RasterWriter(path, tr, crs, nd) if rng.random() < .5 else io.RasterWriter(path, tr, crs, nodata=nd)
                arr = forms(rng, a)
                a0 = gc(a)
                wtr.write(arr)
                assert gc(arr) == a0, "the written array was changed"
                s.w("file", file_rec(a, tr, crs, nd))
            with rec.step("RasterRead", r=dict(file="file"), subst="") as s:
                s.p(out=read_rec(path, None))
        out.append(("write:%d" % i, fn))
    # 64 bit integers whose extremes are at, next to and across the limits of each supported type
    ends = sorted({v + k for v in (0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1) for k in (-1, 0, 1)} - {2 ** 32})
    lows = [0, 1, -1, -127, -128, -129, -32767, -32768, -32769, -2 ** 31 + 1, -2 ** 31]
    pairs = [(lo, hi) for lo in lows for hi in ends if lo <= hi and not (lo < 0 and hi > 2 ** 31 - 1)]
    pairs += [(lo, hi) for lo in [-5, -128, -129, -32768, -32769, -2 ** 31] for hi in (-1, -2) if lo <= hi]
    for i, (lo, hi) in enumerate(pairs):
        def fn(rec, lo=lo, hi=hi, i=i):
            rng = ctx.rng(rec.name)
            h, w = rng.randint(1, 3), rng.randint(2, 4)
            vals = [lo, hi] + [rng.choice([lo, hi, (lo + hi) // 2]) for _ in range(h * w - 2)]
            rng.shuffle(vals)
            a = np.array(vals, dtype="uint64" if lo >= 0 and i % 2 else "int64").reshape(h, w)
            nd = rng.choice([None, None, lo, hi, 0]) if lo >= 0 or hi < 2 ** 31 else None
            tr, crs = transform_for(rng), crs_for(rng)
            path = rec.dir() + "/a.tif"
            with rec.step("RasterWrite") as s:
                io.RasterWriter(path, tr, crs, nd).write(forms(rng, a))
                s.w("file", file_rec(a, tr, crs, nd))
            with rec.step("RasterRead", r=dict(file="file"), subst="") as s:
                s.p(out=read_rec(path, None))
        out.append(("limits:%d" % i, fn))
    # 64 bit integers that no supported type holds: refused, or written as they are
    wide = [(0, 2 ** 32), (7, 2 ** 32 + 1), (0, 2 ** 40), (-1, 2 ** 31), (-129, 2 ** 32 - 1), (-2 ** 31 - 1, 0), (-2 ** 31 - 1, -5), (-2 ** 31, 2 ** 31), (-2 ** 40, 2 ** 40),
            (0, 2 ** 63 - 1), (-2 ** 63, 3), (-32769, 2 ** 32), (2 ** 32, 2 ** 33)]
    for i, (lo, hi) in enumerate(wide):
        def fn(rec, lo=lo, hi=hi, i=i):
            rng = ctx.rng(rec.name)
            a = np.array([[lo, hi, hi], [(lo + hi) // 2, lo, 1 if lo <= 1 <= hi else lo]], dtype="uint64" if lo >= 0 and rng.random() < .5 else "int64")
            tr, crs = transform_for(rng), crs_for(rng)
            path = rec.dir() + "/a.tif"
            try:
                io.RasterWriter(path, tr, crs, None).write(a)
            except Exception:     # refused, in whatever way
                return
            with rec.step("RasterWrite") as s:
                s.w("file", file_rec(a, tr, crs, None))
            with rec.step("RasterRead", r=dict(file="file"), subst="") as s:
                s.p(out=read_rec(path, None))
        out.append(("wide:%d" % i, fn))
    # files from elsewhere, with and without substitute
    for i in range(ctx.n(500, 6000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 9)
            dt = rng.choice(DIRECT + ["int64"] * (rng.random() < .3))
            key = dt if dt != "int64" else "int32"
            lo, hi = ranges.get(key, (-1000, 1000))
            nd = rng.choice(ND[key]) if rng.random() < .9 else None
            if np.dtype(dt).kind == "f":
                pool = [0.0, 1.0, -1.0, 2.5, -9999.0, -999.0, 255.0, 100.125, -3.0, float("nan"), float("inf"), 1e-6, -9998.0, -10000.0, 0.5, 3.0, 3.6, 65535.0]
            else:
                pool = [x for x in [0, 1, 2, 254, 255, 256, -1, -9999, -9998, -10000, -999, 65535, 65534, 32767, 32766, -32768, -32767, 9999, 128] if lo <= x <= hi]
            if nd is not None and nd == nd:
                if np.dtype(dt).kind == "f":       # (floats within rounding of nodata are nodata)
                    pool = [x for x in pool if x != x or x == nd or abs(x - nd) > 2e-5 * abs(nd)]
                else:
                    pool += [x for x in (nd - 1, nd + 1, nd - 7, nd + 3, nd - 100, nd + 1000) if lo <= x <= hi]
                pool += [nd] * 5
            if nd is not None and nd != nd:
                pool = pool + [nd] * 4
            a = np.array([[rng.choice(pool) for _ in range(w)] for _ in range(h)]).astype(dt)
            if nd is not None and rng.random() < .1:
                a[:] = nd
            tr, crs = transform_for(rng), crs_for(rng)
            d = rec.dir()
            path = d + "/in.tif"
            subst = rng.choice([None, -999, -999, -999, 0, -9999, 1, -999.0, -1e6, 70000, 2.5] if np.dtype(dt).kind == "f" else [None, -999, -999, -999, 0, 7, 300, 70000, -9999])
            with rec.step("Input") as s:
                cli.write_raster(path, a, nodata=nd, transform=tr, crs=crs)
                s.w("file", file_rec(a, tr, crs, nd))
            with rec.step("RasterRead", r=dict(file="file"), subst="" if subst is None else canon(subst)) as s:
                s.p(out=read_rec(path, subst))
            if rng.random() < .4:
                with rec.step("RasterRead", r=dict(file="file"), subst="") as s:
                    s.p(out=read_rec(path, None))
            if rng.random() < .4:      # the other driver options: tiled and compressed elsewhere
                sub2 = rng.choice([-999, 5])
                with rec.step("RasterRead", r=dict(file="file"), subst=canon(sub2)) as s:
                    from osgeo import gdal
                    o = rng.choice([["TILED=YES", "COMPRESS=LZW"], ["COMPRESS=DEFLATE"], ["INTERLEAVE=BAND"]])
                    gdal.Translate(d + "/t.tif", path, creationOptions=o)
                    os.remove(path)
                    s.p(out=read_rec(d + "/t.tif", sub2))
        out.append(("read:%d" % i, fn))
    # every command that reads elevations treats a nodata cell as an elevation of -999 m
    for i in range(ctx.n(40, 400)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = rng.randint(3, 9), rng.randint(3, 9)
            dt = rng.choice(["float32", "float32", "float64", "int16", "int32", "uint8", "uint16"])
            nd = rng.choice([x for x in ND[dt] if abs(x) < 1e6 and not (x == -999)] + ([float("nan")] if dt[0] == "f" else []))
            a = np.array(terrain(rng, 10, 40, hw=(h, w))).astype(dt)
            for _ in range(rng.randint(1, 5)):
                a[rng.randrange(h), rng.randrange(w)] = nd
            isnd = np.isnan(a) if nd != nd else a == nd
            b = np.where(isnd, -999, a).astype("float64" if dt in ("float64", "int32") else "float32")
            geo = cli.geo_for(rng)
            d = rec.dir()
            cli.write_raster(d + "/nd.tif", a, nodata=nd, transform=geo.transform)
            cli.write_raster(d + "/plain.tif", b, transform=geo.transform)
            one = os.path.join(d, "one")
            with rec.step("Input"):
                cli.run("complete", "-dem", d + "/plain.tif", "-outdir", one, "-mm", "20", "-zresolution", "5") if os.mkdir(one) is None else 0
                cli.run("pourpts", "-bluespots", one + "/bluespots.tif", "-depths", one + "/bs_depths.tif", "-watersheds", one + "/watersheds.tif", "-dem", d + "/plain.tif",
                        "-out", one + "/pd.gpkg", "-format", "gpkg")
            lay = lambda p, n: [[f["properties"], f.get("geometry")] for f in cli.read_layer(p, n)]
            db = one + "/malstroem.gpkg"
            both = {
                "filled": lambda o: (cli.run("filled", "-dem", d + "/nd.tif", "-out", o + ".tif"), gc(cli.read_raster(o + ".tif")), gc(cli.read_raster(one + "/filled.tif"))),
                "depths": lambda o: (cli.run("depths", "-dem", d + "/nd.tif", "-filled", one + "/filled.tif", "-out", o + ".tif"), gc(cli.read_raster(o + ".tif")), gc(cli.read_raster(one + "/bs_depths.tif"))),
                "flowdir": lambda o: (cli.run("flowdir", "-dem", d + "/nd.tif", "-out", o + ".tif"), gc(cli.read_raster(o + ".tif")), gc(cli.read_raster(one + "/flowdir.tif"))),
                "pourpts": lambda o: (cli.run("pourpts", "-bluespots", one + "/bluespots.tif", "-depths", one + "/bs_depths.tif", "-watersheds", one + "/watersheds.tif", "-dem", d + "/nd.tif",
                                              "-out", o + ".gpkg", "-format", "gpkg"), lay(o + ".gpkg", "pourpoints"), lay(one + "/pd.gpkg", "pourpoints")),
                "hyps": lambda o: (cli.run("hyps", "-bluespots", one + "/bluespots.tif", "-dem", d + "/nd.tif", "-pourpoints", db, "-zresolution", "5", "-out", o + ".gpkg", "-format", "gpkg"),
                                   lay(o + ".gpkg", "hyps"), lay(db, "hypsometry")),
                "finalbluespots": lambda o: (cli.run("finalbluespots", "-bluespots", one + "/bluespots.tif", "-dem", d + "/nd.tif", "-finallevels", db, "-out_depths", o + ".tif", "-out_bluespots", o + "b.tif"),
                                             [gc(cli.read_raster(o + ".tif")), gc(cli.read_raster(o + "b.tif"))], [gc(cli.read_raster(one + "/finaldepths.tif")), gc(cli.read_raster(one + "/finalbluespots.tif"))]),
            }
            for nm, f in both.items():
                with rec.step("SameRead", cmd=nm) as s:
                    _, x, y = f(os.path.join(d, "two_" + nm))
                    s.p(a=digest(x), b=digest(y))
        out.append(("cli:%d" % i, fn))
    return out
