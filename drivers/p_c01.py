"""C01: filled terrain. Library in both modes, memory layouts, float elevations (rank coded), command line, TLC generated DEMs."""
import os
import numpy as np
from common import *
from malstroem.algorithms import fill
import cli


def lib_case(rec, dem_int, scale, native, rng, exotic=False):
    dem = (np.array(dem_int, dtype=np.float64) / scale).astype(np.float32)
    rec.put(dem=gi(dem, scale))
    with mode(native):
        with rec.step("Fill", r=dict(dem="dem")) as s:
            f = fill.fill_terrain(forms(rng, dem) if exotic else dem)
            s.w("filled", gi(f, scale))
    with rec.step("Depths", r=dict(dem="dem", filled="filled")) as s:
        s.w("depths", gi(f - dem, scale))
    return f


def rank_case(rec, dem, native):
    with mode(native):
        keep = dem.copy()
        with rec.step("Fill", r=dict(dem="dem")) as s:
            f = fill.fill_terrain(dem)
            rd, rf = rank(keep, f)
            s.w("filled", rf)
    rec.ev.insert(0, dict(op="Input", r={"_": "_"}, w={"dem": dict(n="dem", v=rd)}, p={"_": 0}, err=""))


def more_digits(rng, a):
    """double precision elevations which are those of a in single precision, the precision elevations are used in"""
    if str(a.dtype) != "float64" or rng.random() < .4:
        return a
    npr = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    b = a + np.where(a == 0, 0, np.spacing(np.abs(a).astype(np.float32)).astype(float)) * (npr.rand(*a.shape) - .5) * .4
    assert (b.astype(np.float32) == a).all()
    return b


def cases(ctx):
    import big
    out = big.c01(ctx)

    def add(name, fn):
        out.append((name, fn))

    # behaviours generated from the specification: DEMs enumerated by TLC
    for i, g in enumerate(GEN):
        dem = g["dem"]
        for native in (True, False):
            def fn(rec, dem=dem, native=native):
                lib_case(rec, dem, 1, native, ctx.rng(rec.name))
            if native or not ctx.quick or i % 4 == 0:
                add("spec:%d:%s" % (i, "n" if native else "p"), fn)
    for i in range(ctx.n(260, 4000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            big = rng.random() < ctx.n(4, 25) / 100.0
            dem = terrain(rng, lo=rng.choice([0, -40, 500]), hi=None or 560, maxside=20 if big else 9) \
                if rng.random() < .1 else terrain(rng, 0, rng.choice([3, 12, 40]), maxside=20 if big else 9)
            lib_case(rec, dem, rng.choice([1, 8, 128]), bool(i % 2), rng, exotic=rng.random() < .4)
        add("lib:%d" % i, fn)
    # every small shape
    for h in range(1, 6):
        for w in range(1, 6):
            for native in (True, False):
                def fn(rec, h=h, w=w, native=native):
                    rng = ctx.rng(rec.name)
                    lib_case(rec, _r(rng, h, w), 4, native, rng)
                add("shape:%dx%d:%s" % (h, w, "n" if native else "p"), fn)
    # float elevations of any magnitude
    for i in range(ctx.n(60, 800)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 8)
            npr = np.random.RandomState(rng.randint(0, 2**31 - 1))
            mag = rng.choice([1e-6, 1.0, 1e3, 1e8, 1e30])
            off = rng.choice([0.0, 0.0, -1e4, 12345.678])
            dem = (npr.standard_normal((h, w)) * mag + off).astype(np.float32)
            if rng.random() < .3:
                dem = np.round(dem / (mag or 1)).astype(np.float32) * np.float32(mag)
            rank_case(rec, dem, bool(i % 2))
        add("float:%d" % i, fn)
    # the tool which complete uses, elevations of any scale
    for i in range(ctx.n(60, 600)):
        def fn(rec, i=i):
            from malstroem.dem import DemTool
            rng = ctx.rng(rec.name)
            scale = 2.0 ** rng.choice([0, 3, 10, 24, 24, 30, 60, -8])
            a = (np.array(terrain(rng, rng.choice([0, -20]), 20, maxside=9)) / scale).astype(rng.choice(["float32", "float32", "float64"]))
            d = rec.dir()
            cli.write_raster(d + "/dem.tif", more_digits(rng, a))
            from malstroem import io
            rec.put(dem=gi(a, scale))
            with rec.step("Fill", r=dict(dem="dem")) as s:
                out = [io.RasterWriter(d + "/%s.tif" % n, (0.0, 1.0, 0.0, 0.0, 0.0, -1.0), "") for n in ("f", "d", "z")]
                DemTool(io.RasterReader(d + "/dem.tif", nodatasubst=-999), *out).process()
                s.w("filled", gi(cli.read_raster(d + "/f.tif"), scale))
            with rec.step("Depths", r=dict(dem="dem", filled="filled")) as s:
                s.w("depths", gi(cli.read_raster(d + "/z.tif"), scale))
        add("tool:%d" % i, fn)
    # command line
    for i in range(ctx.n(24, 250)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            dem = terrain(rng, rng.choice([0, -20]), 20, maxside=9)
            scale = rng.choice([1, 8, 1, 8, 2.0 ** 24, 2.0 ** 40])
            dt = rng.choice(["float32", "float64", "int16"]) if scale == 1 else rng.choice(["float32", "float64"])
            a = (np.array(dem) / scale).astype(dt)
            d = rec.dir()
            cli.write_raster(d + "/dem.tif", more_digits(rng, a))
            rec.put(dem=gi(a, scale))
            with rec.step("Fill", r=dict(dem="dem")) as s:
                cli.run("filled", "-dem", d + "/dem.tif", "-out", d + "/filled.tif")
                s.w("filled", gi(cli.read_raster(d + "/filled.tif"), scale))
            with rec.step("Depths", r=dict(dem="dem", filled="filled")) as s:
                cli.run("depths", "-dem", d + "/dem.tif", "-filled", d + "/filled.tif", "-out", d + "/depths.tif")
                s.w("depths", gi(cli.read_raster(d + "/depths.tif"), scale))
        add("cli:%d" % i, fn)
    for i in range(ctx.n(14, 80)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out


def _r(rng, h, w):
    return [[rng.randint(0, 9) for _ in range(w)] for _ in range(h)]
