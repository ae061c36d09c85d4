"""C03: flow directions."""
import numpy as np
from common import *
from malstroem.algorithms import fill, flow
from p_c02 import recommended, plain, pairs, ULP
import cli


def cases(ctx):
    import big
    out = big.c03(ctx)
    for i, g in enumerate(GEN):
        for native in (True, False):
            def fn(rec, g=g, native=native):
                t = np.array(g["dem"], dtype=np.float64)
                rec.put(t=plain(t, 1.0))
                with mode(native):
                    with rec.step("Flowdir", r=dict(t="t"), outward=True) as s:
                        s.w("fd", gi(flow.terrain_flowdirection(t, edges_flow_outward=True)))
            if native or not ctx.quick or i % 4 == 0:
                out.append(("spec:%d:%s" % (i, "n" if native else "p"), fn))
    # arbitrary terrains (flats, pits): library, both border modes
    for i in range(ctx.n(220, 3000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            scale = rng.choice([1, 1, 4, 256])
            lo, hi = rng.choice([(0, 3), (0, 12), (-200, 200), (3000, 3400), (0, 20000)])
            t = np.array(terrain(rng, lo, hi, maxside=9), dtype=np.float64) / scale
            rec.put(t=plain(t, 1.0 / scale))
            with mode(bool(i % 2)):
                for outward in ((True, False) if rng.random() < .3 else (rng.random() < .7,)):
                    with rec.step("Flowdir", r=dict(t="t"), outward=outward) as s:
                        a = forms(rng, t)
                        f = flow.terrain_flowdirection(a, edges_flow_outward=outward) if rng.random() < .8 or not outward \
                            else flow.terrain_flowdirection(a)
                        s.w("fd", gi(f))
        out.append(("lib:%d" % i, fn))
    # slopes which differ as little as integers allow
    near = [(q, p) for q in range(1, 23000) for p in [int(round(q * 2 ** .5))] if abs(p / q - 2 ** .5) < 1.0 / (q * q) or
            (abs(p / q - 2 ** .5) < 2e-5 and q > 9000 and q % 17 == 0)]
    for i in range(ctx.n(120, 900)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = rng.choice([(3, 3), (3, 3), (3, 7), (7, 3), (7, 7)])
            base = rng.choice([0, 40000, -31000])
            t = np.full((h, w), base + 47005, dtype=np.float64)
            for r in range(1, h - 1, 4):
                for c in range(1, w - 1, 4):
                    q, p = rng.choice(near) if rng.random() < .8 else rng.choice([(70, 99), (985, 1393), (5741, 8119), (13860, 19601), (408, 577)])
                    q, p = q + rng.choice([0, 0, 0, 0, 1, -1]), p + rng.choice([0, 0, 0, 1, -1])
                    q, p = max(q, 1), max(p, 1)
                    z = base + 47000 + rng.randint(0, 3)
                    t[r, c] = z
                    orth, diag = [(0, 1), (0, -1), (1, 0), (-1, 0)], [(1, 1), (1, -1), (-1, 1), (-1, -1)]
                    rng.shuffle(orth)
                    rng.shuffle(diag)
                    for k, (a, b) in enumerate(orth[:rng.choice([1, 1, 2])]):
                        t[r + a, c + b] = z - (q if k == 0 else rng.choice([q, max(q - 1, 0)]))
                    for k, (a, b) in enumerate(diag[:rng.choice([1, 1, 2])]):
                        t[r + a, c + b] = z - (p if k == 0 else rng.choice([p, max(p - 1, 0)]))
            k = 2.0 ** rng.choice([0, 0, -10, -20, 7])
            rec.put(t=plain(t, 1.0))
            with mode(bool(i % 2)):
                with rec.step("Flowdir", r=dict(t="t"), outward=True) as s:
                    s.w("fd", gi(flow.terrain_flowdirection(t * k, edges_flow_outward=True)))
        out.append(("near:%d" % i, fn))
    # the flat-free terrain of a DEM: exact steepest descent and drainage
    for i in range(ctx.n(120, 1500)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            native = bool(i % 2)
            dem, n, exact = recommended(rec, rng, native, maxside=14 if rng.random() < .06 else 9)
            if not exact:
                return
            rec.ev = [dict(op="Input", r={"_": "_"}, w={"t": dict(n="t", v=pairs(n, 8, 8 * ULP)),
                                                       "filled": dict(n="filled", v=gi(fill.fill_terrain(dem), 8))}, p={"_": 0}, err="")]
            with mode(native):
                with rec.step("FlowdirDem", r=dict(filled="filled")) as s:
                    f = flow.terrain_flowdirection(n)
                    s.w("fd", gi(f))
                with rec.step("FlowdirOf", r=dict(t="t", fd="fd")):
                    pass
        out.append(("nofl:%d" % i, fn))
    # any DEM (all magnitudes, float64, nodata) through the command line
    for i in range(ctx.n(60, 700)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 9)
            k = rng.random()
            nodata = None
            if k < .5:
                a = np.array(terrain(rng, 512, 512 + rng.choice([3, 30, 400]), hw=(h, w)), dtype=np.float64) / 8
                a = a.astype(rng.choice(["float32", "float64"]))
                exact = True
            else:
                exact = False
                a = np.array(terrain(rng, -5, 5, hw=(h, w)), dtype=np.float64) * rng.choice([1e-3, .3, 777.77]) + rng.choice([0, 0, 12345.6])
                a = a.astype(rng.choice(["float32", "float64"]))
                if rng.random() < .4:
                    nodata = rng.choice([-9999.0, 0.0])
                    for _ in range(rng.randint(1, 6)):
                        a[rng.randrange(h), rng.randrange(w)] = nodata
            d = rec.dir()
            cli.write_raster(d + "/dem.tif", a, nodata=nodata)
            from malstroem import io
            dem = io.RasterReader(d + "/dem.tif", -999).read().astype(np.float32)
            filled = fill.fill_terrain(dem)
            rec.put(filled=rank(filled)[0])
            with rec.step("FlowdirDem", r=dict(filled="filled")) as s:
                cli.run("flowdir", "-dem", d + "/dem.tif", "-out", d + "/fd.tif")
                s.w("fd", gi(cli.read_raster(d + "/fd.tif")))
            if exact:
                short, diag = fill.minimum_safe_short_and_diag(dem)
                n = fill.fill_terrain_no_flats(dem, short, diag)
                rec.put(t=pairs(n, 8, 8 * ULP))
                with rec.step("FlowdirOf", r=dict(t="t", fd="fd")):
                    pass
        out.append(("cli:%d" % i, fn))
    for i in range(ctx.n(6, 60)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
