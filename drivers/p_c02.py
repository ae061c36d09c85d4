"""C02: flat-free terrain."""
import math
import numpy as np
from common import *
from malstroem.algorithms import fill


def pairs(vals, zscale, kunit):
    """float64 grid -> grid of [z, k]: v = z/zscale + k*kunit, 0 <= k*kunit < 1/zscale"""
    res = []
    for row in np.asarray(vals, dtype=np.float64):
        out = []
        for v in row:
            if not math.isfinite(v) or abs(v) > 1e8:
                out.append([SENT, SENT])
                continue
            z = math.floor(v * zscale)
            out.append([int(z), ei((v - z / zscale) / kunit)])
        res.append(out)
    return res


def plain(vals, unit):
    """grid of [0, k] with v = k * unit"""
    return [[[0, ei(v / unit)] for v in row] for row in np.asarray(vals, dtype=np.float64)]


def log2f(x):
    return math.frexp(x)[1] - 1


def steps_event(rec, dem, short, diag):
    m = max(abs(float(v)) for v in dem.ravel())
    with rec.step("Steps") as s:
        s.p(positive=bool(short > 0 and diag > 0), diag_over_short=bool(short < diag < 2 * short) or m == 0 and diag >= short,
            zero=m == 0.0, e_short=log2f(float(short)) if short > 0 else -5000, e_max=log2f(m) if m > 0 else 0)


def binade_dem(rng, maxside, scale=8):
    """terrain with all elevations within 64..126 m: the recommended steps are exact multiples of one unit"""
    lo = 64 * scale
    return np.array(terrain(rng, lo, lo + rng.choice([1, 4, 40, 480]), maxside=maxside), dtype=np.float64) / scale


ULP = 2.0 ** -46          # float64 ulp in [64, 128)


def recommended(rec, rng, native, maxside=9, exotic=False, dem=None):
    scale = 8
    if dem is None:
        dem = binade_dem(rng, maxside, scale).astype(np.float32)
    with mode(native):
        with rec.step("Steps") as s:
            short, diag = fill.minimum_safe_short_and_diag(dem)
        rec.ev.pop()
        steps_event(rec, dem, short, diag)
        rec.put(dem=pairs(dem, scale, 8 * ULP))
        ks, kd = short / (8 * ULP), round(diag / ULP) / 8
        exact = ks == int(ks) and kd == int(kd) and ks < 4096
        with rec.step("NoFlats" if exact else "NoFlatsOrder", r=dict(dem="dem")) as s:
            n = fill.fill_terrain_no_flats(forms(rng, dem) if exotic else dem, short, diag)
            if exact:
                s.p(short=int(ks), diag=int(kd))
                s.w("nofl", pairs(n, scale, 8 * ULP))
            else:
                rd, rn = rank(dem, n)
                s.w("nofl", rn)
                rec.ev[-1]["w"]["dem"]["v"] = rd
    return dem, n, exact


def cases(ctx):
    import big
    out = big.c02(ctx)
    for i, g in enumerate(GEN):
        for native in (True, False):
            def fn(rec, g=g, i=i, native=native):
                dem = np.array(g["dem"], dtype=np.float32)
                g = dict(zip(("short", "diag"), [(1, 2), (2, 3), (4, 6), (16, 24), (7, 7)][i % 5]))
                with mode(native):
                    rec.put(dem=plain(dem, 2.0 ** -4))
                    with rec.step("NoFlats", r=dict(dem="dem"), short=g["short"], diag=g["diag"]) as s:
                        n = fill.fill_terrain_no_flats(dem, g["short"] / 16.0, g["diag"] / 16.0)
                        s.w("nofl", plain(n, 2.0 ** -4))
            if native or not ctx.quick or i % 4 == 0:
                out.append(("spec:%d:%s" % (i, "n" if native else "p"), fn))
    for i in range(ctx.n(220, 3000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            recommended(rec, rng, bool(i % 2), maxside=16 if rng.random() < .05 else 9, exotic=rng.random() < .3)
        out.append(("safe:%d" % i, fn))
    # explicit dyadic steps, large or small compared to the relief
    for i in range(ctx.n(160, 2500)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            unit = 2.0 ** -10
            scale = rng.choice([1, 4, 64])
            dem = (np.array(terrain(rng, rng.choice([-9, 0]), 9, maxside=9), dtype=np.float64) / scale).astype(np.float32)
            short = rng.choice([1, 3, 16, 100, 700])
            diag = rng.choice([short, short + 1, (short * 181) // 128 + 1, 2 * short, max(1, short // 2)])
            with mode(bool(i % 2)):
                rec.put(dem=plain(dem, unit))
                with rec.step("NoFlats", r=dict(dem="dem"), short=short, diag=diag) as s:
                    s.w("nofl", plain(fill.fill_terrain_no_flats(dem, short * unit, diag * unit), unit))
        out.append(("steps:%d" % i, fn))
    # any magnitude with the recommended steps: order only
    for i in range(ctx.n(120, 1500)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 8)
            npr = np.random.RandomState(rng.randint(0, 2**31 - 1))
            mag = rng.choice([1e-20, 1e-3, 1.0, 100.0, 1e6, 1e30])
            off = rng.choice([0.0, 0.0, 0.0, -7.0, 3e5, -3e5])
            t = np.array(terrain(rng, -6, 6, hw=(h, w)), dtype=np.float64)
            k = rng.random()
            dem = (t * mag + off) if k < .6 else npr.standard_normal((h, w)) * mag + off
            if k > .9:
                dem = -np.abs(dem)
            if rng.random() < .07:
                dem = np.full((h, w), rng.choice([0.0, -999.0, 5.5]))
            dem = dem.astype(np.float32)
            with mode(bool(i % 2)):
                with rec.step("Steps"):
                    short, diag = fill.minimum_safe_short_and_diag(dem)
                rec.ev.pop()
                steps_event(rec, dem, short, diag)
                with rec.step("NoFlatsOrder", r=dict(dem="dem")) as s:
                    n = fill.fill_terrain_no_flats(dem, short, diag)
                    rd, rn = rank(dem, n)
                    s.w("nofl", rn)
            rec.ev.insert(0, dict(op="Input", r={"_": "_"}, w={"dem": dict(n="dem", v=rd)}, p={"_": 0}, err=""))
        out.append(("magnitude:%d" % i, fn))
    return out
