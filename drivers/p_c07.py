"""C07: local watersheds."""
import numpy as np
from common import *
from malstroem.algorithms import flow
from p_c04 import drained_forest
from p_c05 import wet_pattern
import cli


def random_labels(rng, h, w, u=0):
    """ids in arbitrary cells: connected regions, scattered cells, ids used twice, gaps, borders, none, all"""
    k = rng.choice(["regions", "scatter", "few", "one", "all", "none"])
    n = rng.randint(1, 6)
    ids = rng.sample(range(1, 30), n) if rng.random() < .3 else list(range(1, n + 1))
    if k == "regions":
        from scipy import ndimage
        lab = ndimage.label(np.array(wet_pattern(rng, h, w)) > 0, structure=np.ones((3, 3)))[0].tolist()
    elif k == "none":
        lab = [[0] * w for _ in range(h)]
    else:
        p = dict(scatter=.4, few=.1, one=1.5 / (h * w), all=1.1)[k]
        lab = [[(rng.choice(ids) if rng.random() < p else 0) for _ in range(w)] for _ in range(h)]
    if u != 0:
        lab = [[(v if v else u) for v in row] for row in lab]
    return lab


def cases(ctx):
    import big
    out = big.c07(ctx)
    for i, g in enumerate(GEN):
        for native in (True, False):
            def fn(rec, g=g, native=native):
                fd, lab = np.array(g["fd"], dtype=np.uint8), np.array(g["lab"], dtype=np.int32)
                rec.put(fd=gi(fd), lab=gi(lab))
                with mode(native):
                    with rec.step("Wsheds", r=dict(fd="fd", lab="lab"), u=0) as s:
                        wsh = lab.copy()
                        flow.watersheds_from_labels(fd, wsh, unassigned=0)
                        s.w("wsh", gi(wsh))
            if native or not ctx.quick or i % 3 == 0:
                out.append(("spec:%d:%s" % (i, "n" if native else "p"), fn))
    for i in range(ctx.n(600, 8000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 18 if rng.random() < .06 else 9)
            u = rng.choice([0, 0, 0, -1, 99])
            fd = np.array(drained_forest(rng, h, w), dtype=np.uint8)
            lab = random_labels(rng, h, w, u)
            dt = rng.choice(["int32"] * 5 + ["int64"] * 3 + ["int16", "uint8", "uint16", "uint32"])
            if dt[0] == "u" and u < 0:
                u, lab = 255, [[255 if v == u else v for v in row] for row in lab]
            if dt in ("int32", "int64", "uint32") and rng.random() < .3:     # ids beyond 16 bits
                k = rng.choice([70001, 2 ** 24 + 1, 2 ** 26])
                lab = [[v if v == u else v * k for v in row] for row in lab]
            lab = np.array(lab, dtype=dt)
            rec.put(fd=gi(fd), lab=gi(lab))
            with mode(bool(i % 2)):
                with rec.step("Wsheds", r=dict(fd="fd", lab="lab"), u=u) as s:
                    wsh = forms(rng, lab.copy())
                    flow.watersheds_from_labels(forms(rng, fd), wsh, u) if rng.random() < .5 else \
                        flow.watersheds_from_labels(fd, wsh, unassigned=u)
                    s.w("wsh", gi(wsh))
        out.append(("lib:%d" % i, fn))
    for i in range(ctx.n(60, 600)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 9)
            fd = np.array(drained_forest(rng, h, w), dtype=np.uint8)
            lab = np.array(random_labels(rng, h, w), dtype=np.int32)
            d = rec.dir()
            cli.write_raster(d + "/fd.tif", fd, nodata=rng.choice([None, -999]))
            cli.write_raster(d + "/lab.tif", lab.astype(rng.choice(["uint8", "int16", "uint16"])) if rng.random() < .3 else lab, nodata=rng.choice([None, 0]))
            rec.put(fd=gi(fd), lab=gi(lab))
            with rec.step("Wsheds", r=dict(fd="fd", lab="lab"), u=0) as s:
                cli.run("wsheds", "-bluespots", d + "/lab.tif", "-flowdir", d + "/fd.tif", "-out", d + "/w.tif")
                s.w("wsh", gi(cli.read_raster(d + "/w.tif")))
        out.append(("cli:%d" % i, fn))
    for i in range(ctx.n(24, 250)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
