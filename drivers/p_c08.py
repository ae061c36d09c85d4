"""C08: pour points."""
import os
import numpy as np
from common import *
from malstroem import bluespots
from malstroem.algorithms import fill, flow, label
import cli
from p_c05 import tool_case


def terrain_products(p, native):
    p.filled = fill.fill_terrain(p.dem)
    short, diag = fill.minimum_safe_short_and_diag(p.dem)
    p.nofl = fill.fill_terrain_no_flats(p.dem, short, diag)
    p.fd = flow.terrain_flowdirection(p.nofl)
    p.depth = p.filled - p.dem
    p.acc = flow.accumulated_flow(p.fd)


def kept(rng, depth):
    """labels with some regions dropped, as after filtering"""
    lab, n = label.connected_components(depth)
    if rng.random() < .5 and n:
        keep = [rng.random() < .7 for _ in range(n + 1)]
        keep[0] = False
        lab, n = label.connected_components(np.array(keep)[lab])
    return lab.astype(np.int32), n


def base(rec, p, lab, wsh, by_acc):
    rec.put(fd=gi(p.fd), lab=gi(lab), depth=gi(p.depth, p.scale), wsh=gi(wsh))
    if by_acc:
        rec.put(acc=gi(p.acc))
    else:
        rec.put(order=[[[0, v] for v in row] for row in rank(p.nofl)[0]])
    return dict(fd="fd", lab="lab", depth="depth", wsh="wsh", **(dict(acc="acc") if by_acc else dict(t="order")))


def cases(ctx):
    import big
    out = big.c08(ctx)
    for i in range(ctx.n(300, 4000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, maxside=16 if rng.random() < .06 else 9)
            with mode(bool(i % 2)):
                terrain_products(p, None)
                lab, n = kept(rng, p.depth)
                wsh = lab.copy()
                flow.watersheds_from_labels(p.fd, wsh, 0)
                by_acc = rng.random() < .5
                r = base(rec, p, lab, wsh, by_acc)
                with rec.step("PourPoints", r=r, dden=p.scale, geo=p.geo.spec()) as s:
                    pix = label.label_max_index(p.acc, lab, n) if by_acc else label.label_min_index(p.nofl, lab, n)
                    stats = label.label_stats(p.depth, lab)
                    cnt = label.label_count(wsh)
                    s.w("pps", cli.enc_pps(bluespots.assemble_pourpoints(p.geo.transform, pix, stats, cnt), p))
        out.append(("lib:%d" % i, fn))
    for i in range(ctx.n(90, 900)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng)
            terrain_products(p, None)
            lab, n = kept(rng, p.depth)
            wsh = lab.copy()
            flow.watersheds_from_labels(p.fd, wsh, 0)
            by_acc = rng.random() < .5
            r = base(rec, p, lab, wsh, by_acc)
            d, tr = p.d, p.geo.transform
            for nm, a in (("lab", lab), ("depth", p.depth), ("wsh", wsh), ("acc", p.acc)):
                cli.write_raster(os.path.join(d, nm + ".tif"), a, transform=tr, nodata=dict(lab=0, wsh=0).get(nm))
            fmt = rng.choice(["gpkg", "geojson"])
            o = os.path.join(d, "pp." + fmt)
            extra = rng.random() < .2     # accum wins over dem
            with mode(bool(i % 2)):
                with rec.step("PourPoints", r=r, dden=p.scale, geo=p.geo.spec()) as s:
                    args = ["pourpts", "-bluespots", d + "/lab.tif", "-depths", d + "/depth.tif", "-watersheds", d + "/wsh.tif", "-out", o, "-format", fmt]
                    if by_acc:
                        args += ["-accum", d + "/acc.tif"]
                    if not by_acc or extra:
                        args += ["-dem", p.path]
                    cli.run(*args)
                    s.w("pps", cli.enc_pps(cli.read_layer(o, None if fmt == "geojson" else "pourpoints"), p))
        out.append(("cli:%d" % i, fn))
    # BluespotTool with a python filter
    for i in range(ctx.n(40, 400)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng)
            with mode(bool(i % 2)):
                terrain_products(p, None)
                n = rng.choice([0, 1, 2])
                f = rng.choice([None, lambda s: s["count"] > n])
                with rec.step("Input"):
                    tool_case(rec, rng, p, None, f)
            lab, wsh = cli.read_raster(p.d + "/lab.tif"), cli.read_raster(p.d + "/wsh.tif")
            r = base(rec, p, lab, wsh, False)
            with rec.step("PourPoints", r=r, dden=p.scale, geo=p.geo.spec()) as s:
                s.w("pps", cli.enc_pps(cli.read_layer(p.d + "/o.gpkg", "pourpoints"), p))
        out.append(("tool:%d" % i, fn))
    for i in range(ctx.n(30, 300)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
