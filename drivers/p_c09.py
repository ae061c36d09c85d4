"""C09 and C10: network of pour points, streams and junctions."""
import os, random
import numpy as np
from common import *
from malstroem.algorithms import fill, flow, label, net
import cli
from p_c04 import random_forest
from p_c05 import wet_pattern

DR = [-1, -1, 0, 1, 1, 1, 0, -1]
DC = [0, 1, 1, 1, 0, -1, -1, -1]


def accum(fd):
    """accumulated flow of a drained forest (independent of malstroem)"""
    h, w = len(fd), len(fd[0])
    n = [[0] * w for _ in range(h)]
    nxt = {}
    for r in range(h):
        for c in range(w):
            d = fd[r][c]
            y, x = r + DR[d], c + DC[d]
            nxt[r, c] = (y, x) if 0 <= y < h and 0 <= x < w else None
            if nxt[r, c]:
                n[y][x] += 1
    acc = [[1] * w for _ in range(h)]
    todo = [(r, c) for r in range(h) for c in range(w) if n[r][c] == 0]
    while todo:
        r, c = todo.pop()
        m = nxt[r, c]
        if m:
            acc[m[0]][m[1]] += acc[r][c]
            n[m[0]][m[1]] -= 1
            if n[m[0]][m[1]] == 0:
                todo.append(m)
    return acc


def labelled(rng, h, w):
    """ids without gaps, border background"""
    from scipy import ndimage
    k = rng.choice(["wet", "wet", "single", "cells"])
    if k == "wet":
        g = np.array(wet_pattern(rng, h, w)) > 0
    elif k == "single":
        g = np.array([[rng.random() < rng.choice([.1, .25]) for _ in range(w)] for _ in range(h)])
    else:
        g = np.array([[rng.random() < .5 for _ in range(w)] for _ in range(h)])
    g[0, :] = g[-1, :] = False
    g[:, 0] = g[:, -1] = False
    lab, n = ndimage.label(g, structure=np.ones((3, 3)))
    if k == "cells":     # ids may be shared by separate cells
        n = rng.randint(1, 5)
        lab = np.array([[(rng.randint(1, n) if g[r, c] else 0) for c in range(w)] for r in range(h)])
        ids = sorted(set(lab.ravel().tolist()) - {0})
        lab = np.array([[(ids.index(v) + 1 if v else 0) for v in row] for row in lab.tolist()])
    return lab.astype(np.int32)


def pour_cells(lab, acc):
    """cell with most flow per id"""
    best = {}
    for r in range(lab.shape[0]):
        for c in range(lab.shape[1]):
            k = int(lab[r, c])
            if k not in best or acc[r][c] > acc[best[k][0]][best[k][1]]:
                best[k] = (r, c)
    return [best[k] for k in range(max(best) + 1)]


def forest_case(rng, maxside=9):
    h, w = shape(rng, maxside)
    if rng.random() < .55:
        fd = random_forest(rng, h, w, 0.0, "deep")
    else:
        dem = np.array(terrain(rng, 0, rng.choice([3, 20]), hw=(h, w)), dtype=np.float32)
        s, d = fill.minimum_safe_short_and_diag(dem)
        fd = flow.terrain_flowdirection(fill.fill_terrain_no_flats(dem, s, d)).tolist()
    lab = labelled(rng, h, w)
    return fd, lab, pour_cells(lab, accum(fd))


def star_case(rng, n):
    """many streams which merge and end in one bluespot: flow towards a point on a line"""
    h, w = rng.randint(5, n), rng.randint(5, n)
    tr, tc = rng.randint(1, h - 2), rng.randint(1, w - 2)
    fd = [[0] * w for _ in range(h)]
    for r in range(h):
        for c in range(w):
            dr, dc = (tr > r) - (tr < r), (tc > c) - (tc < c)
            if rng.random() < .3 and dr and dc:
                if rng.random() < .5:
                    dr = 0
                else:
                    dc = 0
            if (r, c) == (tr, tc) or (r == tr and c > tc):
                dr, dc = 0, 1
            fd[r][c] = [k for k in range(8) if (DR[k], DC[k]) == (dr, dc)][0]
    g = np.zeros((h, w), dtype=np.int32)
    k = 0
    for r in range(1, h - 1):
        for c in range(1, w - 1):
            if (r, c) == (tr, tc) or (rng.random() < .25 and r != tr):
                k += 1
                g[r, c] = k
    return fd, g, pour_cells(g, accum(fd))


def enc(nodes, geometry):
    res = []
    for n in nodes:
        g = n.get("geometry") or []
        res.append(dict(id=int(n["id"]), down=cli.none(n["downstream_id"]), junction=n["nodetype"] == "junction",
                        row=int(n["pix"][0]) + 1, col=int(n["pix"][1]) + 1, geom=[[int(a) + 1, int(b) + 1] for a, b in g],
                        cap=0, wshed=0, bspot=-1))
    return res


def enc_cells(pps):
    return [dict(id=i, row=r + 1, col=c + 1) for i, (r, c) in enumerate(pps)]


def as_features(pps):
    return [dict(type="Feature", geometry=None, properties=dict(bspot_id=i, cell_row=r, cell_col=c)) for i, (r, c) in enumerate(pps)]


def lib(rec, rng, fd, lab, pps, geometry):
    a = np.array(fd, dtype=np.uint8)
    rec.put(fd=gi(a), lab=gi(lab), pps=enc_cells(pps))
    with rec.step("Network", r=dict(fd="fd", lab="lab", pps="pps"), geometry=geometry) as s:
        arg = as_features(pps) if rng.random() < .3 else [tuple(p) for p in pps]
        if "properties" in arg[0] and rng.random() < .5:
            rng.shuffle(arg)
        lab = lab.astype(rng.choice(["int32", "int32", "int64", "uint8" if lab.max() < 200 else "int32"]))
        f = net.geometric_pourpoint_network if geometry else net.pourpoint_network
        s.w("nodes", enc(f(forms(rng, a), forms(rng, lab), arg, 0), geometry))


def command(rec, rng, fd, lab, pps):
    d = rec.dir()
    geo = cli.geo_for(rng, rng.random() < .2)
    a = np.array(fd, dtype=np.uint8)
    cli.write_raster(d + "/fd.tif", a, transform=geo.transform)
    cli.write_raster(d + "/lab.tif", lab, transform=geo.transform, nodata=0)
    p = cli.Params()
    p.geo, p.scale = geo, 8
    cnt = {k: int((lab == k).sum()) for k in range(len(pps))}
    feats, enc = [], enc_cells(pps)
    for i, (r, c) in enumerate(pps):      # measures which tell every pour point from every other
        m = dict(vol_d=rng.choice([0, 3 * i + 1, 1000 - i]), wsh_c=cnt[i] + 7 * i, area_c=cnt[i])
        enc[i].update(m)
        feats.append((dict(bspot_id=i, cell_row=r, cell_col=c, bspot_area=m["area_c"] * geo.ca, bspot_vol=m["vol_d"] * geo.ca / 8,
                           bspot_dmax=.125, bspot_fumm=1.0, wshed_area=m["wsh_c"] * geo.ca), cli.world(geo, r, c)))
    src, fmt = cli.out_name(rng, d, "in")
    if random.Random(rec.name).random() < .4:      # in any order
        random.Random(rec.name + "s").shuffle(feats)
    cli.write_layer(src, fmt, "pourpoints", feats)
    rec.put(fd=gi(a), lab=gi(lab), pps=enc)
    with rec.step("Network", r=dict(fd="fd", lab="lab", pps="pps"), geometry=True, vu=1000, geo=geo.spec()) as s:
        if rng.random() < .6:
            o = d + "/o.gpkg"
            cli.run("network", "-bluespots", d + "/lab.tif", "-flowdir", d + "/fd.tif", "-pourpoints", src, "-pourpoints_layer",
                    "pourpoints", "-out", o, "-format", "gpkg")
            nodes, streams = cli.read_layer(o, "nodes"), cli.read_layer(o, "streams")
        else:
            o = d + "/o"
            cli.run("network", "-bluespots", d + "/lab.tif", "-flowdir", d + "/fd.tif", "-pourpoints", src, "-pourpoints_layer",
                    "pourpoints", "-out", o)
            nodes, streams = cli.read_layer(o, "nodes"), cli.read_layer(o, "streams")
        s.w("nodes", cli.enc_nodes(nodes, streams, p))


def cases(ctx, geometry=False):
    import big
    out = big.c09(ctx, geometry)
    for i, g in enumerate(GEN):
        def fn(rec, g=g, i=i):
            rng = ctx.rng(rec.name)
            pps = [tuple(x) for x in g["pps"]]
            lib(rec, rng, g["fd"], np.array(g["lab"], dtype=np.int32), [(r - 1, c - 1) for r, c in pps], geometry or i % 2 == 0)
        out.append(("spec:%d" % i, fn))
    for i in range(ctx.n(500, 6000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            fd, lab, pps = star_case(rng, 9) if rng.random() < .25 else forest_case(rng, 16 if rng.random() < .06 else 9)
            lib(rec, rng, fd, lab, pps, geometry or i % 2 == 0)
        out.append(("lib:%d" % i, fn))
    for i in range(ctx.n(60, 600)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            fd, lab, pps = star_case(rng, 9) if rng.random() < .25 else forest_case(rng, 9)
            command(rec, rng, fd, lab, pps)
        out.append(("cli:%d" % i, fn))
    for i in range(ctx.n(40, 400)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
