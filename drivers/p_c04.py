"""C04: accumulated flow."""
import numpy as np
from common import *
from malstroem.algorithms import fill, flow
import cli

DR = [-1, -1, 0, 1, 1, 1, 0, -1]
DC = [0, 1, 1, 1, 0, -1, -1, -1]


def random_forest(rng, h, w, nodir=0.1, style=None):
    """acyclic flow directions not derived from a terrain: every cell points to an already placed cell, off the raster or nowhere"""
    fd = [[8] * w for _ in range(h)]
    style = style or rng.choice(["edge", "deep", "any"])
    placed = []
    todo = [(r, c) for r in range(h) for c in range(w)]
    rng.shuffle(todo)
    done = set()
    frontier = []

    def out_dirs(r, c):
        return [d for d in range(8) if not (0 <= r + DR[d] < h and 0 <= c + DC[d] < w)]

    order = []
    if style == "deep":
        # grow depth first from few exits: long winding paths
        roots = [x for x in todo if out_dirs(*x)][:rng.randint(1, 3)]
        stack = list(roots)
        for r, c in roots:
            fd[r][c] = rng.choice(out_dirs(r, c))
            done.add((r, c))
        while stack:
            r, c = stack[-1] if rng.random() < .85 else rng.choice(stack)
            nb = [(r - DR[d], c - DC[d], d) for d in range(8)
                  if 0 <= r - DR[d] < h and 0 <= c - DC[d] < w and (r - DR[d], c - DC[d]) not in done]
            if not nb:
                stack.remove((r, c))
                continue
            y, x, d = rng.choice(nb)
            fd[y][x] = d
            done.add((y, x))
            stack.append((y, x))
        return fd
    for r, c in todo:
        dirs = [d for d in range(8) if (r + DR[d], c + DC[d]) in done]
        od = out_dirs(r, c)
        opts = []
        if dirs:
            opts += [rng.choice(dirs)] * 5
        if od:
            opts += [rng.choice(od)] * (3 if style == "edge" else 1)
        if not opts or rng.random() < nodir:
            opts = [8] if (nodir > 0 or not (dirs or od)) else opts
        fd[r][c] = rng.choice(opts)
        done.add((r, c))
    return fd


def drained_forest(rng, h, w):
    """every cell drains off the raster"""
    while True:
        fd = random_forest(rng, h, w, 0.0, "deep") if rng.random() < .6 else None
        if fd is None:
            dem = np.array(terrain(rng, 0, rng.choice([3, 20]), hw=(h, w)), dtype=np.float32)
            s, d = fill.minimum_safe_short_and_diag(dem)
            fd = flow.terrain_flowdirection(fill.fill_terrain_no_flats(dem, s, d)).tolist()
        return fd


def cases(ctx):
    import big
    out = big.c04(ctx)
    for i, g in enumerate(GEN):
        for native in (True, False):
            def fn(rec, g=g, native=native):
                a = np.array(g["fd"], dtype=np.uint8)
                rec.put(fd=gi(a))
                with mode(native):
                    with rec.step("Accum", r=dict(fd="fd")) as s:
                        s.w("acc", gi(flow.accumulated_flow(a)))
            if native or not ctx.quick or i % 3 == 0:
                out.append(("spec:%d:%s" % (i, "n" if native else "p"), fn))
    for i in range(ctx.n(400, 5000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 18 if rng.random() < .06 else 9)
            fd = random_forest(rng, h, w, rng.choice([0.0, 0.1, 0.4])) if rng.random() < .65 else drained_forest(rng, h, w)
            a = np.array(fd, dtype=np.uint8)
            rec.put(fd=gi(a))
            with mode(bool(i % 2)):
                with rec.step("Accum", r=dict(fd="fd")) as s:
                    s.w("acc", gi(flow.accumulated_flow(forms(rng, a))))
        out.append(("lib:%d" % i, fn))
    for i in range(ctx.n(24, 250)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = shape(rng, 9)
            a = np.array(random_forest(rng, h, w, .1) if i % 2 else drained_forest(rng, h, w), dtype=np.uint8)
            d = rec.dir()
            cli.write_raster(d + "/fd.tif", a, nodata=rng.choice([None, -999]))
            rec.put(fd=gi(a))
            with rec.step("Accum", r=dict(fd="fd")) as s:
                cli.run("accum", "-flowdir", d + "/fd.tif", "-out", d + "/acc.tif")
                s.w("acc", gi(cli.read_raster(d + "/acc.tif")))
        out.append(("cli:%d" % i, fn))
    for i in range(ctx.n(6, 60)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
