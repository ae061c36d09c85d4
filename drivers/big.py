"""Large instances: long flow paths, many bluespots, many cells.  The specification judges them with witnesses (ranks along the
path that has to exist, cells grouped by label, ...), which are computed here and verified there."""
import collections, os
import numpy as np
from common import *

DR = [-1, -1, 0, 1, 1, 1, 0, -1]
DC = [0, 1, 1, 1, 0, -1, -1, -1]


# --------------------------------------------------------------------------------------------- terrains
def dfsmaze(rng, h, w, lo, hi):
    """one winding corridor system, open at one border cell"""
    g = np.full((h, w), hi)
    seen, st = {(1, 1)}, [(1, 1)]
    g[1][1] = lo
    while st:
        r, c = st[-1]
        o = [(r + 2 * a, c + 2 * b, r + a, c + b) for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1))
             if 1 <= r + 2 * a < h - 1 and 1 <= c + 2 * b < w - 1 and (r + 2 * a, c + 2 * b) not in seen]
        if not o:
            st.pop()
            continue
        y, x, m, n = rng.choice(o)
        g[m][n] = g[y][x] = lo
        seen.add((y, x))
        st.append((y, x))
    g[0][1] = lo
    return g


def meander(h, w, lo, hi):
    """a corridor which goes up and down while going left and right: the longest path for sweeps in any direction"""
    g = np.full((h, w), hi)
    w2 = ((w - 3) // 4) * 4 + 1
    r0, right, path = 1, True, []
    while r0 + 2 <= h - 2:
        cols = list(range(1, w2 + 1))
        if not right:
            cols.reverse()
        cur = 0
        for k, c in enumerate(cols):
            if k % 2 == 0:
                rows = [0, 1, 2] if cur == 0 else [2, 1, 0]
                path += [(r0 + x, c) for x in rows]
                cur = rows[-1]
            else:
                path.append((r0 + cur, c))
        if r0 + 6 <= h - 2:
            if cur != 2:
                break
            path.append((r0 + 3, cols[-1]))
        r0 += 4
        right = not right
    for r, c in path:
        g[r][c] = lo
    g[path[0][0]][0] = lo
    return g


def winding(rng, side, lo, hi):
    """int terrain with one long corridor, in any orientation"""
    h, w = side, side + rng.choice([0, 2, 4])
    g = dfsmaze(rng, h, w, lo, hi) if rng.random() < .5 else meander(h, w, lo, hi)
    if rng.random() < .3 and hi - lo > 8:      # slightly uneven floor
        f = np.random.RandomState(rng.randrange(2 ** 31)).randint(0, 3, g.shape)
        g = np.where(g == lo, g + f, g)
    k = rng.randrange(8)
    if k & 1:
        g = g[::-1]
    if k & 2:
        g = g[:, ::-1]
    if k & 4:
        g = g.T
    return np.ascontiguousarray(g)


def rough(rng, h, w, lo, hi):
    return np.random.RandomState(rng.randrange(2 ** 31)).randint(lo, hi + 1, (h, w))


def pits_strip(rng, n, lo):
    """3 x (2n+1): n separate pits in the middle row"""
    g = np.full((3, 2 * n + 1), lo + 8)
    g[1, 1::2] = lo + np.random.RandomState(rng.randrange(2 ** 31)).randint(0, 8, n)
    return g


def river_row(rng, w):
    """1 x w flow directions: stretches which drain to one exit each (up or down)"""
    fd = np.zeros((1, w), dtype=np.uint8)
    c = 0
    while c < w:
        n = min(w - c, rng.choice([1, 2, 3, 5, 8, 30]))
        x = rng.randrange(n)
        fd[0, c:c + x] = 2
        fd[0, c + x] = rng.choice([0, 4])
        fd[0, c + x + 1:c + n] = 6
        c += n
    return fd


# --------------------------------------------------------------------------------------------- witnesses
def rank_fill(f):
    """steps of the breadth first search from the border that never goes down"""
    h, w = f.shape
    k = np.zeros((h, w), dtype=np.int64)
    seen = np.zeros((h, w), dtype=bool)
    seen[0, :] = seen[-1, :] = True
    seen[:, 0] = seen[:, -1] = True
    q = collections.deque((int(r), int(c)) for r, c in zip(*np.nonzero(seen)))
    fl = f.tolist()
    while q:
        r, c = q.popleft()
        for d in range(8):
            y, x = r + DR[d], c + DC[d]
            if 0 <= y < h and 0 <= x < w and not seen[y, x] and fl[y][x] >= fl[r][c]:
                seen[y, x] = True
                k[y, x] = k[r, c] + 1
                q.append((y, x))
    return k.tolist()


def receivers(fd):
    """flat index of the receiving cell, -1 off the raster, -2 nowhere"""
    h, w = fd.shape
    f = fd.astype(np.int64)
    ok = (f >= 0) & (f < 8)
    f = np.where(ok, f, 0)
    rr = np.arange(h)[:, None] + np.array(DR)[f]
    cc = np.arange(w)[None, :] + np.array(DC)[f]
    inside = (rr >= 0) & (rr < h) & (cc >= 0) & (cc < w)
    return np.where(~ok, -2, np.where(inside, rr * w + cc, -1)).ravel()


def rank_flow(fd):
    """steps to the end of the flow path"""
    fd = np.asarray(fd)
    rc = receivers(fd).tolist()
    k = [-1] * len(rc)
    for i in range(len(rc)):
        path, j = [], i
        while j >= 0 and k[j] < 0:
            k[j] = 0
            path.append(j)
            j = rc[j]
        b = k[j] if j >= 0 else -1
        for x in reversed(path):
            b += 1
            k[x] = b
    return np.array(k).reshape(fd.shape).tolist()


def rank_labels(lab):
    """0 on the first cell of every label, then steps within the label"""
    h, w = lab.shape
    l = lab.tolist()
    k = [[-1 if v else 0 for v in row] for row in l]
    roots = set()
    for r0 in range(h):
        for c0 in range(w):
            v = l[r0][c0]
            if not v or v in roots:
                continue
            roots.add(v)
            k[r0][c0] = 0
            q = collections.deque([(r0, c0)])
            while q:
                r, c = q.popleft()
                for d in range(8):
                    y, x = r + DR[d], c + DC[d]
                    if 0 <= y < h and 0 <= x < w and l[y][x] == v and k[y][x] < 0:
                        k[y][x] = k[r][c] + 1
                        q.append((y, x))
    return k


def segments(lab, ids):
    """cells sorted by label; first and last position per id"""
    f = lab.ravel()
    o = np.argsort(f, kind="stable")
    w = lab.shape[1]
    s = f[o]
    first = np.searchsorted(s, ids, "left") + 1
    last = np.searchsorted(s, ids, "right")
    return dict(cells=[[int(i) // w + 1, int(i) % w + 1] for i in o], first=[int(x) for x in first], last=[int(x) for x in last])


def hops(nodes):
    d = {n["id"]: n["down"] for n in nodes}
    k = {}
    for i in d:
        path, j = [], i
        while j in d and j not in k:
            k[j] = 0
            path.append(j)
            j = d[j]
        b = k[j] if j in k and j not in path else -1
        for x in reversed(path):
            b += 1
            k[x] = b
    return [k[n["id"]] for n in nodes]


def ups(nodes):
    pos = {n["id"]: i for i, n in enumerate(nodes)}
    u = [[] for _ in nodes]
    for i, n in enumerate(nodes):
        if n["down"] in pos:
            u[pos[n["down"]]].append(i + 1)
    return u


def owners(nodes, shape):
    g = np.zeros(shape, dtype=np.int64)
    for i, n in enumerate(nodes):
        for r, c in n["geom"][:-1]:
            if 1 <= r <= shape[0] and 1 <= c <= shape[1]:
                g[r - 1, c - 1] = i + 1
    return g.tolist()


def first_label(fd, lab, start):
    """label the water meets first downstream of a cell (0-based), or None"""
    rc = receivers(np.asarray(fd)).tolist()
    w = lab.shape[1]
    f = lab.ravel().tolist()
    i = start[0] * w + start[1]
    own = f[i]
    i = rc[i]
    while i >= 0:
        if f[i] and f[i] != own:
            return f[i]
        i = rc[i]
    return None


# --------------------------------------------------------------------------------------------- C01 - C03, C16
def sides(ctx, native):
    return ctx.n([41, 61, 81, 101], [41, 61, 101, 121, 161]) if native else [21, 31] if ctx.quick else [21, 31, 41]


def c01(ctx):
    from malstroem.algorithms import fill
    out = []

    def one(name, make, native, scale=1):
        def fn(rec):
            rng = ctx.rng(rec.name)
            dem = (make(rng) / scale).astype(np.float32)
            rec.put(dem=gi(dem, scale))
            with mode(native):
                with rec.step("Fill", r=dict(dem="dem", rank="rank")) as s:
                    f = fill.fill_terrain(dem)
                    rec.put(rank=rank_fill(f))
                    s.w("filled", gi(f, scale))
        out.append((name, fn))
    for native in (True, False):
        for i, n in enumerate(sides(ctx, native) * ctx.n(1, 3)):
            one("winding:%s%d" % ("n" if native else "p", i), lambda rng, n=n: winding(rng, n, 0, 10), native)
    one("large:0", lambda rng: rough(rng, 150, 170, 0, 40), True, 8)
    one("large:1", lambda rng: rough(rng, 2, 9000, 0, 3), True)
    one("large:2", lambda rng: rough(rng, 9000, 3, -3, 3), True)
    one("strip:0", lambda rng: pits_strip(rng, 4000, 0), True)
    return out


def c02(ctx):
    from malstroem.algorithms import fill
    from p_c02 import pairs, ULP, recommended
    out = []

    def one(name, make, native):
        def fn(rec):
            rng = ctx.rng(rec.name)
            dem = (make(rng) / 8.0).astype(np.float32)
            recommended(rec, rng, native, dem=dem)
        out.append((name, fn))
    for native in (True, False):
        for i, n in enumerate(sides(ctx, native) * ctx.n(1, 3)):
            one("winding:%s%d" % ("n" if native else "p", i), lambda rng, n=n: winding(rng, n, 512, 600), native)
    one("large:0", lambda rng: rough(rng, 120, 140, 512, 560), True)
    one("large:1", lambda rng: rough(rng, 3, 6000, 512, 514), True)
    one("flat:0", lambda rng: np.full((90, 100), 640), True)
    return out


def c03(ctx):
    from malstroem.algorithms import fill, flow
    from p_c02 import pairs, ULP
    out = []

    def one(name, make, native):
        def fn(rec):
            rng = ctx.rng(rec.name)
            dem = (make(rng) / 8.0).astype(np.float32)
            with mode(native):
                short, diag = fill.minimum_safe_short_and_diag(dem)
                n = fill.fill_terrain_no_flats(dem, short, diag)
                fd = flow.terrain_flowdirection(n)
                rec.put(t=pairs(n, 8, 8 * ULP), filled=gi(fill.fill_terrain(dem), 8), rank=rank_flow(fd))
                with rec.step("FlowdirDem", r=dict(filled="filled", rank="rank")) as s:
                    s.w("fd", gi(fd))
                with rec.step("FlowdirOf", r=dict(t="t", fd="fd")):
                    pass
        out.append((name, fn))
    for native in (True, False):
        for i, n in enumerate(sides(ctx, native) * ctx.n(1, 3)):
            one("winding:%s%d" % ("n" if native else "p", i), lambda rng, n=n: winding(rng, n, 512, 600), native)
    one("large:0", lambda rng: rough(rng, 120, 140, 512, 560), True)
    one("large:1", lambda rng: rough(rng, 3, 6000, 512, 514), True)
    one("flat:0", lambda rng: np.full((90, 100), 640), True)
    return out


# --------------------------------------------------------------------------------------------- C04
def c04(ctx):
    from malstroem.algorithms import flow
    out = []

    def one(name, make, native):
        def fn(rec):
            rng = ctx.rng(rec.name)
            a = make(rng)
            rec.put(fd=gi(a))
            with mode(native):
                with rec.step("Accum", r=dict(fd="fd")) as s:
                    s.w("acc", gi(flow.accumulated_flow(a)))
        out.append((name, fn))

    def row(n):
        return lambda rng: np.full((1, n), rng.choice([2, 6]), dtype=np.uint8)

    def col(n):
        return lambda rng: np.full((n, 1), rng.choice([0, 4]), dtype=np.uint8)

    def funnel(h, w):
        def f(rng):      # everything ends in one cell of the last column
            a = np.full((h, w), 2, dtype=np.uint8)
            k = rng.randrange(h)
            a[:k, -1], a[k + 1:, -1] = 4, 0
            return a
        return f
    N = ctx.n(33500, 66500)
    one("long:0", row(N), True)
    one("long:1", col(9000), True)
    one("long:2", row(33500), False)
    one("long:3", col(33500), False)
    one("funnel:0", funnel(260, 255), True)
    one("funnel:1", funnel(181, 190), False)

    def huge(n):        # more cells than single precision can count
        def fn(rec):
            a = np.full((1, n), 6, dtype=np.uint8)
            with rec.step("AccumRuns", n=n, dir=6) as s:
                s.w("runs", runs(flow.accumulated_flow(a)[0]))
        out.append(("huge:0", fn))
    from malstroem.algorithms import speedups
    if speedups.available:
        huge((1 << 24) + ctx.rng("huge").randint(100, 5000))
    return out


def runs(v, most=40):
    """[len, first, step] of the first runs of equal steps"""
    res, i, n = [], 0, len(v)
    while i < n and len(res) < most:
        if i + 1 == n:
            res.append(dict(len=1, first=ei(v[i]), step=0))
            break
        d = v[i + 1] - v[i]
        k, size = i + 1, 1 << 16
        while k + 1 < n:
            b = np.diff(v[k:k + size + 1]) != d
            j = int(np.argmax(b))
            if b[j]:
                k += j
                break
            k += len(b)
        res.append(dict(len=k - i + 1, first=ei(v[i]), step=ei(d)))
        i = k + 1
    return res


# --------------------------------------------------------------------------------------------- C05, C07 - C11, C13 - C15: many bluespots
def alternating(w):
    """1 x w labels: 0 1 0 2 0 3 ... 0"""
    lab = np.zeros((1, w), dtype=np.int32)
    lab[0, 1::2] = np.arange(1, len(lab[0, 1::2]) + 1)
    return lab


def c05(ctx):
    from malstroem.algorithms import label
    import cli
    out = []

    def one(name, make, via):
        def fn(rec):
            rng = ctx.rng(rec.name)
            depth = (make(rng) / 8.0).astype(np.float32)
            rec.put(depth=gi(depth, 8))
            with rec.step("Label", r=dict(depth="depth", rank="rank"), tokens=[], dden=8, ca=[1, 1]) as s:
                if via == "lib":
                    lab, n = label.connected_components(depth)
                else:
                    d = rec.dir()
                    cli.write_raster(d + "/d.tif", depth)
                    cli.run("bspots", "-depths", d + "/d.tif", "-out", d + "/lab.tif")
                    lab = cli.read_raster(d + "/lab.tif")
                lab = np.asarray(lab)
                rec.put(rank=rank_labels(lab))
                s.w("lab", gi(lab))
        out.append((name, fn))
    N = ctx.n(66603, 132603)
    alt = lambda rng: (alternating(N) > 0) * 3
    one("many:0", alt, "lib")
    one("many:1", alt, "cli")
    one("large:0", lambda rng: np.maximum(0, rough(rng, 110, 130, -6, 4)), "cli")
    one("large:1", lambda rng: (winding(rng, 101, 0, 1) == 0) * 2, "cli")
    one("large:2", lambda rng: np.maximum(0, rough(rng, 90, 90, -2, 4)), "lib")
    return out


def c07(ctx):
    from malstroem.algorithms import flow
    import cli
    from p_c04 import random_forest
    out = []

    def one(name, make, via, native):
        def fn(rec):
            rng = ctx.rng(rec.name)
            fd, lab = make(rng)
            rec.put(fd=gi(fd), lab=gi(lab))
            with mode(native):
                with rec.step("Wsheds", r=dict(fd="fd", lab="lab"), u=0) as s:
                    if via == "lib":
                        w = lab.copy()
                        flow.watersheds_from_labels(fd, w, 0)
                    else:
                        d = rec.dir()
                        cli.write_raster(d + "/fd.tif", fd)
                        cli.write_raster(d + "/lab.tif", lab, nodata=0)
                        cli.run("wsheds", "-bluespots", d + "/lab.tif", "-flowdir", d + "/fd.tif", "-out", d + "/w.tif")
                        w = cli.read_raster(d + "/w.tif")
                    s.w("wsh", gi(w))
        out.append((name, fn))

    def rowcase(N):
        def f(rng):
            lab = alternating(N)
            lab[0, [rng.randrange(N) for _ in range(N // 4)]] = 0
            return river_row(rng, N), lab
        return f

    def long_path(h, w):
        def f(rng):      # one path through the whole raster, few labels
            fd = np.zeros((h, w), dtype=np.uint8)
            for r in range(h):
                fd[r, :] = 2 if r % 2 == 0 else 6
                fd[r, -1 if r % 2 == 0 else 0] = 4
            lab = np.zeros((h, w), dtype=np.int32)
            for k in range(rng.randint(1, 4)):
                lab[rng.randrange(h), rng.randrange(w)] = k + 1
            return fd, lab
        return f

    def tree(h, w):
        def f(rng):
            fd = np.array(random_forest(rng, h, w, 0.0, "deep"), dtype=np.uint8)
            lab = (rough(rng, h, w, 0, 40) == 0) * rough(rng, h, w, 1, 100000)
            return fd, lab.astype(np.int32)
        return f
    one("many:0", rowcase(ctx.n(66603, 132603)), "lib", True)
    one("many:1", rowcase(66603), "cli", False)
    one("path:0", long_path(60, 100), "lib", True)
    one("path:1", long_path(30, 70), "lib", False)
    one("path:2", long_path(200, 170), "cli", True)
    one("tree:0", tree(60, 60), "cli", True)
    one("tree:1", tree(60, 60), "lib", False)
    return out


def row_products(rng, N):
    """1 x N: flow, labels, depths in 1/8 m, accumulated flow, watersheds, pour point cells"""
    from malstroem.algorithms import flow
    from p_c09 import accum, pour_cells
    fd = river_row(rng, N)
    lab = alternating(N)
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    depth = np.where(lab > 0, rs.randint(1, 30, lab.shape), 0)
    acc = np.array(accum(fd.tolist()))
    wsh = lab.copy()
    rc = receivers(fd)
    f = wsh.ravel()
    for i in np.argsort(np.array(rank_flow(fd)).ravel(), kind="stable"):
        if f[i] == 0 and rc[i] >= 0:
            f[i] = f[rc[i]]
    return fd, lab, depth, acc, f.reshape(lab.shape), pour_cells(lab, acc)


def c08(ctx):
    import cli
    out = []

    def fn(rec):
        rng = ctx.rng(rec.name)
        fd, lab, depth, acc, wsh, _ = row_products(rng, 66603)
        p = cli.Params()
        p.geo, p.scale, p.vs = cli.geo_for(rng), 8, 1
        d, tr = rec.dir(), p.geo.transform
        for nm, a in (("lab", lab), ("depth", (depth / 8.0).astype(np.float32)), ("wsh", wsh.astype(np.int32)), ("acc", acc.astype(np.float64))):
            cli.write_raster(os.path.join(d, nm + ".tif"), a, transform=tr, nodata=dict(lab=0, wsh=0).get(nm))
        rec.put(fd=gi(fd), lab=gi(lab), depth=gi(depth), wsh=gi(wsh), acc=gi(acc))
        r = dict(fd="fd", lab="lab", depth="depth", wsh="wsh", acc="acc", seglab="seglab", segwsh="segwsh")
        with rec.step("PourPoints", r=r, dden=8, geo=p.geo.spec()) as s:
            cli.run("pourpts", "-bluespots", d + "/lab.tif", "-depths", d + "/depth.tif", "-watersheds", d + "/wsh.tif", "-accum", d + "/acc.tif",
                    "-out", d + "/o.gpkg", "-format", "gpkg")
            pps = sorted(cli.enc_pps(cli.read_layer(d + "/o.gpkg", "pourpoints"), p), key=lambda x: x["id"])
            ids = [x["id"] for x in pps]
            rec.put(seglab=segments(lab, ids), segwsh=segments(wsh, ids))
            s.w("pps", pps)
    out.append(("many:0", fn))

    def count(n):
        """n bluespots of one cell each: the numbers around which narrower id types would end"""
        def fn(rec):
            from malstroem import bluespots
            from malstroem.algorithms import label
            rng = ctx.rng(rec.name)
            lab = np.maximum(0, np.arange(n + 3, dtype=np.int32) - 2).reshape(1, -1)
            fd = np.full(lab.shape, 2, dtype=np.uint8)
            wsh = lab.copy()
            rs = np.random.RandomState(rng.randrange(2 ** 31))
            depth = np.where(lab > 0, rs.randint(1, 30, lab.shape), 0)
            acc = np.arange(1, n + 4).reshape(1, -1)
            p = cli.Params()
            p.geo, p.scale, p.vs = cli.geo_for(rng), 8, 1
            ids = list(range(n + 1))
            rec.put(fd=gi(fd), lab=gi(lab), depth=gi(depth), wsh=gi(wsh), acc=gi(acc), seglab=segments(lab, ids), segwsh=segments(wsh, ids))
            r = dict(fd="fd", lab="lab", depth="depth", wsh="wsh", acc="acc", seglab="seglab", segwsh="segwsh")
            dep = (depth / 8.0).astype(np.float32)
            with mode(rng.random() < .5):
                with rec.step("PourPoints", r=r, dden=8, geo=p.geo.spec()) as s:
                    pix = label.label_max_index(acc.astype(np.float64), lab, n)
                    s.w("pps", cli.enc_pps(bluespots.assemble_pourpoints(p.geo.transform, pix, label.label_stats(dep, lab), label.label_count(wsh)), p))
        return fn
    for n in (255, 256, 32767, 32768, 65535, 65536):
        out.append(("count:%d" % n, count(n)))

    def area(rec):      # one large bluespot
        rng = ctx.rng(rec.name)
        from p_c08 import terrain_products, base
        from malstroem import bluespots
        from malstroem.algorithms import flow, label
        p = cli.Params()
        p.geo, p.scale, p.vs = cli.geo_for(rng), 8, 1
        h, w = 190, 200
        g = np.full((h, w), 512)
        g[0, :] = g[-1, :] = g[:, 0] = g[:, -1] = 600
        g[1:-1, 1:-1] = rough(rng, h - 2, w - 2, 512, 540)
        g[0, rng.randrange(1, w - 1)] = 590
        p.dem = (g / 8.0).astype(np.float32)
        terrain_products(p, None)
        lab, n = label.connected_components(p.depth)
        wsh = lab.copy()
        flow.watersheds_from_labels(p.fd, wsh, 0)
        by_acc = rng.random() < .5
        r = base(rec, p, lab, wsh, by_acc)
        with rec.step("PourPoints", r=r, dden=p.scale, geo=p.geo.spec()) as s:
            pix = label.label_max_index(p.acc, lab, n) if by_acc else label.label_min_index(p.nofl, lab, n)
            s.w("pps", cli.enc_pps(bluespots.assemble_pourpoints(p.geo.transform, pix, label.label_stats(p.depth, lab), label.label_count(wsh)), p))
    out.append(("large:0", area))
    return out


def c09(ctx, geometry):
    import cli
    from malstroem.algorithms import net
    from p_c09 import enc, enc_cells, accum, pour_cells
    out = []

    def tool(fd, lab, pps, geom):
        """through the tool; its readers and writers hold everything in memory, in the reference frame of the cells"""
        from malstroem.streams import StreamTool

        class Mem:
            transform = (0.0, 1.0, 0.0, 0.0, 0.0, -1.0)

            def __init__(self, v=None):
                self.v = v

            def read(self):
                return self.v

            read_geojson_features = read

            def write_geojson_features(self, f):
                self.v = list(f)
        feats = [dict(type="Feature", geometry=None, properties=dict(bspot_id=i, cell_row=r, cell_col=c, bspot_area=1.0, bspot_vol=1.0,
                                                                     wshed_area=1.0)) for i, (r, c) in enumerate(pps)]
        on, os_ = Mem(), (Mem() if geom else None)
        StreamTool(Mem(feats), Mem(lab), Mem(fd), on, os_).process()
        lines = {f["properties"]["nodeid"]: [(-y - .5, x - .5) for x, y in f["geometry"]["coordinates"]] for f in (os_.v if geom else [])}
        return [dict(id=q["nodeid"], downstream_id=q["dstrnodeid"], nodetype=q["nodetype"], pix=(q["cell_row"], q["cell_col"]),
                     geometry=lines.get(q["nodeid"])) for q in (f["properties"] for f in on.v)]

    def put(rec, rng, fd, lab, pps, geom):
        rec.put(fd=gi(fd), lab=gi(lab), pps=enc_cells(pps))
        through = rng.random() < .5 or len(pps) > 30000
        with rec.step("Network", r=dict(fd="fd", lab="lab", pps="pps", hops="hops", **(dict(own="own") if geom else {})), geometry=geom) as s:
            f = net.geometric_pourpoint_network if geom else net.pourpoint_network
            got = tool(fd, lab, pps, geom) if through else f(fd, lab, [tuple(x) for x in pps], 0)
            nodes = sorted(enc(got, geom), key=lambda n: n["id"])
            rec.put(hops=hops(nodes))
            if geom:
                rec.put(own=owners(nodes, fd.shape))
            s.w("nodes", nodes)

    def row(rec):
        rng = ctx.rng(rec.name)
        fd, lab, depth, acc, wsh, pps = row_products(rng, 66603)
        put(rec, rng, fd, lab, pps, geometry)
    out.append(("many:0", row))

    def comb(rec):
        """a river with many tributaries, each from a bluespot of its own"""
        rng = ctx.rng(rec.name)
        n = 260 if ctx.quick else 420
        fd = np.full((4, n), 4, dtype=np.uint8)
        fd[2, :] = 2
        fd[3, :] = 4
        fd[0, :] = 0
        lab = np.zeros((4, n), dtype=np.int32)
        k = 0
        for c in range(n - 2):
            if rng.random() < .97:
                k += 1
                lab[1, c] = k
        if rng.random() < .5:
            lab[2, n - 2] = k + 1
        if rng.random() < .5:      # ids against the current
            lab = np.where((lab > 0) & (lab <= k), k + 1 - lab, lab)
        put(rec, rng, fd, lab.astype(np.int32), pour_cells(lab, accum(fd.tolist())), True)
    out.append(("river:0", comb))
    if geometry:
        out.append(("river:1", comb))
        out.append(("river:2", comb))

    def snake(rec):
        """one flow path through every cell, few bluespots far from each other"""
        rng = ctx.rng(rec.name)
        h, w = rng.choice([(31, 40), (40, 31), (1, 1200), (3, 400)])
        fd = np.full((h, w), 4, dtype=np.uint8)
        for r in range(h):
            if r % 2 == 0:
                fd[r, :w - 1] = 2
            else:
                fd[r, 1:] = 6
        if rng.random() < .5:
            fd = fd[:, ::-1].copy()
            fd = np.where(fd == 2, 6, np.where(fd == 6, 2, fd)).astype(np.uint8)
        if rng.random() < .5 and h > 1:
            fd = np.ascontiguousarray(np.array([6, 5, 4, 3, 2, 1, 0, 7], dtype=np.uint8)[fd].T)
        acc = np.array(accum(fd.tolist()))
        path = np.argsort(acc.ravel(), kind="stable")
        lab = np.zeros(fd.shape, dtype=np.int32)
        at = sorted(set([0, fd.size - 2 if rng.random() < .5 else fd.size - 7] + [rng.randrange(fd.size - 1) for _ in range(rng.randint(0, 2))]))
        ids = list(range(1, len(at) + 1))
        rng.shuffle(ids)
        for i, k in zip(at, ids):
            lab.ravel()[path[i]] = k
        put(rec, rng, fd, lab, pour_cells(lab, accum(fd.tolist())), geometry)
    out.append(("snake:0", snake))
    out.append(("snake:1", snake))

    def shared(rec):
        """streams which share a long way before they reach the next bluespot"""
        rng = ctx.rng(rec.name)
        n = 12001 if rec.name == "shared:0" else 1501
        fd = np.full((3, n), 2, dtype=np.uint8)
        fd[0, :] = rng.choice([3, 4])
        fd[2, :] = rng.choice([0, 1])
        fd[0, n - 1] = fd[2, n - 1] = 2
        lab = np.zeros((3, n), dtype=np.int32)
        k = 0
        for r, c in ((0, 1), (2, 1), (0, 2 + rng.randint(0, 3)), (1, n - rng.randint(2, 4))):
            k += 1
            lab[r, c] = k
        put(rec, rng, fd, lab, pour_cells(lab, accum(fd.tolist())), True)
    if geometry:
        out.append(("shared:0", shared))
    out.append(("shared:1", shared))

    def chain(rec):
        """long chain of bluespots, each spilling into the next"""
        rng = ctx.rng(rec.name)
        n = 6001
        fd = np.full((1, n), rng.choice([2, 6]), dtype=np.uint8)
        lab = alternating(n)
        if rng.random() < .5:
            m = int(lab.max())
            lab = np.where(lab > 0, m + 1 - lab, 0).astype(np.int32)
        put(rec, rng, fd, lab, pour_cells(lab, accum(fd.tolist())), geometry)
    out.append(("chain:0", chain))
    return out


def c11(ctx):
    import cli
    from p_c11 import read_vols, put_nodes
    out = []

    def many(rec):
        rng = ctx.rng(rec.name)
        lab = alternating(66603)
        n = int(lab.max())
        geo = cli.geo_for(rng)
        d = rec.dir()
        rows = [dict(nodeid=k, dstrnodeid=None, nodetype="pourpoint", cell_row=0, cell_col=k, bspot_id=k, bspot_area=geo.ca, bspot_vol=geo.ca,
                     wshed_area=2 * geo.ca) for k in range(n + 1)]
        src = d + "/n.gpkg"
        cli.write_layer(src, "gpkg", "nodes", [(q, cli.world(geo, 0, q["cell_col"])) for q in rows])
        pr = np.random.RandomState(rng.randrange(2 ** 31)).randint(0, 99, lab.shape).astype(np.float32)
        cli.write_raster(d + "/pr.tif", pr, transform=geo.transform)
        cli.write_raster(d + "/lab.tif", lab, transform=geo.transform, nodata=0)
        rec.put(nodes=[dict(id=k, junction=False, wsh=2) for k in range(n + 1)], lab=gi(lab), pr=gi(pr))
        ids = [dict(id=k) for k in range(n + 1)]
        rec.put(ids=ids, seg=segments(lab, list(range(n + 1))))
        with rec.step("RainRaster", r=dict(nodes="nodes", lab="lab", pr="pr", ids="ids", seg="seg")) as s:
            cli.run("initvolumes", "-nodes", src, "-nodes_layer", "nodes", "-pr", d + "/pr.tif", "-bluespots", d + "/lab.tif", "-out", d + "/o.gpkg",
                    "-out_layer", "b", "-format", "gpkg")
            s.w("vols", read_vols(d + "/o.gpkg", "gpkg", "b", "inputv", 1000 / geo.ca))
    out.append(("many:0", many))
    return out


def c12(ctx):
    from malstroem import network
    from p_c12 import props, spec_nodes, enc_events
    import cli
    out = []

    def chain(rec):
        rng = ctx.rng(rec.name)
        n = ctx.n(4000, 12000)
        kind = rng.choice(["down", "up", "mixed"])
        ids = list(range(n))
        down = {0: None}
        for k in range(1, n):
            down[k] = k - 1 if kind != "mixed" or rng.random() < .8 else rng.randrange(max(0, k - 40), k)
        if kind == "up":
            down = {n - 1 - k: None if v is None else n - 1 - v for k, v in down.items()}
        rows = [dict(id=k, down=down[k], cap=rng.randint(0, 9), inp=rng.randint(0, 9), junction=False) for k in ids]
        S = spec_nodes(rows)
        rec.put(nodes=S, ups=ups(S))
        order = rng.choice(["asc", "desc", "shuffle"])
        rows = rows[::-1] if order == "desc" else rng.sample(rows, n) if order == "shuffle" else rows
        with rec.step("Spill", r=dict(nodes="nodes", ups="ups"), digits=4) as s:
            if rec.name.endswith("c"):
                d = rec.dir()
                cli.write_layer(d + "/i.gpkg", "gpkg", "iv", [(props(r, 1, dict(inputv="inp")), (600000.0 + r["id"], 6200000.0)) for r in rows])
                cli.run("finalvolumes", "-inputvolumes", d + "/i.gpkg", "-inputvolumes_layer", "iv", "-out", d + "/o.gpkg", "-out_layer", "fv",
                        "-format", "gpkg")
                fin = enc_events([f["properties"] for f in cli.read_layer(d + "/o.gpkg", "fv")], 1, "inputv")
            else:
                m = network.Network()
                m.add_nodes([props(r, 1, dict(inputv="inp")) for r in rows])
                fin = enc_events(m.rain_event("inputv"), 1, "inputv")
            s.w("fin", sorted(fin, key=lambda x: x["id"]))
    for i in range(ctx.n(3, 12)):
        out.append(("chain:%d" % i, chain))
    out.append(("chain:c", chain))

    def many(rec):      # tens of thousands of bluespots, short chains
        rng = ctx.rng(rec.name)
        n = 34000
        rows = [dict(id=k, down=rng.choice([None, rng.randrange(k)]) if k else None, cap=rng.randint(0, 9), inp=rng.randint(0, 9), junction=False)
                for k in range(n)]
        S = spec_nodes(rows)
        rec.put(nodes=S, ups=ups(S))
        with rec.step("Spill", r=dict(nodes="nodes", ups="ups"), digits=4) as s:
            m = network.Network()
            m.add_nodes([props(r, 1, dict(inputv="inp")) for r in rows])
            s.w("fin", sorted(enc_events(m.rain_event("inputv"), 1, "inputv"), key=lambda x: x["id"]))
    out.append(("many:0", many))
    return out


def c13(ctx):
    from malstroem import hyps
    from p_c13 import enc, raw_hyps, dem_for
    import cli
    out = []

    def many(rec):
        rng = ctx.rng(rec.name)
        lab = alternating(66603)
        n = int(lab.max())
        dem = rough(rng, 1, lab.shape[1], 0, 64)
        rec.put(lab=gi(lab), dem=gi(dem), ids=[dict(id=k) for k in range(n + 1)], seg=segments(lab, list(range(n + 1))))
        with rec.step("Hyps", r=dict(lab="lab", dem="dem", ids="ids", seg="seg"), res=8, tol=0) as s:
            d = rec.dir()
            cli.write_raster(d + "/dem.tif", (dem / 16).astype(np.float32))
            cli.write_raster(d + "/lab.tif", lab, nodata=0)
            pp = [(dict(bspot_id=k, cell_row=0, cell_col=k, bspot_area=1.0, bspot_vol=1.5, bspot_dmax=.5, bspot_fumm=1.0, wshed_area=1.0),
                   (600000.0 + k, 6200000.0)) for k in range(n + 1)]
            cli.write_layer(d + "/pp.gpkg", "gpkg", "pourpoints", pp)
            cli.run("hyps", "-bluespots", d + "/lab.tif", "-dem", d + "/dem.tif", "-pourpoints", d + "/pp.gpkg", "-zresolution", "0.5",
                    "-out", d + "/hy.gpkg", "-out_hyps_layer", "hy", "-format", "gpkg")
            s.w("hy", sorted(raw_hyps(cli.read_layer(d + "/hy.gpkg", "hy"), 16), key=lambda x: x["id"]))
    out.append(("many:0", many))

    def large(rec):     # a bluespot of many cells
        rng = ctx.rng(rec.name)
        lake = rec.name == "large:2"      # more than 2^16 cells in one bin
        h, w = (259, 262) if lake else (200, 190)
        lab = np.zeros((h, w), dtype=np.int32)
        lab[1:-1, 1:-1] = 1
        if rng.random() < .5:
            lab[1:9, 1:9] = 2
        dem = rough(rng, h, w, 0, 3 if lake else rng.choice([3, 60, 2000]))
        rec.put(lab=gi(lab), dem=gi(dem))
        with mode(rec.name.endswith("0")):
            with rec.step("Hyps", r=dict(lab="lab", dem="dem"), res=64, tol=0) as s:
                s.w("hy", enc(hyps.bluespot_hypsometry_stats(lab, (dem / 16).astype(np.float32), 4.0), 16))
    out.append(("large:0", large))
    out.append(("large:1", large))
    out.append(("large:2", large))
    return out


def c15(ctx):
    from malstroem import approx
    import cli
    out = []

    def many(rec):
        rng = ctx.rng(rec.name)
        lab = alternating(66603)
        n = int(lab.max())
        dem = rough(rng, 1, lab.shape[1], 0, 64)
        lv = [rng.randint(0, 70) for _ in range(n + 1)]
        rec.put(lab=gi(lab), dem=gi(dem), levels=[dict(id=k, z=v) for k, v in enumerate(lv)])
        d = rec.dir()
        cli.write_raster(d + "/dem.tif", (dem / 8.0).astype(np.float32))
        cli.write_raster(d + "/lab.tif", lab, nodata=0)
        cli.write_layer(d + "/fl.gpkg", "gpkg", "finallevels",
                        [(dict(nodeid=k, nodetype="pourpoint", bspot_id=k, v=1.0, approx_z=v / 8.0, approx_dmax=1.0), (600000.0 + k, 6200000.0))
                         for k, v in enumerate(lv)])
        with rec.step("Input"):
            cli.run("finalbluespots", "-bluespots", d + "/lab.tif", "-dem", d + "/dem.tif", "-finallevels", d + "/fl.gpkg", "-finallevels_layer",
                    "finallevels", "-out_depths", d + "/fd.tif", "-out_bluespots", d + "/fb.tif")
        with rec.step("FinalDepths", r=dict(lab="lab", dem="dem", levels="levels")) as s:
            s.w("fdepth", gi(cli.read_raster(d + "/fd.tif"), 8))
        with rec.step("FinalLabels", r=dict(lab="lab", dem="dem", levels="levels")) as s:
            s.w("flab", gi(cli.read_raster(d + "/fb.tif")))
    out.append(("many:0", many))

    def large(rec):
        rng = ctx.rng(rec.name)
        h, w = 150, 180
        lab = rough(rng, h // 10, w // 10, 0, 9).repeat(10, 0).repeat(10, 1).astype(np.int32)
        n = int(lab.max())
        dem = rough(rng, h, w, -40, 64)
        lv = [rng.randint(-40, 70) for _ in range(n + 1)]
        rec.put(lab=gi(lab), dem=gi(dem), levels=[dict(id=k, z=v) for k, v in enumerate(lv)])
        with rec.step("FinalLabels", r=dict(lab="lab", dem="dem", levels="levels")) as s:
            fl, fd = approx.approx_bluespots(lab, {k: v / 8.0 for k, v in enumerate(lv)}, (dem / 8.0).astype(np.float32))
            s.w("flab", gi(fl))
        with rec.step("FinalDepths", r=dict(lab="lab", dem="dem", levels="levels")) as s:
            s.w("fdepth", gi(fd, 8))
    out.append(("large:0", large))
    return out


def c16(ctx):
    """parity on larger inputs; results compared as digests"""
    from malstroem.algorithms import speedups
    from p_c16 import pure, real
    from p_c04 import random_forest
    out = []

    def par(name, make):
        def fn(rec):
            rng = ctx.rng(rec.name)
            f = make(rng)
            with rec.step("Parity", what=name) as s:
                speedups.enable()
                s.p(python=digest(f(pure)), native=digest(f(real)))
        out.append((name, fn))

    def fill(rng):
        dem = (winding(rng, 31, 0, 90) / 8).astype(np.float32)
        return lambda m: hexa(m("fill").fill_terrain(dem))

    def noflats(rng):
        dem = (winding(rng, 27, 512, 600) / 8).astype(np.float32)
        s, d = pure("fill").minimum_safe_short_and_diag(dem)
        return lambda m: hexa(m("fill").fill_terrain_no_flats(dem, s, d))

    def rnd(rng):
        dem = np.random.RandomState(rng.randrange(2 ** 31)).normal(0, 9, (90, 100)).astype(np.float32)
        return lambda m: [hexa(m("fill").fill_terrain(dem)), hexa(m("flow").terrain_flowdirection(dem.astype(np.float64)))]

    def labs(rng):
        lab = alternating(66603)
        rs = np.random.RandomState(rng.randrange(2 ** 31))
        data = rs.randint(0, 900, lab.shape).astype(rng.choice(["float32", "float64"]))
        big = rough(rng, 200, 200, 0, 40)
        bl = (big // 20).astype(np.int32)
        bd = rs.normal(5, 900, bl.shape).astype(rng.choice(["float32", "float64"]))

        def f(m):
            L = m("label")
            res = []
            for d, l in ((data, lab), (bd, bl)):
                n = int(l.max())
                res += [[[canon(r[k]) for k in ("min", "max", "sum", "count")] for r in L.label_stats(d, l)],
                        [[canon(r[k]) for k in ("value", "row", "col")] for r in L.label_min_index(d, l, n)],
                        [[canon(r[k]) for k in ("value", "row", "col")] for r in L.label_max_index(d, l, n)],
                        [[canon(v) for v in list(x)] for x in L.label_data(d, l, n)]]
            return res
        return f

    def flows(rng):
        n = 33500
        fd = np.full((1, n), 2, dtype=np.uint8)
        sd = np.full((1, 200), rng.choice([2, 6]), dtype=np.uint8)
        lab = np.zeros(sd.shape, dtype=np.int32)
        lab[0, rng.randrange(200)] = 70000
        t = np.array(random_forest(rng, 30, 30, 0.0, "deep"), dtype=np.uint8)
        tl = (rough(rng, 30, 30, 0, 30) == 0) * rough(rng, 30, 30, 1, 100000).astype(np.int32)

        def f(m):
            res = [hexa(m("flow").accumulated_flow(fd))]
            for d, l in ((sd, lab), (t, tl)):
                x = l.copy()
                m("flow").watersheds_from_labels(d, x, 0)
                res += [hexa(x), hexa(m("flow").accumulated_flow(d))]
            return res
        return f
    for name, mk in (("Lfill", fill), ("Lnoflats", noflats), ("Lrandom", rnd), ("Llabels", labs), ("Lflow", flows)):
        for i in range(ctx.n(1, 4)):
            par("%s:%d" % (name, i), mk)
    return out


def regions(g, u):
    """number of the region of each cell (0: background) and its distance to the first cell of the region"""
    g = np.asarray(g).tolist()
    h, w = len(g), len(g[0])
    reg = [[0] * w for _ in range(h)]
    k = [[0] * w for _ in range(h)]
    n = 0
    for r0 in range(h):
        for c0 in range(w):
            if g[r0][c0] == u or reg[r0][c0]:
                continue
            n += 1
            reg[r0][c0] = n
            q = collections.deque([(r0, c0)])
            while q:
                r, c = q.popleft()
                for d in range(8):
                    y, x = r + DR[d], c + DC[d]
                    if 0 <= y < h and 0 <= x < w and g[y][x] == g[r0][c0] and not reg[y][x]:
                        reg[y][x] = n
                        k[y][x] = k[r][c] + 1
                        q.append((y, x))
    return reg, k


def c21(ctx):
    import cli
    from malstroem import vector
    from p_c21 import feats as enc, other_crs, crs_of
    out = []

    def one(name, make, kind, nd=0):
        def fn(rec):
            rng = ctx.rng(rec.name)
            g = make(rng)
            u = -1 if nd is None else nd
            geo = cli.geo_for(rng)
            d, crs = rec.dir(), other_crs(rng)
            cli.write_raster(d + "/ids.tif", g, nodata=nd, transform=geo.transform, crs=crs)
            reg, steps = regions(g, u)
            rec.put(g=gi(g), reg=reg, steps=steps)
            with rec.step("Polys", r=dict(g="g", reg="reg", steps="steps"), u=u) as s:
                if kind == "polys":
                    cli.run("polys", "-raster", d + "/ids.tif", "-out", d + "/o.gpkg", "-layername", "areas", "-format", "gpkg")
                    fs = enc(rec, cli.read_layer(d + "/o.gpkg", "areas"), geo)
                    cc = dict(crs_in=digest(cli.srs_key(crs)), crs_out=crs_of(d + "/o.gpkg", "areas"))
                else:
                    fs = enc(rec, list(vector.vectorize_labels_file(d + "/ids.tif", "bspot_id")), geo)
                    cc = dict(crs_in="", crs_out="")
                for f in fs:       # which region: the cell right of the highest, then leftmost vertical edge
                    e = min((min(a[1], b[1]), a[0]) for ring in f["rings"] for a, b in zip(ring, ring[1:]) if a[0] == b[0])
                    f["reg"] = reg[e[0]][e[1]] if e[0] < len(reg) and e[1] < len(reg[0]) else 0
                s.p(feats=fs, **cc)
        out.append((name, fn))

    def squares(rng):      # many single cells
        g = np.zeros((61, rng.choice([120, 150])), dtype=np.int32)
        g[::2, ::2] = np.arange(1, g[::2, ::2].size + 1).reshape(g[::2, ::2].shape)
        return g
    one("many:0", lambda rng: alternating(ctx.n(4001, 9001)) * 47, "polys")
    one("many:1", squares, rng_kind(ctx, "many:1"))
    one("large:0", lambda rng: rough(rng, 60, 70, 0, 4).astype(np.int32), "polys")
    one("large:1", lambda rng: np.maximum(0, rough(rng, 100, 110, -4, 3)).astype(np.int32), "iter")
    one("large:2", lambda rng: (winding(rng, 81, 0, 1) == 0).astype(np.int32) * 40000, "polys")
    one("large:3", lambda rng: rough(rng, 40, 40, 0, 30).repeat(3, 0).repeat(3, 1).astype(np.int32), "polys", 0)
    for i in range(ctx.n(0, 12)):
        one("large:t%d" % i, lambda rng: np.maximum(0, rough(rng, 80 + i, 90, -3, 9)).astype(np.int32), "polys")
    return out


def rng_kind(ctx, name):
    return ctx.rng(name + ":kind").choice(["polys", "iter"])


def c17(ctx):
    import cli
    from p_c17 import DIRECT, ranges, file_rec, read_rec, crs_for, transform_for
    from malstroem import io
    out = []
    SH = [(1, 70000), (70000, 1), (300, 220), (2, 40000), (257, 258), (33, 2100)]

    def grid(rng, dt, h, w):
        rs = np.random.RandomState(rng.randrange(2 ** 31))
        lo, hi = ranges.get(dt, (-2 ** 20, 2 ** 20))
        pool = sorted({lo, hi, max(lo, -1), 0, 1, 2, min(hi, 127), min(hi, 255), min(hi, 32767)})
        return np.array(pool, dtype=dt)[rs.randint(0, len(pool), (h, w))], pool

    for i in range(ctx.n(6, 24)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            h, w = SH[i % len(SH)]
            dt = rng.choice(DIRECT + ["int64"])
            a, pool = grid(rng, dt if dt != "int64" else rng.choice(["int32", "uint16", "int16"]), h, w)
            a = a.astype(dt)
            tr, crs = transform_for(rng), crs_for(rng)
            path = rec.dir() + "/a.tif"
            nd = rng.choice([None, pool[0], 0])
            with rec.step("RasterWrite") as s:
                io.RasterWriter(path, tr, crs, nd).write(a)
                s.w("file", file_rec(a, tr, crs, nd))
            with rec.step("RasterRead", r=dict(file="file"), subst="") as s:
                s.p(out=read_rec(path, None))
            b, pool = grid(rng, "float32", h, w)
            nd = rng.choice(pool)
            cli.write_raster(path[:-5] + "b.tif", b, nodata=nd, transform=tr, crs=crs)
            with rec.step("Input") as s:
                s.w("file", file_rec(b, tr, crs, nd), "file2")
            with rec.step("RasterRead", r=dict(file="file2"), subst=canon(-999)) as s:
                s.p(out=read_rec(path[:-5] + "b.tif", -999))
        out.append(("large:%d" % i, fn))
    return out


def c18(ctx):
    from p_c18 import features, layer_rec, read_back, GT
    from malstroem import io
    import cli
    out = []
    for i in range(ctx.n(3, 10)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            d = rec.dir()
            fmt, ext = ("gpkg", "gpkg") if i % 3 else ("geojson", "geojson")
            kind = rng.choice(["point", "line", "none"])
            names, fs = features(rng, kind, rng.choice([2500, 4100, 6000]))
            with rec.step("VectorWrite") as s:
                io.VectorWriter(fmt, d + "/x." + ext, "lay", None, GT[kind], cli.WKT).write_geojson_features(json.loads(json.dumps(fs)))
                s.w("layer", layer_rec(names, fs, "" if kind == "none" else cli.srs_key(cli.WKT)))
            with rec.step("VectorRead", r=dict(layer="layer")) as s:
                o = read_back(d + "/x." + ext, "lay", names, "name")
                if kind == "none":
                    o["crs"] = ""
                s.p(out=o)
        out.append(("many:%d" % i, fn))
    return out


def setup_large(rec, rng, h, w, relief=160):
    """like cli.setup, for a raster of another size: hilly with many hollows"""
    import cli
    p = cli.setup(rec, rng, hw=(6, 6), nodata=False)
    base = np.add.outer(np.arange(h), np.arange(w)) * rng.choice([0, 0, 1])
    t = (64 * 8 + rough(rng, h, w, 0, rng.choice([3, 20, relief])) + base) / 8.0
    p.a = t.astype(rng.choice(["float32", "float64"]))
    p.dem = p.a.astype(np.float32)
    cli.write_raster(p.path, p.a, transform=p.geo.transform, crs=p.crs)
    p.filter, p.tokens = "", []
    p.zres = rng.choice([.25, .5, 1.0])
    return p


def c19(ctx):
    import cli
    from p_c19 import layer, LAYERS, RASTERS, polyset
    out = []
    for i in range(ctx.n(2, 10)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = setup_large(rec, rng, rng.randint(60, 150), rng.randint(60, 150))
            if rng.random() < .5:
                p.filter, p.tokens = cli.random_filter(rng, p.geo.ca, 3)
            a, b = os.path.join(p.d, "complete"), os.path.join(p.d, "chain")
            with rec.step("Input"):
                cli.complete(p, a)
                cli.chain(p, b)
            for n in RASTERS + (["accum"] if p.accum else []):
                with rec.step("SameArtefact", what=n) as s:
                    s.p(**{k: digest(gc(cli.read_raster(os.path.join(q, n + ".tif")))) for k, q in (("a", a), ("b", b))})
            for n in LAYERS:
                with rec.step("SameArtefact", what=n) as s:
                    s.p(a=digest(layer(a + "/malstroem.gpkg", n)), b=digest(layer(b + "/malstroem.gpkg", p.name(n))))
            for n in ["finalbluespots"] + (["bluespots", "watersheds"] if p.vector else []):
                with rec.step("SameArtefact", what=n + "_polygons") as s:
                    s.p(a=digest(polyset(a + "/malstroem.gpkg", n, p.geo)), b=digest(polyset(b + "/malstroem.gpkg", p.name(n), p.geo)))
        out.append(("large:%d" % i, fn))
    return out


def c22(ctx):
    import cli
    out = []
    for i in range(ctx.n(2, 12)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = setup_large(rec, rng, rng.randint(24, 36), rng.randint(24, 36), 60)
            o = os.path.join(p.d, "out")
            p.vector = False
            p.mm8b = p.mm8 + rng.choice([1, 8, 80])
            with rec.step("Input"):
                (cli.complete if rng.random() < .7 else cli.chain)(p, o)
                cli.scenario(p, o, p.mm8b / 8.0, "_b")
            cli.record(rec, p, o)
            cli.record(rec, p, o, sfx="_b", static=False)
            with rec.step("MoreRain", r=dict(fin1="fin", fin2="fin_b", lev1="lev", lev2="lev_b", fdepth1="fdepth", fdepth2="fdepth_b", flab1="flab", flab2="flab_b")):
                pass
        out.append(("large:%d" % i, fn))
    return out


def c14(ctx):
    import cli
    out = []

    def many(rec):
        """tens of thousands of bluespots of one or two cells"""
        rng = ctx.rng(rec.name)
        sc, N = 8, ctx.n(9001, 20001)
        lab = np.vstack([alternating(N)] * 2).astype(np.int32)
        n = int(lab.max())
        z = rough(rng, 2, N, 0, 12)
        mn, mx = z.min(0), z.max(0)
        rec.put(lab=gi(lab), dem=(z * 1000).tolist(), ids=[dict(id=k) for k in range(n + 1)], seg=segments(lab, list(range(n + 1))))
        d = rec.dir()
        cli.write_raster(d + "/dem.tif", (z / sc).astype(np.float32))
        cli.write_raster(d + "/lab.tif", lab, nodata=0)
        cols = {k: 2 * k - 1 for k in range(1, n + 1)}
        spill = {k: int(mx[c]) + 1 + k % 3 for k, c in cols.items()}
        cap = {k: 2 * spill[k] - int(z[0, c]) - int(z[1, c]) for k, c in cols.items()}
        cap[0], spill[0] = 0, 0
        vol = {k: rng.choice([0, cap[k] * 1000, rng.randint(0, cap[k] * 1000)]) for k in range(n + 1)}
        pp = [(dict(bspot_id=k, cell_row=0, cell_col=0, bspot_area=2.0, bspot_vol=cap[k] / sc, bspot_dmax=(spill[k] - int(mn[cols[k]])) / sc if k else 0.0, bspot_fumm=1.0,
                    wshed_area=4.0), (600000.0 + k, 6200000.0)) for k in range(n + 1)]
        cli.write_layer(d + "/pp.gpkg", "gpkg", "pourpoints", pp)
        rows = [dict(nodeid=k, nodetype="pourpoint", bspot_id=k, v=vol[k] / cli.F, spillv=0.0, inputv=vol[k] / cli.F, bspot_vol=cap[k] / sc, dstrnodeid=None, pctv=None)
                for k in range(n + 1)]
        cli.write_layer(d + "/fv.gpkg", "gpkg", "finalvolumes", [(q, (600000.0, 6200000.0)) for q in rows])
        with rec.step("Input"):
            cli.run("hyps", "-bluespots", d + "/lab.tif", "-dem", d + "/dem.tif", "-pourpoints", d + "/pp.gpkg", "-zresolution", "0.25", "-out", d + "/hy.gpkg", "-out_hyps_layer", "hyps",
                    "-format", "gpkg")
            cli.run("finallevels", "-finalvols", d + "/fv.gpkg", "-finalvols_layer", "finalvolumes", "-hyps", d + "/hy.gpkg", "-hyps_layer", "hyps", "-out", d + "/lv.gpkg",
                    "-out_layer", "lv", "-format", "gpkg")
        with rec.step("Levels", r=dict(lab="lab", dem="dem", ids="ids", seg="seg"), res=cli.fine(.25) + 1, slack=2) as st:
            fs = cli.read_layer(d + "/lv.gpkg", "lv")
            rk = {v: i for i, v in enumerate(sorted({float(f["properties"]["approx_z"]) for f in fs}))}
            o = []
            for f in fs:
                q = f["properties"]
                k = q["bspot_id"]
                o.append(dict(id=cli.none(k), v=vol.get(k, -1), cap=cap.get(k, -1) * 1000, level=cli.fine(q["approx_z"]), lrank=rk[float(q["approx_z"])],
                              dmax=cli.fine(q["approx_dmax"]), spill=spill.get(k, 0) * 1000))
            st.w("lev", sorted(o, key=lambda x: x["id"]))
    out.append(("many:0", many))
    return out
