"""C16: native speedups and their switch."""
import importlib, sys, warnings
import numpy as np
from common import *
from malstroem import algorithms
from malstroem.algorithms import fill, flow, label, speedups
import malstroem.approx, malstroem.bluespots, malstroem.dem, malstroem.hyps, malstroem.network, malstroem.rain, malstroem.streams, malstroem.vector
from p_c04 import random_forest, drained_forest
from p_c07 import random_labels
from p_c11 import labels


def load_without_native():
    """a second copy of malstroem in which the compiled modules cannot be imported"""
    saved = {k: v for k, v in sys.modules.items() if k == "malstroem" or k.startswith("malstroem.")}
    for k in saved:
        del sys.modules[k]
    try:
        import glob, os
        pkg = os.path.dirname(speedups.__file__)
        for f in os.listdir(pkg):
            if f.endswith(".so"):
                sys.modules["malstroem.algorithms.speedups." + f.split(".")[0]] = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = {n: importlib.import_module(n) for n in sorted(saved)
                 if n.split(".")[-1] not in ("_fill", "_flow", "_label") and ".scripts" not in n}
        return m
    finally:
        for k in [k for k in sys.modules if k == "malstroem" or k.startswith("malstroem.")]:
            del sys.modules[k]
        sys.modules.update(saved)


speedups.enable()
PURE = load_without_native()
MODS = {n: sys.modules[n] for n in PURE}


def code(f):
    return getattr(f, "__code__", None)


def swappable():
    """names whose implementation with speedups is not the pure Python one"""
    res = {}
    for n, m in MODS.items():
        for a, f in vars(m).items():
            g = vars(PURE[n]).get(a)
            if code(g) is not None and callable(f) and not isinstance(f, type) and code(f) != code(g):
                res[(n, a)] = code(g)
    return res


SWAP = swappable() if speedups.available else {}


def implementation():
    return {n + "." + a: "python" if code(vars(MODS[n]).get(a)) == c else "native" for (n, a), c in SWAP.items()}


P = lambda n: PURE["malstroem.algorithms." + n]


# ---------------------------------------------------------------- operations: (name, inputs from a generator, function of the modules)
def g_dem(rng):
    k = rng.random()
    if k < .5:
        return np.array(terrain(rng, rng.choice([0, -30, 500]), rng.choice([520, 540, 900]) if rng.random() < .5 else 505, maxside=12), dtype=np.float32) / np.float32(rng.choice([1, 8, 10]))
    h, w = shape(rng, 12)
    return (np.array([[rng.gauss(0, 1) for _ in range(w)] for _ in range(h)]) * rng.choice([1e-3, 1, 100]) + rng.choice([0, -50, 1000])).astype(np.float32)


def op_fill(rng):
    dem = forms(rng, g_dem(rng))
    return lambda m: [hexa(m("fill").fill_terrain(dem.copy(order="K") if rng is None else dem))]


def op_noflats(rng):
    dem = g_dem(rng)
    s, d = fill.minimum_safe_short_and_diag(dem)
    k = rng.choice(["rec", "rec", "zero", "big", "any"])
    if k == "zero":
        s, d = 0, 0
    elif k == "big":
        s, d = .125, .1875
    elif k == "any":
        s = rng.random() * 1e-3
        d = s * rng.choice([1, 1.5, math.sqrt(2)])
    dem = forms(rng, dem)
    return lambda m: [hexa(m("fill").fill_terrain_no_flats(dem, s, d))]


def op_flowdir(rng):
    dem = g_dem(rng)
    if rng.random() < .5:
        s, d = P("fill").minimum_safe_short_and_diag(dem)
        t = P("fill").fill_terrain_no_flats(dem, s, d)
    else:
        t = dem.astype(np.float64)
    t = forms(rng, t)
    o = rng.random() < .7
    return lambda m: [hexa(m("flow").terrain_flowdirection(t, edges_flow_outward=o))]


def op_accum(rng):
    h, w = shape(rng, 14)
    fd = forms(rng, np.array(random_forest(rng, h, w, rng.choice([0, .1])), dtype=np.uint8))
    return lambda m: [hexa(m("flow").accumulated_flow(fd))]


def op_wsheds(rng):
    h, w = shape(rng, 14)
    u = rng.choice([0, 0, -1, 200])
    fd = np.array(drained_forest(rng, h, w), dtype=np.uint8)
    lab = random_labels(rng, h, w, u)
    dt = rng.choice(["int32", "int32", "int64", "int64", "int16", "uint8", "uint16"])
    if dt[0] == "u" and u < 0:
        dt = "int64"
    k = rng.choice([1, 1, 70001]) if dt in ("int32", "int64") else 1
    if dt == "int64" and rng.random() < .3:
        k = 2 ** 33 + 1
    lab = np.array([[v if v == u else v * k for v in row] for row in lab], dtype=dt)
    fd, lab = forms(rng, fd), forms(rng, lab)

    def f(m):
        x = lab.copy()
        m("flow").watersheds_from_labels(fd, x, u)
        return [hexa(x)]
    return f


def op_assign(rng):
    h, w = shape(rng, 12)
    fd = np.array(drained_forest(rng, h, w), dtype=np.uint8)
    u = rng.choice([0, 0, 7])
    lab = np.array(random_labels(rng, h, w, u), dtype=rng.choice(["int32", "int64", "int16", "uint8"]))
    cell = (rng.randrange(h), rng.randrange(w))

    def f(m):
        x = lab.copy()
        m("flow").assign_watersheds_upstream(fd, x, cell, u)
        return [hexa(x)]
    return f


def op_trace(rng):
    h, w = shape(rng, 12)
    fd = np.array(random_forest(rng, h, w, rng.choice([0, .1])), dtype=np.uint8)
    cell = (rng.randrange(h), rng.randrange(w))

    def f(m):
        x = np.zeros((h, w), dtype=np.float64)
        m("flow").trace_accumulated_flow(fd, x, cell)
        return [hexa(x)]
    return f


def g_labelled(rng):
    h, w = shape(rng, 12)
    lab = labels(rng, h, w)
    if rng.random() < .3:      # labels without cells
        lab = lab * rng.choice([2, 3])
    if rng.random() < .1:
        lab = lab + 250
    dt = rng.choice(["float32", "float32", "float64", "float64", "int32", "int16", "uint8"])
    k = rng.random()
    data = np.array([[rng.choice([0, 1, 2, 3.5, 7, 100]) if k < .4 else rng.gauss(0, 40) for _ in range(w)] for _ in range(h)])
    if dt == "uint8":
        data = abs(data) % 255
    data = data.astype(dt)
    ld = rng.choice(["int32", "int32", "int32", "int64", "uint8", "int16", "uint16"])
    if lab.max() > 255 and ld == "uint8":
        ld = "int32"
    n = rng.choice([None, int(lab.max()), int(lab.max()) + rng.randint(1, 3)])
    return forms(rng, data), forms(rng, lab.astype(ld)), n


def op_stats(rng):
    data, lab, n = g_labelled(rng)

    def f(m):
        s = m("label").label_stats(data, lab, n)
        return [[canon(r[k]) for k in ("min", "max", "sum", "count")] for r in s]
    return f


def op_min(rng):
    data, lab, n = g_labelled(rng)

    def f(m):
        s = m("label").label_min_index(data, lab, n)
        return [[canon(r[k]) for k in ("value", "row", "col")] for r in s]
    return f


def op_max(rng):
    data, lab, n = g_labelled(rng)

    def f(m):
        s = m("label").label_max_index(data, lab, n)
        return [[canon(r[k]) for k in ("value", "row", "col")] for r in s]
    return f


def op_data(rng):
    data, lab, n = g_labelled(rng)
    bg = rng.choice([0, 0, 0, 1, -1, 2])

    def f(m):
        s = m("label").label_data(data, lab, n, bg) if rng.random() < .5 else m("label").label_data(data, lab, n, background=bg)
        return [[canon(v) for v in list(x)] for x in s]
    return f


OPS = dict(fill=op_fill, noflats=op_noflats, flowdir=op_flowdir, accum=op_accum, wsheds=op_wsheds, assign=op_assign, trace=op_trace,
           stats=op_stats, minix=op_min, maxix=op_max, data=op_data)
pure = lambda n: PURE["malstroem.algorithms." + n]
real = lambda n: MODS["malstroem.algorithms." + n]


def hyps_of(m, dem, lab):
    return [[k, [int(c) for c in s.zhistogram.counts], canon(s.zhistogram.bins.lower_bound), canon(s.zmin), canon(s.zmax)]
            for k, s in m.bluespot_hypsometry_stats(lab, dem, 0.5)]


def cases(ctx):
    import big
    out = big.c16(ctx)
    per = dict(fill=160, noflats=160, flowdir=160, accum=100, wsheds=100, assign=60, trace=60, stats=120, minix=120, maxix=20, data=120)
    for name, mk in OPS.items():
        for i in range(ctx.n(per[name], per[name] * 15)):
            def fn(rec, name=name, mk=mk):
                rng = ctx.rng(rec.name)
                f = mk(rng)
                with rec.step("Parity", what=name) as s:
                    a = f(pure)
                    speedups.enable()
                    s.p(python=a, native=f(real))
                with rec.step("Parity", what=name) as s:
                    with mode(False):
                        s.p(python=a, native=f(real))
            out.append(("%s:%d" % (name, i), fn))
    # the switch: every history of enable/disable up to a bound
    hist = [g["cmds"] for g in GEN if "cmds" in g]
    for i, h in enumerate(hist):
        def fn(rec, h=h):
            rng = ctx.rng(rec.name)
            try:
                for c in h:
                    f = OPS[rng.choice(["fill", "noflats", "flowdir", "accum", "wsheds", "stats", "minix", "data"])](rng)
                    dem = g_dem(rng)
                    lab = labels(rng, *dem.shape)
                    with rec.step("Toggle", cmd=c, available=bool(speedups.available)) as s:
                        if c == "enable":
                            speedups.enable()
                        elif c == "disable":
                            speedups.disable()
                        s.p(enabled=bool(speedups.enabled), impl=implementation() or {"_": "python"}, result=digest(f(real)), expected=digest(f(pure)))
                        s.p(result=digest([s.e["p"]["result"], hyps_of(MODS["malstroem.hyps"], dem, lab)]),
                            expected=digest([s.e["p"]["expected"], hyps_of(PURE["malstroem.hyps"], dem, lab)]))
            finally:
                speedups.enable()
        out.append(("toggle:%d" % i, fn))
    # without compiled modules: enable only warns
    for i, h in enumerate(hist[:ctx.n(20, 60)]):
        def fn(rec, h=h):
            rng = ctx.rng(rec.name)
            sp = PURE["malstroem.algorithms.speedups"]
            f = OPS[rng.choice(["fill", "flowdir", "accum"])](rng)
            for c in h:
                with rec.step("Toggle", cmd=c, available=False) as s:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if c == "enable":
                            sp.enable()
                        elif c == "disable":
                            sp.disable()
                    s.p(enabled=bool(sp.enabled), impl={n + "." + a: "python" if code(vars(PURE[n]).get(a)) == c2 else "native" for (n, a), c2 in SWAP.items()} or {"_": "python"},
                        result=digest(f(pure)), expected=digest(f(real)))
        out.append(("unavailable:%d" % i, fn))
    return out
