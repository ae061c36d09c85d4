"""Command line access: raster/vector IO independent of malstroem.io, running commands, recording a whole calculation."""
import json, math, os, random, re, tempfile, zlib
import numpy as np
from osgeo import gdal, ogr, osr
from click.testing import CliRunner
from common import *

gdal.UseExceptions()
_srs = osr.SpatialReference()
_srs.ImportFromEPSG(25832)
WKT = _srs.ExportToWkt()
F = 8000              # fine units per metre: 1/8 m = 1000, and volume unit cell_area/8000 m3


class CommandFailed(Exception):
    pass


def invoke(*args):
    from malstroem.scripts.cli import cli as root
    r = CliRunner().invoke(root, [str(a) for a in args])
    return r


def relative(args):
    """(working directory, the same arguments with paths relative to it); None: leave them as they are"""
    args = [str(a) for a in args]
    pat = re.compile(re.escape(tempfile.gettempdir()) + r"/vf[^/]*")
    tops = set(m.group(0) for m in map(pat.match, args) if m)
    if len(tops) != 1:
        return None, args
    top = tops.pop()
    mine = [a for a in args if a == top or a.startswith(top + "/")]
    k = zlib.crc32(" ".join(args).replace(top, "").encode()) % 6
    cwd = top if k == 0 else mine[-1] if os.path.isdir(mine[-1]) else os.path.dirname(mine[-1])
    if k > 1 or not os.path.isdir(cwd):
        return None, args
    return cwd, [os.path.relpath(a, cwd) if a in mine else a for a in args]


def run(*args):
    cwd, rel = relative(args)       # some commands with relative paths
    old = os.getcwd()
    os.chdir(cwd or old)
    try:
        r = invoke(*rel)
    finally:
        os.chdir(old)
    if r.exit_code != 0 or (r.exception is not None and not isinstance(r.exception, SystemExit)):
        raise CommandFailed("%s -> exit %s %r\n%s" % (" ".join(map(str, args)), r.exit_code, r.exception, r.output[-800:]))
    return r.output


def run_process(*args, cwd=None):
    """the command in a new interpreter: other directory, other hashing of strings"""
    import malstroem, subprocess, sys
    base = os.path.dirname(os.path.dirname(os.path.abspath(malstroem.__file__)))
    code = "import sys; sys.path.insert(0, %r); from malstroem.scripts.cli import cli; cli()" % base
    env = dict(os.environ, PYTHONHASHSEED="12345", LC_ALL="C.UTF-8", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code] + [str(a) for a in args], capture_output=True, text=True, errors="replace", cwd=cwd, env=env, timeout=50)
    if r.returncode != 0:
        raise CommandFailed("%s -> exit %s\n%s" % (" ".join(map(str, args)), r.returncode, (r.stdout + r.stderr)[-800:]))
    return r.stdout


GT = {"float32": gdal.GDT_Float32, "float64": gdal.GDT_Float64, "int16": gdal.GDT_Int16, "int32": gdal.GDT_Int32,
      "uint8": gdal.GDT_Byte, "uint16": gdal.GDT_UInt16, "uint32": gdal.GDT_UInt32, "int64": gdal.GDT_Int64}


def write_raster(path, arr, nodata=None, transform=(600000.0, 1.0, 0.0, 6200000.0, 0.0, -1.0), crs=WKT):
    arr = np.ascontiguousarray(arr)
    ds = gdal.GetDriverByName("GTiff").Create(path, arr.shape[1], arr.shape[0], 1, GT[str(arr.dtype)])
    if transform:
        ds.SetGeoTransform(transform)
    if crs:
        ds.SetProjection(crs)
    b = ds.GetRasterBand(1)
    if nodata is not None:
        b.SetNoDataValue(nodata)
    b.WriteArray(arr)
    ds.FlushCache()
    ds = None


def read_raster(path):
    ds = gdal.Open(path)
    a = ds.GetRasterBand(1).ReadAsArray()
    ds = None
    return a


def raster_info(path):
    ds = gdal.Open(path)
    nd = ds.GetRasterBand(1).GetNoDataValue()
    res = dict(cells=gc(ds.GetRasterBand(1).ReadAsArray()), transform=[canon(v) for v in ds.GetGeoTransform()],
               crs=ds.GetProjection(), nodata="" if nd is None else canon(nd))
    ds = None
    return res


def read_layer(path, layer=None):
    """[(fid, properties, geometry or None)] in reading order"""
    ds = ogr.Open(path)
    if ds is None:
        raise CommandFailed("cannot open " + path)
    lyr = ds.GetLayerByName(layer) if layer else ds.GetLayer(0)
    if lyr is None:
        raise CommandFailed("no layer %s in %s" % (layer, path))
    res = []
    for f in lyr:
        j = json.loads(f.ExportToJson())
        res.append(j)
    lyr = ds = None
    return res


def layer_crs(path, layer):
    ds = ogr.Open(path)
    lyr = ds.GetLayerByName(layer)
    s = lyr.GetSpatialRef()
    r = s.ExportToWkt() if s else ""
    lyr = ds = None
    return r


def file_digest(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()[:24]


# --------------------------------------------------------------------------------------------- georeference
class Geo:
    """affine transform with integer coefficients in units of `unit` (a, b, d, f even)"""
    def __init__(self, ox, oy, a, b, d, f, unit):
        self.ox, self.oy, self.a, self.b, self.d, self.f, self.unit = ox, oy, a, b, d, f, unit

    @property
    def transform(self):
        u = self.unit
        return (self.ox * u, self.a * u, self.b * u, self.oy * u, self.d * u, self.f * u)

    @property
    def ca(self):
        return abs(self.a * self.f) * self.unit ** 2

    def spec(self):
        return dict(ox=self.ox, oy=self.oy, a=self.a, b=self.b, d=self.d, f=self.f)

    def units(self, x, y):
        return [ei(x / self.unit, 1, 1e-9), ei(y / self.unit, 1, 1e-9)]

    def cell(self, x, y):
        """fractional (row, col) of a world coordinate, 0-based corners"""
        u = self.unit
        X, Y = x / u - self.ox, y / u - self.oy
        det = self.a * self.f - self.b * self.d
        col = (self.f * X - self.b * Y) / det
        row = (self.a * Y - self.d * X) / det
        return row, col

    def cell1(self, x, y):
        r, c = self.cell(x, y)
        return [ei(r + .5, 1, 1e-6), ei(c + .5, 1, 1e-6)]


def geo_for(rng, rotated=False):
    size = rng.choice([1.0, 1.0, 2.0, 0.5, 0.4, 1.6, 5.0, 10.0, 0.25])
    unit = size / 2
    a, f = 2, rng.choice([-2, -2, -2, 2])
    b = d = 0
    if rotated:
        unit = size / 8
        a, f = 8, rng.choice([-8, 8])
        b, d = rng.choice([0, 2, 4, -6]), rng.choice([0, -2, 6, 4])
    if not rotated and rng.random() < .15:
        # not quite square, as far as the code accepts it
        unit, a, f = size / 200, 200, rng.choice([-201, -199, 201, -200])
        if f % 2:
            unit, a, f = unit / 2, 400, 2 * f
    return Geo(rng.randint(-40, 4000), rng.randint(0, 60000), a, b, d, f, unit)


def rings(geom, geo):
    """all rings of a polygon/multipolygon in (col, row) corner units"""
    polys = geom["coordinates"] if geom["type"] == "MultiPolygon" else [geom["coordinates"]]
    res = []
    for p in polys:
        for ring in p:
            out = []
            for pt in ring:
                r, c = geo.cell(pt[0], pt[1])
                out.append([ei(c, 1, 1e-6), ei(r, 1, 1e-6)])
            res.append(out)
    return res


# --------------------------------------------------------------------------------------------- calculation
class Params:
    omit = False  # the chain of subcommands leaves out layer options which have a documented default
    names = {}    # names of the layers a chain wrote, where they differ from those of `complete`

    def name(self, n):
        return self.names.get(n, n)

    def opt(self, option, name, default):
        return [] if self.omit and name == default else [option, name]

    vs = 1.0      # power of two: the elevations (and rain) on disk are those of the case times vs.  Everything recorded is divided by it again.


def num_tok(x):
    """decimal literal and its token"""
    s = ("%g" % x)
    from fractions import Fraction
    f = Fraction(s)
    return s, ["num", f.numerator, f.denominator]


def random_filter(rng, ca, dmax, allow_empty=True):
    """(text, tokens); thresholds near the scale of the case.  Unless the cell area is a short binary fraction they keep
    clear of attainable values (the measures are float products)."""
    if allow_empty and rng.random() < .4:
        return "", []
    off = 0 if ca * 16 == int(ca * 16) else 0.4

    def atom_cmp():
        name = rng.choice(["area", "maxdepth", "volume"])
        x = {"area": (rng.choice([0, 1, 1, 1.5, 2, 3, 5, 8]) + off) * ca, "maxdepth": rng.choice([0, 0.125, 0.125, 0.2, 0.25, 0.3, 1, 1.5, dmax / 2]),
             "volume": (rng.choice([0, 0.125, 0.125, 0.25, 0.5, 1, 2.5, 7]) + off / 8) * ca}[name]
        x = float("%.4g" % x)
        s, t = num_tok(x)
        op = rng.choice([">", ">", ">", ">=", ">=", "<", "<=", "!=", "!=", "=="])
        if rng.random() < .2:
            return "%s %s %s" % (s, op, name), [t, ["cmp", op], ["id", name]]
        return "%s %s %s" % (name, op, s), [["id", name], ["cmp", op], t]

    def expr(depth):
        if depth == 0 or rng.random() < .35:
            return atom_cmp()
        a, ta = expr(depth - 1)
        b, tb = expr(depth - 1)
        op = rng.choice(["and", "or"])
        t, tt = "%s %s %s" % (a, op, b), ta + [[op]] + tb
        if rng.random() < .5:
            return "(%s)" % t, [["("]] + tt + [[")"]]
        return t, tt
    return expr(rng.choice([0, 1, 2, 2]))


def hollows(t):
    """number of interior cells below all their neighbours"""
    return sum(t[r, c] < min(t[y, x] for y in (r - 1, r, r + 1) for x in (c - 1, c, c + 1) if (y, x) != (r, c))
               for r in range(1, t.shape[0] - 1) for c in range(1, t.shape[1] - 1))


def setup(rec, rng, maxside=9, rotated=False, minside=1, hw=None, nodata=True, kinds=None, relief=None, scaling=False):
    """random DEM on disk and options"""
    p = Params()
    p.d = rec.dir()
    p.scale = 8
    lo = 64 * p.scale
    relief = relief or rng.choice([2, 6, 20, 20, 60, 240])
    if kinds is None and rng.random() < .75:
        kinds = RICH
        if hw is None and maxside >= 8 and rng.random() < .8:
            hw = (rng.randint(6, maxside + 4), rng.randint(6, maxside + 4))
    for _ in range(6):
        t = np.array(terrain(rng, lo, lo + relief, maxside=maxside, minside=minside, hw=hw, kinds=kinds), dtype=np.float64) / p.scale
        if kinds is not RICH or hollows(t) >= 2:
            break
    p.a = t.astype(rng.choice(["float32", "float32", "float64"]))
    p.nodata = None
    p.exact = True
    if scaling and rng.random() < .3:
        p.vs = 2.0 ** rng.choice([-24, -20, -17, -14, -10, -10, -6, -3, 4, 10])
        nodata = False
    if nodata and rng.random() < .25:
        # nodata cells become -999 m: hilly terrain with holes
        p.nodata = rng.choice([-9999.0, -999.0, 0.0, 255.0])
        for _ in range(rng.randint(1, 4)):
            p.a[rng.randrange(t.shape[0]), rng.randrange(t.shape[1])] = p.nodata
        p.exact = False
    p.dem = p.a.astype(np.float32)
    if p.nodata is not None:
        p.dem = np.where(p.dem == np.float32(p.nodata), np.float32(-999), p.dem).astype(np.float32)
    p.geo = geo_for(rng, rotated)
    p.path = os.path.join(p.d, "dem.tif")
    p.crs = crs_wkt(random.Random(rec.name), [25832, 25832, 32633])
    write_raster(p.path, (p.a * p.vs).astype(p.a.dtype), nodata=p.nodata, transform=p.geo.transform, crs=p.crs)
    p.accum = rng.random() < .5
    p.vector = rng.random() < .4
    p.filter, p.tokens = random_filter(rng, p.geo.ca, relief / 8.0) if rng.random() < .4 and p.vs == 1 else ("", [])
    p.mm8 = rng.choice([0, 1, 8, 40, 160, 333, 800, 8000, 80000])
    p.mm = p.mm8 / 8.0
    top = float(p.dem.max() - p.dem.min()) if p.exact else 1100.0
    fits = [x for x in [0.01, 0.02, 0.05, 0.1, 0.125, 0.25, 0.3, 0.5, 1.0, 3.0] if top / x <= 40]
    p.zres = rng.choice(fits or [top / 30])
    p.omit = rng.random() < .5
    return p


def complete(p, out, run=run):
    os.makedirs(out)
    args = ["complete", "-dem", p.path, "-outdir", out, "-mm", repr(p.mm * p.vs), "-zresolution", repr(p.zres * p.vs)]
    if p.accum:
        args.append("-accum")
    if p.vector:
        args.append("-vector")
    if p.filter:
        args += ["-filter", p.filter]
    run(*args)


def chain(p, out, order=None):
    """the documented subcommands one by one, same artefact names as complete"""
    os.makedirs(out)
    o = lambda n: os.path.join(out, n)
    db = o("malstroem.gpkg")
    run("filled", "-dem", p.path, "-out", o("filled.tif"))
    run("depths", "-dem", p.path, "-filled", o("filled.tif"), "-out", o("bs_depths.tif"))
    run("flowdir", "-dem", p.path, "-out", o("flowdir.tif"))
    if p.accum:
        run("accum", "-flowdir", o("flowdir.tif"), "-out", o("accum.tif"))
    run(*(["bspots", "-depths", o("bs_depths.tif"), "-out", o("bluespots.tif")] + (["-filter", p.filter] if p.filter else [])))
    run("wsheds", "-bluespots", o("bluespots.tif"), "-flowdir", o("flowdir.tif"), "-out", o("watersheds.tif"))
    if p.vector:
        run("polys", "-raster", o("bluespots.tif"), "-out", db, "-layername", "bluespots", "-format", "gpkg")
        run("polys", "-raster", o("watersheds.tif"), "-out", db, "-layername", "watersheds", "-format", "gpkg")
    p.names = dict(hypsometry="hyps", finalstate="finalvolumes", finalbluespots="polygonized") if p.omit else {}
    run(*(["pourpts", "-bluespots", o("bluespots.tif"), "-depths", o("bs_depths.tif"), "-watersheds", o("watersheds.tif"),
           "-out", db, "-format", "gpkg"] + p.opt("-layername", "pourpoints", "pourpoints")
          + (["-accum", o("accum.tif")] if p.accum else ["-dem", p.path])))
    run("network", "-bluespots", o("bluespots.tif"), "-flowdir", o("flowdir.tif"), "-pourpoints", db, *p.opt("-pourpoints_layer", "pourpoints", "pourpoints"),
        "-out", db, *p.opt("-out_nodes_layer", "nodes", "nodes"), *p.opt("-out_streams_layer", "streams", "streams"), "-format", "gpkg")
    run("hyps", "-bluespots", o("bluespots.tif"), "-dem", p.path, "-pourpoints", db, *p.opt("-pourpoints_layer", "pourpoints", "pourpoints"),
        "-zresolution", repr(p.zres * p.vs), "-out", db, *p.opt("-out_hyps_layer", p.name("hypsometry"), "hyps"), "-format", "gpkg")
    scenario(p, out, p.mm, "")


def scenario(p, out, mm, sfx):
    """one rain scenario under layer names with a suffix"""
    o = lambda n: os.path.join(out, n)
    N = lambda n: n + sfx if sfx else p.name(n)
    db = o("malstroem.gpkg")
    run("initvolumes", "-nodes", db, *p.opt("-nodes_layer", "nodes", "nodes"), "-mm", repr(mm * p.vs), "-out", db,
        *p.opt("-out_layer", N("initvolumes"), "initvolumes"), "-format", "gpkg")
    run("finalvolumes", "-inputvolumes", db, *p.opt("-inputvolumes_layer", N("initvolumes"), "initvolumes"), "-out", db,
        *p.opt("-out_layer", N("finalstate"), "finalvolumes"), "-format", "gpkg")
    run("finallevels", "-finalvols", db, *p.opt("-finalvols_layer", N("finalstate"), "finalvolumes"), "-hyps", db,
        *p.opt("-hyps_layer", p.name("hypsometry"), "hyps"), "-out", db, *p.opt("-out_layer", N("finallevels"), "finallevels"), "-format", "gpkg")
    run("finalbluespots", "-bluespots", o("bluespots.tif"), "-dem", p.path, "-finallevels", db, *p.opt("-finallevels_layer", N("finallevels"), "finallevels"),
        "-out_depths", o("finaldepths%s.tif" % sfx), "-out_bluespots", o("finalbluespots%s.tif" % sfx))
    run("polys", "-raster", o("finalbluespots%s.tif" % sfx), "-out", db, *p.opt("-layername", N("finalbluespots"), "polygonized"), "-format", "gpkg")


# --------------------------------------------------------------------------------------------- encoding of layers
TOL = 1e-9


def enc_pps(feats, p):
    ca, dd = p.geo.ca, p.scale
    res = []
    for f in feats:
        q = f["properties"]
        xy = f["geometry"]["coordinates"]
        x, y = p.geo.units(xy[0], xy[1])
        res.append(dict(id=int(q["bspot_id"]), row=int(q["cell_row"]) + 1, col=int(q["cell_col"]) + 1,
                        area_c=ei(q["bspot_area"] / ca, 1, TOL), vol_d=ei(q["bspot_vol"] / ca / p.vs * dd, 1, TOL), dmax_d=ei(q["bspot_dmax"] / p.vs * dd),
                        wsh_c=ei(q["wshed_area"] / ca, 1, TOL), fumm100=er(q["bspot_fumm"] / p.vs * 100),
                        fumm_v=ei(q["bspot_fumm"] / 1000 * (q["wshed_area"] / ca) / p.vs * dd, 1, TOL), x=x, y=y))
    return res


def none(v):
    return -1 if v is None else int(v)


def enc_nodes(feats, streams, p):
    ca, dd = p.geo.ca, p.scale
    geom = {}
    for f in streams or []:
        geom.setdefault(f["properties"]["nodeid"], []).append(f)
    res = []
    for f in feats:
        q = f["properties"]
        x, y = p.geo.units(*f["geometry"]["coordinates"][:2])
        g, xy = [], []
        st = geom.get(q["nodeid"], [])
        if len(st) == 1 and none(st[0]["properties"]["dstrnodeid"]) == none(q["dstrnodeid"]):
            for c in st[0]["geometry"]["coordinates"]:
                g.append(p.geo.cell1(c[0], c[1]))
                xy.append(p.geo.units(c[0], c[1]))
        res.append(dict(id=int(q["nodeid"]), down=none(q["dstrnodeid"]), junction=q["nodetype"] == "junction",
                        row=int(q["cell_row"]) + 1, col=int(q["cell_col"]) + 1, geom=g, xy=xy,
                        cap=ei(q["bspot_vol"] / ca / p.vs * dd * 1000, 1, TOL), wshed=ei(q["wshed_area"] / ca, 1, TOL),
                        wsh=ei(q["wshed_area"] / ca, 1, TOL), area=ei(q["bspot_area"] / ca, 1, TOL), bspot=none(q["bspot_id"]), x=x, y=y))
    return res


def enc_vols(feats, p, attr="inputv"):
    return [dict(id=int(f["properties"]["nodeid"]), vol=ei(f["properties"][attr] / p.geo.ca / p.vs * F, 1, TOL)) for f in feats]


def enc_snodes(feats, p, attr="inputv"):
    ca = p.geo.ca * p.vs
    return [dict(id=int(q["nodeid"]), down=none(q["dstrnodeid"]), cap=ei(q["bspot_vol"] / ca * F, 1, TOL),
                 inp=ei(q[attr] / ca * F, 1, TOL), wsh=ei(q["wshed_area"] / p.geo.ca, 1, TOL)) for q in (f["properties"] for f in feats)]


def enc_fin(feats, p, attr="inputv"):
    ca = p.geo.ca * p.vs
    res = []
    for f in feats:
        q = f["properties"]
        res.append(dict(id=int(q["nodeid"]), v=ei(q["v"] / ca * F, 1, TOL), spill=ei(q["spillv"] / ca * F, 1, TOL),
                        inp=ei(q[attr] / ca * F, 1, TOL), pct=-1 if q.get("pctv") is None else er(q["pctv"] * 100)))
    return res


def um(x):
    return er(float(x) * 1e6)


def enc_hyps(feats, vs=1.0):
    um = lambda x: er(float(x) / vs * 1e6)
    res = []
    for f in feats:
        q = f["properties"]
        n = int(q["hist_num_bins"])
        counts = [int(c) for c in q["hist_counts"].split("|")] if q["hist_counts"] else []
        res.append(dict(id=int(q["bspot_id"]), n=n, lo=um(q["hist_lower_bound"]), hi=um(q["hist_upper_bound"]),
                        res=um(q["hist_resolution"]), counts=counts, zmin=um(q["zmin"]), zmax=um(q["zmax"])))
    return res


def fine(x):
    return er(float(x) * F)


def enc_levels(feats, hyps, p, ranks=None):
    hx = {int(f["properties"]["bspot_id"]): f["properties"] for f in hyps}
    res = []
    for f in feats:
        q = f["properties"]
        k = int(q["bspot_id"])
        h = hx[k]
        z = float(q["approx_z"]) / p.vs
        res.append(dict(id=k, v=ei(q["v"] / p.geo.ca / p.vs * F, 1, TOL), cap=ei(h["bspot_vol"] / p.geo.ca / p.vs * F, 1, TOL), level=fine(z),
                        lrank=ranks[z] if ranks else 0, dmax=fine(q["approx_dmax"] / p.vs), spill=fine((h["zmin"] + h["bspot_dmax"]) / p.vs)))
    return res


def record(rec, p, out, sfx="", static=True, scen=True):
    """log a finished calculation step by step"""
    from malstroem.algorithms import fill
    o = lambda n: os.path.join(out, n)
    db = o("malstroem.gpkg")
    sc = p.scale
    R = read_raster
    N = lambda x: x + sfx
    L = lambda x: x + sfx if sfx else p.name(x)
    lab = R(o("bluespots.tif"))
    if static:
        rec.put(dem=gi(p.dem, sc), _mask=[[1]])
        with rec.step("Fill", r=dict(dem="dem")) as s:
            filled = R(o("filled.tif")) / p.vs
            s.w("filled", gi(filled, sc))
        with rec.step("Depths", r=dict(dem="dem", filled="filled")) as s:
            depth = R(o("bs_depths.tif")) / p.vs
            s.w("depths", gi(depth, sc), "depth")
        with rec.step("FlowdirDem", r=dict(filled="filled")) as s:
            fd = R(o("flowdir.tif"))
            s.w("fd", gi(fd))
        short, diag = fill.minimum_safe_short_and_diag(p.dem)
        nofl = fill.fill_terrain_no_flats(p.dem, short, diag)
        if p.exact:
            from p_c02 import pairs, ULP
            rec.put(t=pairs(nofl, 8, 8 * ULP))
            with rec.step("FlowdirOf", r=dict(t="t", fd="fd")):
                pass
        if p.accum:
            with rec.step("Accum", r=dict(fd="fd")) as s:
                s.w("acc", gi(R(o("accum.tif"))))
        with rec.step("Label", r=dict(depth="depth"), tokens=p.tokens, dden=sc, ca=frac(p.geo.ca)) as s:
            s.w("lab", gi(lab))
        with rec.step("Wsheds", r=dict(fd="fd", lab="lab"), u=0) as s:
            s.w("wsh", gi(R(o("watersheds.tif"))))
        if not p.accum:
            rec.put(order=[[[0, v] for v in row] for row in rank(nofl)[0]])
        with rec.step("PourPoints", r=dict(fd="fd", lab="lab", depth="depth", wsh="wsh", **(dict(acc="acc") if p.accum else dict(t="order"))),
                      dden=sc, geo=p.geo.spec()) as s:
            s.w("pps", enc_pps(read_layer(db, "pourpoints"), p))
        with rec.step("Network", r=dict(fd="fd", lab="lab", pps="pps"), geometry=True, vu=1000, geo=p.geo.spec()) as s:
            s.w("nodes", enc_nodes(read_layer(db, "nodes"), read_layer(db, "streams"), p))
        rec.put(demz=[[um(v) for v in row] for row in p.dem])
        with rec.step("Hyps", r=dict(lab="lab", dem="demz"), res=um(p.zres), tol=200) as s:
            s.w("hy", enc_hyps(read_layer(db, p.name("hypsometry")), p.vs))
        if p.vector:
            for nm in ("bluespots", "watersheds"):
                polys(rec, p, gi(R(o(nm + ".tif"))), db, nm)
        rec.put(demf=[[fine(v) for v in row] for row in p.dem])
    if not scen:
        return
    mm8 = p.mm8 if not sfx else p.mm8b
    with rec.step("RainMm", r=dict(nodes="nodes", wsh="wsh"), mm=mm8, cells=int(p.dem.size)) as s:
        iv = read_layer(db, L("initvolumes"))
        s.w("vols", enc_vols(iv, p), N("vols"))
    rec.put(**{N("snodes"): enc_snodes(iv, p)})
    with rec.step("Spill", r=dict(nodes=N("snodes")), digits=4) as s:
        s.w("fin", enc_fin(read_layer(db, L("finalstate")), p), N("fin"))
    hy = read_layer(db, p.name("hypsometry"))
    lv = read_layer(db, L("finallevels"))
    with rec.step("Levels", r=dict(lab="lab", dem="demf"), res=fine(p.zres) + 1, slack=2) as s:
        s.w("lev", enc_levels(lv, hy, p), N("lev"))
    z = {int(f["properties"]["bspot_id"]): float(f["properties"]["approx_z"]) / p.vs for f in lv}
    rec.put(**{N("lz"): [dict(id=k, z=fine(v)) for k, v in z.items()]})
    with rec.step("FinalDepths", r=dict(lab="lab", dem="demf", levels=N("lz"))) as s:
        s.w("fdepth", [[fine(v / p.vs) for v in row] for row in R(o("finaldepths%s.tif" % sfx)).tolist()], N("fdepth"))
    ks = sorted(z)
    rd, rz = rank(p.dem, np.array([[z[k] for k in ks]]))
    rec.put(**{N("lr"): [dict(id=k, z=v) for k, v in zip(ks, rz[0])], "demr" + sfx: rd})
    with rec.step("FinalLabels", r=dict(lab="lab", dem="demr" + sfx, levels=N("lr"))) as s:
        s.w("flab", gi(R(o("finalbluespots%s.tif" % sfx))), N("flab"))
    polys(rec, p, gi(R(o("finalbluespots%s.tif" % sfx))), db, L("finalbluespots"), N("finalbluespots"))
    with rec.step("Account", r=dict(lab="lab", dem="dem", filled="filled", wsh="wsh", nodes="snodes" + sfx, fin=N("fin"), fdepth=N("fdepth"), flab=N("flab")),
                  vu=1000, rain=mm8, fine=1000, filtered=bool(p.tokens)):
        pass


def polys(rec, p, g, db, layer, name=None):
    name = "g_" + (name or layer)
    rec.put(**{name: g})
    with rec.step("Polys", r=dict(g=name), u=0) as s:
        s.p(feats=[dict(id=int(f["properties"]["bspot_id"]), rings=rings(f["geometry"], p.geo)) for f in read_layer(db, layer)],
            crs_in=digest(WKT_FROM(p)), crs_out=digest(srs_key(layer_crs(db, layer))))


def _uncoded():
    """coordinate systems without a single code: local ones, ones with heights"""
    res = {}
    for name, text in [("local", 'LOCAL_CS["site",UNIT["metre",1]]'), ("utm_dvr90", "EPSG:25832+5799"), ("etrs89_3d", "EPSG:4937"),
                       ("tmerc", "+proj=tmerc +lat_0=55.7 +lon_0=12.5 +k=1 +x_0=1000 +y_0=2000 +ellps=GRS80 +units=m"),
                       ("utm_intl", "+proj=utm +zone=32 +ellps=intl +towgs84=-87,-98,-121,0,0,0,0 +units=m")]:
        k = osr.SpatialReference()
        try:
            k.SetFromUserInput(text)
            res[name] = k
        except RuntimeError:
            pass
    return res


UNCODED = _uncoded()
# formats which cannot hold all of them
CODED_ONLY = {"geojson": ["utm_dvr90", "etrs89_3d"], "shp": ["local"]}


def crs_wkt(rng, codes, uncoded=.35, fmt=None):
    names = [n for n in UNCODED if n in CODED_ONLY.get(fmt, UNCODED)]
    if names and rng.random() < uncoded:
        return UNCODED[rng.choice(names)].ExportToWkt()
    k = rng.choice(codes)
    if k is None:
        return ""
    s = osr.SpatialReference()
    s.ImportFromEPSG(k)
    return s.ExportToWkt()


def srs_key(wkt):
    """what identifies a coordinate system across formats"""
    if not wkt:
        return ""
    s = osr.SpatialReference()
    s.ImportFromWkt(wkt)
    for name, k in UNCODED.items():
        if s.IsSame(k):
            return name
    return "%s:%s" % (s.GetAuthorityName(None), s.GetAuthorityCode(None))


def WKT_FROM(p):
    ds = gdal.Open(p.path)
    w = ds.GetProjection()
    ds = None
    return srs_key(w)


def frac(x):
    from fractions import Fraction
    f = Fraction("%.10g" % x)
    return [f.numerator, f.denominator]


def complete_case(ctx, name, **kw):
    def fn(rec):
        rng = ctx.rng("complete:" + name)
        p = setup(rec, rng, **dict(dict(scaling=True), **kw))
        out = os.path.join(p.d, "out")
        with rec.step("Input"):
            if rng.random() < .5:
                complete(p, out)
            else:
                chain(p, out)
        record(rec, p, out)
    return name, fn


# --------------------------------------------------------------------------------------------- layers not written by malstroem
OFT = {int: ogr.OFTInteger64, float: ogr.OFTReal, str: ogr.OFTString}


def write_layer(path, fmt, layer, feats, geom="point", crs=WKT):
    """feats: [(properties, coordinates or None)]; column types from the first non null value"""
    drv = ogr.GetDriverByName(fmt)
    ds = ogr.Open(path, update=1) if os.path.exists(path) else drv.CreateDataSource(path)
    srs = None
    if crs:
        srs = osr.SpatialReference()
        srs.ImportFromWkt(crs)
    gt = dict(point=ogr.wkbPoint, none=ogr.wkbNone, line=ogr.wkbLineString)[geom]
    lyr = ds.CreateLayer(layer, srs, gt)
    cols = {}
    for q, _ in feats:
        for k, v in q.items():
            if k not in cols or cols[k] is None:
                cols[k] = type(v) if v is not None else None
    for k, t in cols.items():
        lyr.CreateField(ogr.FieldDefn(k, OFT[t or float]))
    if fmt.lower() == "gpkg":
        lyr.StartTransaction()
    for q, g in feats:
        f = ogr.Feature(lyr.GetLayerDefn())
        for k, v in q.items():
            if v is None:
                f.SetFieldNull(k)
            else:
                f.SetField(k, v)
        if g is not None:
            o = ogr.Geometry(gt)
            if geom == "point":
                o.AddPoint_2D(*g)
            else:
                for x in g:
                    o.AddPoint_2D(*x)
            f.SetGeometry(o)
        lyr.CreateFeature(f)
    if fmt.lower() == "gpkg":
        lyr.CommitTransaction()
    lyr = None
    ds.FlushCache()
    ds = None


def world(geo, row, col):
    """centre of a 0-based cell"""
    t = geo.transform
    return (t[0] + (col + .5) * t[1] + (row + .5) * t[2], t[3] + (col + .5) * t[4] + (row + .5) * t[5])


def out_name(rng, d, base, formats=("gpkg", "geojson")):
    """(path, format, layer option needed for reading or None)"""
    fmt = rng.choice(formats)
    ext = {"gpkg": "gpkg", "geojson": "geojson", "CSV": "csv", "ESRI shapefile": "shp"}[fmt]
    return os.path.join(d, "%s.%s" % (base, ext)), fmt
