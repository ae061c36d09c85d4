"""C23: commands write what they are asked for: format, creation options, layer and attribute names."""
import atexit, csv, json, os, shutil, sqlite3, tempfile
import numpy as np
from osgeo import ogr
from common import *
import cli
from p_c19 import val

DEFAULT_NAME = dict(pourpts=["pourpoints"], pourpts_accum=["pourpoints"], polys=["polygonized"], network=["nodes", "streams"], hyps=["hyps"], initvolumes=["initvolumes"],
                    initvolumes_pr=["initvolumes"], finalvolumes=["finalvolumes"], finallevels=["finallevels"])
GEOM = dict(pourpts=["point"], pourpts_accum=["point"], polys=["point"], network=["point", "line"], hyps=["none"], initvolumes=["point"], initvolumes_pr=["point"],
            finalvolumes=["point"], finallevels=["none"])
_ws = {}


class Inputs:
    """one calculation, done once per process, read only"""
    def __init__(self, k):
        self.d = tempfile.mkdtemp(prefix="vfc_")
        atexit.register(shutil.rmtree, self.d, True)
        rng = random.Random("c23:%d" % k)
        rec = Rec("inputs")
        self.p = p = cli.setup(rec, rng, hw=(9 + k, 8), nodata=False, kinds=RICH)
        shutil.copy(p.path, self.d + "/dem.tif")
        p.path = self.d + "/dem.tif"
        p.filter, p.tokens, p.accum, p.vector, p.omit, p.mm, p.zres = "", [], True, False, False, [12.5, 40.0][k % 2], .5
        cli.chain(p, self.d + "/c")
        pr = np.array([[rng.choice([0.0, 1.0, 2.5, 12.0]) for _ in range(p.dem.shape[1])] for _ in range(p.dem.shape[0])], dtype=np.float32)
        cli.write_raster(self.d + "/c/pr.tif", pr, transform=p.geo.transform)
        rec.cleanup()


def inputs(k):
    if k not in _ws:
        _ws[k] = Inputs(k)
    return _ws[k]


def path_of(fmt, d, base, layer):
    return os.path.join(d, base + ".gpkg" if fmt == "GPKG" else layer + ".geojson" if fmt == "GeoJSON" else base)


def args_of(cmd, inp, fin):
    """arguments other than those about the output; fin: (layer with volumes, attribute)"""
    f = lambda n: os.path.join(inp.d, "c", n)
    db = f("malstroem.gpkg")
    if cmd == "pourpts":
        return ["pourpts", "-bluespots", f("bluespots.tif"), "-depths", f("bs_depths.tif"), "-watersheds", f("watersheds.tif"), "-dem", inp.p.path]
    if cmd == "pourpts_accum":
        return ["pourpts", "-bluespots", f("bluespots.tif"), "-depths", f("bs_depths.tif"), "-watersheds", f("watersheds.tif"), "-accum", f("accum.tif")]
    if cmd == "polys":
        return ["polys", "-raster", f("watersheds.tif")]
    if cmd == "network":
        return ["network", "-bluespots", f("bluespots.tif"), "-flowdir", f("flowdir.tif"), "-pourpoints", db]
    if cmd == "hyps":
        return ["hyps", "-bluespots", f("bluespots.tif"), "-dem", inp.p.path, "-pourpoints", db, "-zresolution", "0.5"]
    if cmd == "initvolumes":
        return ["initvolumes", "-nodes", db, "-mm", "30"]
    if cmd == "initvolumes_pr":
        return ["initvolumes", "-nodes", db, "-pr", f("pr.tif"), "-pr_unit", "l", "-bluespots", f("watersheds.tif")]
    if cmd == "finalvolumes":
        src, layer, attr = fin or (db, "initvolumes", "")
        return ["finalvolumes", "-inputvolumes", src, "-inputvolumes_layer", layer] + (["-a", attr] if attr else [])
    if cmd == "finallevels":
        return ["finallevels", "-finalvols", db, "-finalvols_layer", "finalstate", "-hyps", db, "-hyps_layer", "hypsometry"]


def out_args(cmd, path, names, fmt_text, lco, dsco, attr, omit=False):
    r = ["-out", path, "-format", fmt_text]
    if not (omit and names == DEFAULT_NAME[cmd]):
        if cmd == "network":
            r += ["-out_nodes_layer", names[0], "-out_streams_layer", names[1]]
        else:
            r += [dict(pourpts="-layername", pourpts_accum="-layername", polys="-layername", hyps="-out_hyps_layer").get(cmd, "-out_layer"), names[0]]
    for k, v in lco:
        r += ["-lco", "%s=%s" % (k, v)]
    for k, v in dsco:
        r += ["-dsco", "%s=%s" % (k, v)]
    if attr and cmd.startswith("initvolumes"):
        r += ["-out_attribute", attr]
    return r


def look(fmt, path):
    """the datasource as it is: [new, fmt, traits, layers]"""
    res = dict(new=False, fmt="", traits=[], layers=[])
    if not os.path.exists(path):
        return dict(res, new=True)
    if fmt == "GeoJSON":
        j = json.load(open(path))
        feats = [[list(f["properties"].items()), f["geometry"]] for f in j["features"]]
        name = j.get("name", os.path.splitext(os.path.basename(path))[0])
        res["layers"].append(dict(name=name, attrs=list(j["features"][0]["properties"]) if feats else [],
                                  digest=digest([[[v for _, v in a], g] for a, g in feats]),
                                  traits=[["WRITE_NAME", "YES" if "name" in j else "NO"], ["WRITE_BBOX", "YES" if "bbox" in j else "NO"], ["DESCRIPTION", j.get("description", "")]]))
        res["fmt"] = "GeoJSON"
        return res
    if fmt == "CSV":
        for n in sorted(os.listdir(path)):
            if not n.endswith(".csv"):
                assert n.endswith(".csvt") or n.endswith(".prj"), n
                continue
            raw = open(os.path.join(path, n), newline="").read()
            head = raw.split("\n")[0]
            sep = {";": "SEMICOLON", "\t": "TAB", ",": "COMMA"}
            s = [c for c in sep if c in head]
            rows = list(csv.reader(open(os.path.join(path, n), newline=""), delimiter=s[0] if s else ","))
            wkt = rows[0].index("WKT") if "WKT" in rows[0] else None
            drop = lambda r: [v for k, v in enumerate(r) if k != wkt]
            tr = [["SEPARATOR", sep[s[0]] if s else ""]] + [["LINEFORMAT", "CRLF" if "\r\n" in raw else "LF"], ["CREATE_CSVT", "YES" if os.path.exists(os.path.join(path, n + "t")) else "NO"],
                                                           ["GEOMETRY", "AS_WKT" if wkt is not None else "NONE"]]
            res["layers"].append(dict(name=n[:-4], attrs=drop(rows[0]), digest=digest([drop(r) for r in rows[1:]]), traits=tr))
        res["fmt"] = "CSV"
        return res
    ds = ogr.Open(path)
    assert ds is not None, path
    res["fmt"] = ds.GetDriver().GetName()
    con = sqlite3.connect(path) if fmt == "GPKG" and res["fmt"] == "GPKG" else None
    if con:
        one = lambda q, *a: con.execute(q, a).fetchone()
        v = one("pragma user_version")[0]
        res["traits"] = [["VERSION", "%d.%d" % (v // 10000, v % 10000 // 100)],
                         ["ADD_GPKG_OGR_CONTENTS", "YES" if one("select 1 from sqlite_master where name='gpkg_ogr_contents'") else "NO"]]
    for i in range(ds.GetLayerCount()):
        l = ds.GetLayer(i)
        n, d = l.GetName(), l.GetLayerDefn()
        rows = []
        for f in l:
            g = f.GetGeometryRef()
            rows.append([[val(f.GetField(k)) if f.IsFieldSetAndNotNull(k) else None for k in range(d.GetFieldCount())], g.ExportToWkt() if g else None])
        tr = []
        if con:
            g = one("select column_name from gpkg_geometry_columns where table_name=?", n)
            c = one("select identifier, description from gpkg_contents where table_name=?", n)
            pk = [r[1] for r in con.execute('pragma table_info("%s")' % n) if r[5]]
            tr = [["FID", ",".join(pk)], ["IDENTIFIER", "default" if c[0] in (n, None) else c[0]], ["DESCRIPTION", c[1] or ""]]
            if g:
                tr += [["GEOMETRY_NAME", g[0]], ["SPATIAL_INDEX", "YES" if one("select 1 from sqlite_master where name=?", "rtree_%s_%s" % (n, g[0])) else "NO"]]
        elif res["fmt"] == "ESRI Shapefile":
            b = os.path.join(path, n)
            y, m, day = open(b + ".dbf", "rb").read(4)[1:]
            tr = [["ENCODING", open(b + ".cpg").read().strip() if os.path.exists(b + ".cpg") else ""],
                  ["DBF_DATE_LAST_UPDATE", "2001-02-03" if (1900 + y, m, day) == (2001, 2, 3) else "default"]]
            if os.path.exists(b + ".shp"):
                tr.append(["SPATIAL_INDEX", "YES" if os.path.exists(b + ".qix") else "NO"])
        res["layers"].append(dict(name=n, attrs=[d.GetFieldDefn(k).GetName() for k in range(d.GetFieldCount())], digest=digest(rows), traits=tr))
    ds = None
    if con:
        con.close()
    return res


_def = {}


def default(fmt, geom):
    """(traits of a datasource, of a layer) as OGR creates them without any options"""
    if (fmt, geom) not in _def:
        d = tempfile.mkdtemp(prefix="vfc_")
        path = path_of(fmt, d, "x", "l")
        cli.write_layer(path, fmt, "l", [(dict(a=1, b=2), None if fmt == "CSV" else dict(point=(600000.0, 6200000.0), line=[(0, 0), (1, 1)], none=None)[geom])], geom="none" if fmt == "CSV" else geom)
        x = look(fmt, path)
        shutil.rmtree(d)
        _def[fmt, geom] = (x["traits"], x["layers"][0]["traits"])
    return _def[fmt, geom]


_base = {}


def base(k, cmd, fmt):
    """what the command writes in this format without any further options"""
    if (k, cmd, fmt) not in _base:
        inp = inputs(k)
        d = tempfile.mkdtemp(prefix="vfc_")
        names = ["first", "second"] if cmd == "network" else ["first"]
        got = []
        if fmt == "GeoJSON" and cmd == "network":
            names = None
        path = path_of(fmt, d, "x", "first")
        cli.run(*(args_of(cmd, inp, None) + out_args(cmd, path, names, fmt, [], [], "")))
        x = look(fmt, path)
        for n in names:
            got.append([l for l in x["layers"] if l["name"] == n][0])
        shutil.rmtree(d)
        _base[k, cmd, fmt] = got
    return _base[k, cmd, fmt]


def spell(rng, fmt):
    return rng.choice([fmt, fmt, fmt.lower(), fmt.upper()])


def run_history(rec, rng, fmt, hist, k):
    inp = inputs(k)
    d = rec.dir()
    rec.put(ds=dict(new=True, fmt="", traits=[], layers=[]))
    used = set()
    vols = None      # the layer an earlier initvolumes of this history wrote: (file, layer, attribute)
    first = True
    for j, w in enumerate(hist):
        cmd, lco, dsco, attr = w["cmd"], [tuple(x) for x in w["lco"]], [tuple(x) for x in w["dsco"]], w["attr"]
        if fmt == "GeoJSON" and cmd == "network":
            continue      # two layers in a single layer format
        # an identifier has to be unique in its datasource; two CSV layers with column types do not share a directory
        lco = [(o, v + " %d" % j) if o == "IDENTIFIER" else (o, v) for o, v in lco]
        if cmd == "network":
            lco = [x for x in lco if x[0] not in ("IDENTIFIER", "CREATE_CSVT")]
        rng.shuffle(lco)
        names = DEFAULT_NAME[cmd] if rng.random() < .5 else [rng.choice(["out", "lag", "x_y", "nodes2", "hypsometri"]) + str(j) + s for s in ("", "s")][:len(GEOM[cmd])]
        if any(n.lower() in used for n in names):
            names = ["n%d" % j, "s%d" % j][:len(GEOM[cmd])]
        used |= {n.lower() for n in names}
        path = path_of(fmt, d, "db", names[0])
        if fmt == "GeoJSON":
            rec.put(ds=dict(new=True, fmt="", traits=[], layers=[]))
        fin = None
        src_attr = ""
        if cmd == "finalvolumes" and attr:
            # volumes under another attribute name
            tmp = rec.dir() + "/v.gpkg"
            with rec.step("Input"):
                cli.run(*(args_of("initvolumes", inp, None)[:-1] + [repr(inp.p.mm)] + out_args("initvolumes", tmp, ["v"], "gpkg", [], [], attr)))
            fin = (tmp, "v", attr)
        with rec.step("Input"):
            b = base(k, cmd, fmt)
        with rec.step("WriteLayers", r=dict(ds="ds")) as s:
            cli.run(*(args_of(cmd, inp, fin) + out_args(cmd, path, names, spell(rng, fmt), lco, dsco, attr, omit=rng.random() < .5)))
            dd = default(fmt, GEOM[cmd][0])[0]
            wants = []
            for n, g, x in zip(names, GEOM[cmd], b):
                t = default(fmt, g)[1]
                if fmt == "CSV" and cmd == "polys":      # a single attribute: no separator to be seen without geometry
                    t = [y if y[0] != "SEPARATOR" else ["SEPARATOR", "" if ("GEOMETRY", "AS_WKT") not in lco else "COMMA"] for y in t]
                wants.append(dict(name=n, default=t, attrs=x["attrs"], digest=x["digest"]))
            lo = [list(x) for x in lco]
            if fmt == "CSV" and cmd == "polys" and ("GEOMETRY", "AS_WKT") not in lco:
                lo = [x for x in lo if x[0] != "SEPARATOR"]
            if GEOM[cmd] == ["none"]:      # nothing to be seen of these without geometry
                lo = [x for x in lo if x[0] not in ("GEOMETRY", "WRITE_BBOX")]
            s.p(fmt=fmt, cmd=cmd, ddefault=dd, lco=lo, dsco=[list(x) for x in dsco], frm="inputv" if attr else "", to=attr, wants=wants)
            s.w("ds", look(fmt, path))


def cases(ctx):
    out = []
    for i, g in enumerate(GEN):
        def fn(rec, g=g, i=i):
            run_history(rec, ctx.rng(rec.name), g["fmt"], g["history"], i % 2)
        out.append(("%s:%d" % (g["fmt"].replace(" ", "_"), i), fn))
    return out
