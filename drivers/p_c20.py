"""C20: histories of commands over a shared datasource and directory."""
import hashlib, json, os, shutil, signal
import numpy as np
from common import *
import cli
from p_c19 import layer, val

MM = dict(A=12.5, B=40, A2=12.5, Z=0)


def layers_of(path):
    from osgeo import ogr
    ds = ogr.Open(path)
    res = {}
    for i in range(ds.GetLayerCount()):
        l = ds.GetLayer(i)
        d = l.GetLayerDefn()
        crs = l.GetSpatialRef()
        rows = []
        for f in l:
            g = f.GetGeometryRef()
            rows.append([[val(f.GetField(k)) if f.IsFieldSetAndNotNull(k) else None for k in range(d.GetFieldCount())], g.ExportToWkt() if g else None])
        res[l.GetName()] = digest([[d.GetFieldDefn(k).GetName() for k in range(d.GetFieldCount())], cli.srs_key(crs.ExportToWkt()) if crs else "", rows])
    ds = None
    return res


def observe(ws):
    """digest of every layer and every file"""
    res = {}
    for base, ds, fs in os.walk(ws):
        for n in fs:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, ws)
            if n.endswith((".gpkg-wal", ".gpkg-shm", ".gpkg-journal")):
                continue
            if n.endswith(".gpkg"):
                for k, v in layers_of(p).items():
                    res[rel + "|" + k] = v
            else:
                res[rel] = cli.file_digest(p)
    return res


def content(ws, outs, obs):
    """what a command produced, without names"""
    r = []
    for o in outs:
        if "|" in o:
            r.append(obs.get(o, "missing"))
        else:
            r.append(digest(cli.raster_info(os.path.join(ws, o))) if o in obs else "missing")
    return digest(r)


def command(ws, cmd, s, p, cfg):
    """(arguments, inputs, outputs, parameters)"""
    f = lambda n: os.path.join(ws, n)
    db = f("malstroem.gpkg")
    L = lambda n: "malstroem.gpkg|" + n
    scen, s = s, cfg["names"].get(s, s)
    G = ["-format", "gpkg"]
    if cmd == "initvolumes":
        a = ["initvolumes", "-nodes", db, "-nodes_layer", "nodes", "-out", db, "-out_layer", "iv" + s, *G]
        if scen == "P":
            return a + ["-pr", f("pr.tif"), "-bluespots", f("watersheds.tif"), "-pr_unit", cfg["unit"]], [L("nodes"), "pr.tif", "watersheds.tif"], [L("iv" + s)], cfg["unit"]
        return a + ["-mm", repr(MM[scen] * cfg["f"])], [L("nodes")], [L("iv" + s)], MM[scen] * cfg["f"]
    if cmd == "finalvolumes":
        return ["finalvolumes", "-inputvolumes", db, "-inputvolumes_layer", "iv" + s, "-out", db, "-out_layer", "fv" + s, *G], [L("iv" + s)], [L("fv" + s)], ""
    if cmd == "finallevels":
        return ["finallevels", "-finalvols", db, "-finalvols_layer", "fv" + s, "-hyps", db, "-hyps_layer", "hypsometry", "-out", db, "-out_layer", "fl" + s, *G], \
            [L("fv" + s), L("hypsometry")], [L("fl" + s)], ""
    if cmd == "finalbluespots":
        return ["finalbluespots", "-bluespots", f("bluespots.tif"), "-dem", f("dem.tif"), "-finallevels", db, "-finallevels_layer", "fl" + s,
                "-out_depths", f("fd%s.tif" % s), "-out_bluespots", f("fb%s.tif" % s)], ["bluespots.tif", "dem.tif", L("fl" + s)], ["fd%s.tif" % s, "fb%s.tif" % s], ""
    if cmd == "finalpolys":
        return ["polys", "-raster", f("fb%s.tif" % s), "-out", db, "-layername", "fp" + s, *G], ["fb%s.tif" % s], [L("fp" + s)], ""
    if cmd == "hyps2":
        return ["hyps", "-bluespots", f("bluespots.tif"), "-dem", f("dem.tif"), "-pourpoints", db, "-zresolution", repr(p.zres * 2), "-out", db, "-out_hyps_layer", "hyps2", *G], \
            ["bluespots.tif", "dem.tif", L("pourpoints")], [L("hyps2")], p.zres * 2
    if cmd == "network2":
        return ["network", "-bluespots", f("bluespots.tif"), "-flowdir", f("flowdir.tif"), "-pourpoints", db, "-pourpoints_layer", "pourpoints", "-out", db,
                "-out_nodes_layer", "nodes2", "-out_streams_layer", "streams2", *G], ["bluespots.tif", "flowdir.tif", L("pourpoints")], [L("nodes2"), L("streams2")], ""
    if cmd == "pourpts2":
        return ["pourpts", "-bluespots", f("bluespots.tif"), "-depths", f("bs_depths.tif"), "-watersheds", f("watersheds.tif"), "-dem", f("dem.tif"), "-out", db, "-layername", "pp2", *G], \
            ["bluespots.tif", "bs_depths.tif", "watersheds.tif", "dem.tif"], [L("pp2")], "dem"
    if cmd == "bspots2":
        return ["bspots", "-depths", f("bs_depths.tif"), "-filter", "maxdepth > 0.3", "-out", f("bluespots2.tif")], ["bs_depths.tif"], ["bluespots2.tif"], "f"
    if cmd == "filled2":
        return ["filled", "-dem", f("dem.tif"), "-out", f("filled2.tif")], ["dem.tif"], ["filled2.tif"], ""
    if cmd == "depths2":
        return ["depths", "-dem", f("dem.tif"), "-filled", f("filled.tif"), "-out", f("depths2.tif")], ["dem.tif", "filled.tif"], ["depths2.tif"], ""
    if cmd == "flowdir2":
        return ["flowdir", "-dem", f("dem.tif"), "-out", f("flowdir2.tif")], ["dem.tif"], ["flowdir2.tif"], ""
    if cmd == "accum2":
        return ["accum", "-flowdir", f("flowdir.tif"), "-out", f("accum2.tif")], ["flowdir.tif"], ["accum2.tif"], ""
    if cmd == "polys2":
        return ["polys", "-raster", f("watersheds.tif"), "-out", db, "-layername", "wspolys2", *G], ["watersheds.tif"], [L("wspolys2")], ""
    if cmd == "wsheds2":
        return ["wsheds", "-bluespots", f("bluespots.tif"), "-flowdir", f("flowdir.tif"), "-out", f("watersheds2.tif")], ["bluespots.tif", "flowdir.tif"], ["watersheds2.tif"], ""
    if cmd == "complete2":
        os.makedirs(f("other"), exist_ok=True)
        outs = ["other/" + x for x in ("filled.tif", "bs_depths.tif", "flowdir.tif", "bluespots.tif", "watersheds.tif", "finaldepths.tif", "finalbluespots.tif")] + \
            ["other/malstroem.gpkg|" + x for x in ("pourpoints", "nodes", "streams", "initvolumes", "finalstate", "hypsometry", "finallevels", "finalbluespots")]
        return ["complete", "-dem", f("dem.tif"), "-outdir", f("other"), "-mm", "17", "-zresolution", repr(p.zres)], ["dem.tif"], outs, "17"
    raise ValueError(cmd)


class Zygote:
    """runs commands in processes which have not run any command before (forked from one which never has)"""
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        if os.fork() == 0:
            try:
                os.close(w1)
                os.close(r2)
                dn = os.open(os.devnull, os.O_RDWR)
                for i in (0, 1, 2):
                    os.dup2(dn, i)
                req, res = os.fdopen(r1, "r"), os.fdopen(w2, "w")
                for line in req:
                    pid = os.fork()
                    if pid == 0:
                        signal.alarm(50)
                        where, cmds, zres, cfg = json.loads(line)
                        p = cli.Params()
                        p.zres = zres
                        out = []
                        try:
                            for cmd, s in cmds:
                                out.append(one(where, cmd, s, p, cfg)[::3])
                        except Exception as e:
                            out.append(repr(e)[-900:])
                        res.write(json.dumps(out) + "\n")
                        res.flush()
                        os._exit(0)
                    if os.waitpid(pid, 0)[1] != 0:
                        res.write(json.dumps(["process died"]) + "\n")
                        res.flush()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.req, self.res = os.fdopen(w1, "w"), os.fdopen(r2, "r")

    def run(self, where, cmds, zres, cfg):
        self.req.write(json.dumps([where, cmds, zres, cfg]) + "\n")
        self.req.flush()
        return json.loads(self.res.readline())


def one(where, cmd, s, p, cfg):
    """runs one command: (what identifies it and its inputs, outputs, everything observed afterwards, content of its outputs)"""
    before = observe(where)
    args, ins, outs, par = command(where, cmd, s, p, cfg)
    cli.run(*args)
    after = observe(where)
    key = digest([cmd, par, [before[x] if "|" in x else digest(cli.raster_info(os.path.join(where, x))) for x in ins]])
    return key, outs, after, content(where, outs, after)


def cases(ctx):
    out = []
    zygote = Zygote()
    # TLC's simulation emits every last step of a history: one of them is enough
    hist, seen = [], set()
    for g in GEN:
        h = g["history"]
        k = str(h[:-1]) if len(h) > 9 else str(h)
        if k not in seen:
            seen.add(k)
            hist.append(h)
    hist = hist[:ctx.n(75, 10000)]
    for i, h in enumerate(hist):
        def fn(rec, h=h, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, maxside=8, nodata=rng.random() < .3)
            p.filter = ""
            ws = os.path.join(p.d, "ws")
            cfg = dict(unit=rng.choice(["mm", "l", "m3"]), f=rng.choice([.25, 1, 4, 30]))
            # names of the scenarios' layers and files: some continue others
            suffix = rng.choice([["A", "B", "A2", "Z", "P"], ["", "_20", "_20_b", "2", "_"], ["_1", "_10", "_100", "", "_01"], ["_x", "", "_x_x", "x", "__"], [" a", " a b", "", "-a", "a"]])
            cfg["names"] = dict(zip(rng.sample(["A", "B", "A2", "Z", "P"], 5), suffix))
            with rec.step("Input"):
                p2 = cli.Params()
                p2.__dict__.update(p.__dict__)
                os.makedirs(ws)
                shutil.copy(p.path, ws + "/dem.tif")
                p2.path = ws + "/dem.tif"
                tmp = os.path.join(p.d, "st")
                p2.mm, p2.omit = 1.0, False
                scen = cli.scenario
                cli.scenario = lambda *a: None      # only the static part of the chain
                try:
                    cli.chain(p2, tmp)
                finally:
                    cli.scenario = scen
                for n in os.listdir(tmp):
                    shutil.move(os.path.join(tmp, n), os.path.join(ws, n))
                pr = np.array([[rng.choice([0.0, 1.0, 2.5, 12.0]) for _ in range(p.dem.shape[1])] for _ in range(p.dem.shape[0])], dtype=np.float32)
                cli.write_raster(ws + "/pr.tif", pr, transform=p.geo.transform)
            fresh0 = os.path.join(p.d, "fresh0")
            shutil.copytree(ws, fresh0)
            if rng.random() < .6:      # leftovers at places where rasters are going to be written
                # (not where their absence is why a command is refused)
                lacking = {x for cmd, s, *no in h if no for x in command(ws, cmd, s, p, cfg)[1]}
                sh = rng.choice([p.dem.shape, p.dem.shape, (p.dem.shape[0] + 5, p.dem.shape[1] + 3), (2, 2)])
                for nm in sorted({o for cmd, s, *no in h if not no for o in command(ws, cmd, s, p, cfg)[2] if o.endswith(".tif") and "/" not in o and o not in lacking}):
                    if rng.random() < .6:
                        # often of the type the output is going to have
                        dt = dict(fd="float64", fb="int32", bl="int32", wa="int32", fi="float32", de="float32", fl="uint8", ac="float64")[nm[:2]] if rng.random() < .8 else rng.choice(["float32", "int16", "int32", "float64"])
                        cli.write_raster(os.path.join(ws, nm), np.full(sh, rng.choice([7, 1, 0, -999 if dt[0] != 'u' else 9]), dtype=dt), nodata=rng.choice([None, -999, 7] if dt[0] != 'u' else [None, 0, 7]))
            obs = observe(ws)
            rec.put(**obs)

            for cmd, s, *no in h:
                if no:
                    with rec.step("CommandRefused") as st:
                        r = cli.invoke(*command(ws, cmd, s, p, cfg)[0])
                        st.p(failed=r.exit_code != 0, cmd=cmd, seen=[[k, v] for k, v in sorted(observe(ws).items())])
                    continue
                with rec.step("Command") as st:
                    key, outs, after, what = one(ws, cmd, s, p, cfg)
                    st.p(key=key, digest=what, cmd=cmd, seen=[[k, v] for k, v in sorted(after.items()) if k not in outs])
                    for k in outs:
                        st.w(k, after.get(k, "missing"))
            # each scenario on its own in a fresh workspace; then every other command on its own
            groups = {}
            for cmd, s, *no in h:
                if no:
                    continue
                groups.setdefault(s or cmd, []).append((cmd, s))
            for gname, cmds in sorted(groups.items()):
                if ctx.quick and len(groups) > 4 and rng.random() < .5:
                    continue
                w = os.path.join(p.d, "fresh_" + gname)
                shutil.copytree(fresh0, w)
                # in a process of its own, as commands are used: nothing is left over from the commands before
                got = zygote.run(w, cmds, p.zres, cfg)
                for (cmd, s), g in zip(cmds, got):
                    with rec.step("Command") as st:
                        if isinstance(g, str):
                            raise cli.CommandFailed("%s %s on its own: %s" % (cmd, s, g))
                        st.p(key=g[0], digest=g[1], cmd=cmd, seen=[[k, v] for k, v in sorted(observe(ws).items())])
                shutil.rmtree(w)
        out.append(("history:%d" % i, fn))
    return out
