"""C12: fill and spill."""
import os
import numpy as np
from common import *
from malstroem import network
import cli


def forest(rng, n):
    """parents of nodes 0..n-1"""
    k = rng.choice(["rand", "chain", "star", "deep", "roots"])
    par = []
    for i in range(n):
        if i == 0:
            par.append(None)
        elif k == "chain":
            par.append(i - 1 if rng.random() < .97 else None)
        elif k == "star":
            par.append(0 if rng.random() < .8 else rng.randrange(i))
        elif k == "deep":
            par.append(rng.randrange(max(0, i - 3), i))
        elif k == "roots":
            par.append(rng.choice([None, rng.randrange(i)]))
        else:
            par.append(rng.choice([None] + [rng.randrange(i)] * 4))
    return par


def table(rng, n, unit):
    """node rows with volumes in integer units"""
    par = forest(rng, n)
    ids = list(range(n))
    style = rng.choice(["asc", "desc", "shuffle", "gaps"])
    if style == "desc":
        ids = ids[::-1]
    elif style != "asc":
        ids = rng.sample(range(n if style == "shuffle" else 10 * n), n)
    big = rng.choice([3, 20, 1000, 100000])
    rows = []
    for i in range(n):
        junction = rng.random() < .15
        cap = 0 if junction or rng.random() < .2 else rng.randint(0, big)
        inp = 0 if rng.random() < .3 else rng.randint(0, big)
        rows.append(dict(id=ids[i], down=None if par[i] is None else ids[par[i]], cap=cap, inp=inp, junction=junction))
    if rng.random() < .15:       # hardly over full, hardly not full
        k = min(rng.choice([1000, 10 ** 5, 10 ** 7]), 10 ** 8 // n)
        for r in rows:
            if not r["junction"]:
                r["cap"] = rng.randint(k, 3 * k) if rng.random() < .6 else 0
                r["inp"] = max(0, r["cap"] + rng.choice([0, 1, 2, 5, -1, -3, k // 5000]))
    elif rng.random() < .3:        # exact fills
        for r in rows:
            r["cap"] = r["inp"] if not r["junction"] else 0
    order = list(range(n))
    if rng.random() < .7:
        rng.shuffle(order)
    elif rng.random() < .5:
        order = order[::-1]
    return [rows[i] for i in order]


def spec_nodes(rows, attr="inp"):
    return [dict(id=r["id"], down=-1 if r["down"] is None else r["down"], cap=r["cap"], inp=r[attr]) for r in rows]


def props(r, unit, attrs):
    q = dict(nodeid=r["id"], dstrnodeid=r["down"], nodetype="junction" if r["junction"] else "pourpoint", cell_row=0, cell_col=0,
             bspot_id=None if r["junction"] else r["id"], bspot_area=0.0, bspot_vol=r["cap"] / unit, wshed_area=1.0)
    for name, key in attrs.items():
        q[name] = r[key] / unit
    return q


def enc_events(evs, unit, attr):
    return [dict(id=int(e["nodeid"]), v=ei(e["v"] * unit), spill=ei(e["spillv"] * unit), inp=ei(e[attr] * unit),
                 pct=-1 if e["pctv"] is None else er(e["pctv"] * 100)) for e in evs]


def cases(ctx):
    import big
    out = big.c12(ctx)
    for i, g in enumerate(GEN):
        def fn(rec, g=g, i=i):
            rng = ctx.rng(rec.name)
            unit = rng.choice([1, 8])
            rows = [dict(id=x["id"], down=None if x["down"] == -1 else x["down"], cap=x["cap"], inp=x["inp"], junction=False) for x in g["nodes"]]
            rec.put(nodes=spec_nodes(rows))
            with rec.step("Spill", r=dict(nodes="nodes"), digits=4) as s:
                n = network.Network()
                n.add_nodes([props(r, unit, dict(inputv="inp")) for r in rows])
                s.w("fin", enc_events(n.rain_event("inputv"), unit, "inputv"))
        out.append(("spec:%d" % i, fn))
    for i in range(ctx.n(400, 5000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            unit = rng.choice([1, 8, 64, 2.0 ** rng.randint(-20, 50)])
            rows = table(rng, rng.choice([1, 2, 3, 5, 8, 12, 20] + ([120] if i % 20 == 0 else [])), unit)
            for r in rows:
                r["inp2"] = rng.choice([0, r["inp"], r["inp"] * 3, rng.randint(0, 50)])
            rec.put(nodes=spec_nodes(rows), nodes2=spec_nodes(rows, "inp2"))
            P = [props(r, unit, dict(rain_a="inp", rain_b="inp2")) for r in rows]
            n = network.Network()
            first = rng.randint(0, len(rows)) if rng.random() < .3 else len(rows)
            with rec.step("Input"):
                if rng.random() < .5:
                    n.add_nodes(P[:first])
                else:
                    for q in P[:first]:
                        n.add_node(q)
            if first < len(rows):
                # an event on the unfinished network must not influence later ones; it is only meaningful if closed under downstream
                ids = {q["nodeid"] for q in P[:first]}
                if first and all(q["dstrnodeid"] is None or q["dstrnodeid"] in ids for q in P[:first]):
                    part = spec_nodes(rows[:first])
                    rec.put(part=part)
                    with rec.step("Spill", r=dict(nodes="part"), digits=4) as s:
                        s.w("fin", enc_events(n.rain_event("rain_a"), unit, "rain_a"))
                with rec.step("Input"):
                    n.add_nodes(P[first:])
            for a in rng.choice([["rain_a"], ["rain_a", "rain_b"], ["rain_b", "rain_a", "rain_b"], ["rain_a", "rain_a"]]):
                with rec.step("Spill", r=dict(nodes="nodes" if a == "rain_a" else "nodes2"), digits=4) as s:
                    s.w("fin", enc_events(n.rain_event(a), unit, a))
        out.append(("lib:%d" % i, fn))
    for i in range(ctx.n(150, 1500)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            unit = rng.choice([8, 8, 2.0 ** rng.randint(-10, 40)])
            rows = table(rng, rng.choice([1, 2, 4, 8, 15]), unit)
            attr = rng.choice(["inputv", "inputv", "event7"])
            d = rec.dir()
            src, fmt = cli.out_name(rng, d, "in")
            for r in rows:
                r["other"] = rng.randint(0, 99)
            attrs = {attr: "inp"}
            if attr != "inputv" and rng.random() < .5:
                attrs["inputv"] = "other"
            cli.write_layer(src, fmt, "iv", [(props(r, unit, attrs), (600000.0 + j, 6200000.0)) for j, r in enumerate(rows)])
            rec.put(nodes=spec_nodes(rows))
            o, ofmt = cli.out_name(rng, d, "o")
            with rec.step("Spill", r=dict(nodes="nodes"), digits=4) as s:
                args = ["finalvolumes", "-inputvolumes", src, "-inputvolumes_layer", "iv", "-out", o, "-out_layer", "fv", "-format", ofmt]
                if attr != "inputv":
                    args += [rng.choice(["--attribute", "-a"]), attr]
                cli.run(*args)
                s.w("fin", enc_events([f["properties"] for f in cli.read_layer(o, None if ofmt == "geojson" else "fv")], unit, attr))
        out.append(("cli:%d" % i, fn))

    for i in range(ctx.n(16, 200)):
        out.append(cli.complete_case(ctx, "complete:%d" % i))
    return out
