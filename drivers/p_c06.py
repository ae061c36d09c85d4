"""C06: filter expressions."""
import os
import numpy as np
from common import *
from p_c05 import wet_pattern
import cli

BAD = ["depth", "x", "min", "count", "stats", "np", "_", "Area", "AREA", "not", "in", "is", "if else", "lambda", "import os", "True", "None",
       "+", "-", "*", "/", "%", "&", "|", "^", "~", ";", ":", ",", "[0]", "{}", "'area'", '"area"', "#", "\\", "@", "$", "?", "1e3", "0x1",
       "oror", "andor", "maxdareaepth", "areaarea", "xor", "=", "<>", "!", "...", "\u2264", "\uff11", "area.real", "__import__",
       "().__class__", "areas", "volumes", "1.2.3", "5 5", "=>", "=<", "&&", "||", "!=="]


def attack(canary):
    return ['__import__("os").mkdir("%s")' % canary, 'open("%s","w")' % canary, "[open('%s','w') for area in (1,)]" % canary,
            '(lambda: open("%s","w"))()' % canary, "exec('import os;os.mkdir(\"%s\")')" % canary]


def render(rng, tokens, canary):
    parts = []
    for t in tokens:
        if t[0] == "id":
            parts.append(t[1])
        elif t[0] == "num":
            v = t[1] / t[2]
            s = "%.10g" % v
            k = rng.random()
            if "." not in s and k < .2:
                s += rng.choice([".", ".0", ".00"])
            elif s.startswith("0.") and k < .2:
                s = s[1:]
            elif k < .1 and "." in s:
                s += "0"
            parts.append(s)
        elif t[0] == "cmp":
            parts.append(t[1])
        elif t[0] == "bad":
            parts.append(rng.choice(attack(canary)) if rng.random() < .25 else rng.choice(BAD))
        else:
            parts.append(t[0])
    text = ""
    for i, s in enumerate(parts):
        if i:
            tight = (tokens[i][0] in "()" or tokens[i - 1][0] in "()") and "bad" not in (tokens[i][0], tokens[i - 1][0])
            op = "cmp" in (tokens[i][0], tokens[i - 1][0]) and tokens[i][0] != tokens[i - 1][0] and "bad" not in (tokens[i][0], tokens[i - 1][0])
            # "area(3)" and "3(": still malformed, but never glue words
            text += rng.choice(["", " ", "  "]) if tight or op else rng.choice([" ", " ", "  ", "\t"])
        text += s
    return text


def mutate(rng, tokens):
    ts = [list(t) for t in tokens]
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["del", "ins", "rep", "swap", "dup"])
        alpha = [["id", "area"], ["id", "volume"], ["num", 1, 2], ["cmp", "<"], ["and"], ["or"], ["("], [")"], ["bad"], ["bad"]]
        i = rng.randrange(len(ts)) if ts else 0
        if k == "del" and ts:
            del ts[i]
        elif k == "ins":
            ts.insert(rng.randint(0, len(ts)), list(rng.choice(alpha)))
        elif k == "rep" and ts:
            ts[i] = list(rng.choice(alpha))
        elif k == "swap" and len(ts) > 1:
            j = rng.randrange(len(ts) - 1)
            ts[j], ts[j + 1] = ts[j + 1], ts[j]
        elif k == "dup" and ts:
            ts.insert(i, list(ts[i]))
    return ts


def unglue(tokens):
    """adjacent tokens whose spelling could merge into one legal token ("<" "=" ...) are not used"""
    for a, b in zip(tokens, tokens[1:]):
        if a[0] == "cmp" and b[0] == "cmp":
            return False
        if a[0] == "num" and b[0] == "num":
            return False
    return True


def filter_step(rec, rng, depth, geo, text, tokens, cmd="bspots"):
    d = rec.dir()
    canary = os.path.join(d, "canary")
    src = os.path.join(d, "d.tif")
    out = os.path.join(d, "lab.tif")
    cli.write_raster(src, depth, transform=geo.transform)
    with rec.step("Filter", r=dict(depth="depth"), tokens=tokens, dden=8, ca=cli.frac(geo.ca)) as s:
        r = cli.invoke("bspots", "-depths", src, "-out", out, "-filter", text)
        failed = r.exit_code != 0
        s.p(failed=failed, output=os.path.exists(out), side_effect=os.path.exists(canary), text=text)
        if not failed:
            s.w("lab", gi(cli.read_raster(out)))


def render_for(rec, rng, tokens):
    return render(rng, tokens, os.path.join(rec.dir(), "canary"))


def cases(ctx):
    out = []

    def exact(geo):     # sums of eighths times the cell area are exact: thresholds may be hit
        return geo.ca * 16 == int(geo.ca * 16)

    def depth_for(rng, hits=False):
        h, w = rng.choice([(6, 8), (7, 7), (3, 9), (9, 9)])
        geo = cli.geo_for(rng)
        while hits and not exact(geo):
            geo = cli.geo_for(rng)
        return (np.array(wet_pattern(rng, h, w)) / 8.0).astype(np.float32), geo

    # every short token sequence (generated by TLC), in blocks
    block = 8
    for b in range(0, len(GEN), block):
        def fn(rec, b=b):
            rng = ctx.rng(rec.name)
            depth = (np.array([[0, 0, 0, 0, 0, 0, 0], [0, 8, 0, 0, 12, 12, 0], [0, 0, 0, 0, 0, 4, 0], [0, 16, 16, 0, 0, 0, 0],
                               [0, 0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 0, 0]]) / 8.0).astype(np.float32)
            geo = cli.Geo(0, 100, 2, 0, 0, -2, .5)
            rec.put(depth=gi(depth, 8))
            for g in GEN[b:b + block]:
                ts = g["tokens"]
                if not unglue(ts):
                    continue
                # a "bad" token behind something which is already malformed changes nothing
                filter_step(rec, rng, depth, geo, render_for(rec, rng, ts), ts)
        out.append(("spec:%d" % b, fn))
    # random deep expressions: meaning
    for i in range(ctx.n(260, 3000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            depth, geo = depth_for(rng)
            rec.put(depth=gi(depth, 8))
            for _ in range(3):
                _, ts = cli.random_filter(rng, geo.ca, 5.0, allow_empty=False)
                if rng.random() < .25:   # join two
                    _, t2 = cli.random_filter(rng, geo.ca, 5.0, allow_empty=False)
                    ts = ts + [[rng.choice(["and", "or"])]] + t2
                filter_step(rec, rng, depth, geo, render_for(rec, rng, ts), ts)
        out.append(("meaning:%d" % i, fn))
    # long expressions and deeply nested ones
    for i in range(ctx.n(10, 80)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            depth, geo = depth_for(rng)
            rec.put(depth=gi(depth, 8))
            part = lambda: cli.random_filter(rng, geo.ca, 5.0, allow_empty=False)[1]
            if i % 2:
                ts = part()
                for _ in range(rng.choice([15, 40])):
                    q = part()
                    ts = ts + [[rng.choice(["and", "or"])]] + (q[:3] if q[0][0] != "(" else q)
            else:
                ts = part()
                for _ in range(rng.choice([8, 20, 30])):
                    k = rng.random()
                    ts = [["("]] + ts + [[")"]] if k < .6 else part() + [[rng.choice(["and", "or"])], ["("]] + ts + [[")"]]
            filter_step(rec, rng, depth, geo, render_for(rec, rng, ts), ts)
            if rng.random() < .5:
                j = rng.randrange(len(ts))
                t2 = ts[:j] + ts[j + 1:]
                if unglue(t2):
                    filter_step(rec, rng, depth, geo, render_for(rec, rng, t2), t2)
        out.append(("long:%d" % i, fn))
    # absent and empty filter
    for i in range(ctx.n(12, 60)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            depth, geo = depth_for(rng)
            rec.put(depth=gi(depth, 8))
            filter_step(rec, rng, depth, geo, "", [])
        out.append(("empty:%d" % i, fn))
    # malformed: mutations of well formed expressions (which may well be well formed, with any threshold)
    for i in range(ctx.n(260, 3000)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            depth, geo = depth_for(rng, hits=True)
            rec.put(depth=gi(depth, 8))
            for _ in range(3):
                _, ts = cli.random_filter(rng, geo.ca, 5.0, allow_empty=False)
                ts = mutate(rng, ts)
                if not ts or not unglue(ts):
                    continue
                filter_step(rec, rng, depth, geo, render_for(rec, rng, ts), ts)
        out.append(("malformed:%d" % i, fn))
    # the complete command refuses as well
    for i in range(ctx.n(24, 200)):
        def fn(rec, i=i):
            rng = ctx.rng(rec.name)
            p = cli.setup(rec, rng, maxside=7, minside=4, nodata=False)
            o = os.path.join(p.d, "out")
            os.makedirs(o)
            _, ts = cli.random_filter(rng, p.geo.ca, 5.0, allow_empty=False)
            if i % 3 and exact(p.geo):
                ts = mutate(rng, ts)
            if not ts or not unglue(ts):
                return
            canary = os.path.join(p.d, "canary")
            text = render(rng, ts, canary)
            with rec.step("Input"):
                from malstroem.algorithms import fill
                rec.put(depth=gi(fill.fill_terrain(p.dem) - p.dem, 8))
            with rec.step("Filter", r=dict(depth="depth"), tokens=ts, dden=8, ca=cli.frac(p.geo.ca)) as s:
                r = cli.invoke("complete", "-dem", p.path, "-outdir", o, "-mm", "5", "-zresolution", "1", "-filter", text)
                failed = r.exit_code != 0
                s.p(failed=failed, output=bool(os.listdir(o)), side_effect=os.path.exists(canary), text=text)
                if not failed:
                    s.w("lab", gi(cli.read_raster(os.path.join(o, "bluespots.tif"))))
        out.append(("complete:%d" % i, fn))
    return out
