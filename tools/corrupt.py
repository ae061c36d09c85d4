#!/usr/bin/env python3
"""tools/corrupt.py PROPERTY KEPT_SCRATCH_DIR [N] [SEED]: is the trace validation sensitive?

Takes traces kept by `bin/check PROPERTY quick --keep`, changes one recorded output value (a number, text, flag, or an element
of a list dropped or repeated) in each of N copies and lets TLC judge them.  Every copy should be rejected; the copies
which are accepted are listed by operation and place: values nothing is required of, or a requirement missing."""
import copy, glob, json, os, random, re, sys, tempfile, shutil, collections
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vf"))
import main as M   # noqa: E402


def places(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from places(v[k], path + (k,))
    elif isinstance(v, list):
        if v:
            yield path, "list"
        for i, x in enumerate(v):
            yield from places(x, path + (i,))
    else:
        yield path, "leaf"


def at(v, path):
    for p in path:
        v = v[p]
    return v


def corrupt(case, rnd):
    c = copy.deepcopy(case)
    evs = [e for e in c["ev"] if e["op"] != "Input" and e.get("w") and not e.get("err")]
    if not evs:
        return None
    e = rnd.choice(evs)
    ps = [p for p in places(e["w"]) if len(p[0]) >= 2 and p[0][1] != "n"]
    if not ps:
        return None
    # first the kind of place, then one of that kind
    kinds = collections.defaultdict(list)
    for p, t in ps:
        kinds[(tuple("#" if isinstance(x, int) else x for x in p), t)].append(p)
    kind = rnd.choice(sorted(kinds, key=str))
    p = rnd.choice(kinds[kind])
    o = at(e["w"], p[:-1])
    v = o[p[-1]]
    if isinstance(v, bool):
        o[p[-1]] = not v
        how = "flip"
    elif isinstance(v, int):
        d = rnd.choice([1, -1, 2, -3, 100])
        o[p[-1]] = v + d
        how = "%+d" % d
    elif isinstance(v, str):
        o[p[-1]] = v + "x"
        how = "text"
    elif isinstance(v, list):
        i = rnd.randrange(len(v))
        if rnd.random() < .5:
            del v[i]
            how = "drop"
        else:
            v.insert(i, copy.deepcopy(v[i]))
            how = "repeat"
    else:
        return None
    return c, e["op"], "/".join(map(str, kind[0])), how


def judge(prop, batch, k):
    d = tempfile.mkdtemp(prefix="corrupt%d_" % k, dir="/tmp")
    rej, left = set(), list(batch)
    try:
        while left:
            try:
                r = M.validate(prop, left, d, 600)[0]
            except M.Machinery as ex:
                m = re.findall(r"/\\ ci = (\d+)", str(ex))
                if not m:
                    print("?", str(ex)[-600:])
                    return rej
                r = [dict(case=left[int(m[-1]) - 1]["id"])]
                M.INCOMPLETE.append("x")
            new = set(x["case"] for x in r)
            rej |= new
            if not M.INCOMPLETE:
                return rej
            M.INCOMPLETE.clear()
            if not new:
                return rej
            left = [c for c in left if c["id"] not in rej]
            shutil.rmtree(d)
            os.makedirs(d)
        return rej
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    prop, kept = sys.argv[1:3]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 200
    rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    fams = collections.defaultdict(list)
    for f in sorted(glob.glob(os.path.join(kept, "drive", "*.ndjson"))):
        for c in M.clean_lines(f):
            if len(json.dumps(c)) < 60000:
                fams[re.split(r"[:#]", c["id"])[0]].append(c)
    made = []
    for i in range(n * 3):
        if len(made) >= n:
            break
        r = corrupt(rnd.choice(fams[rnd.choice(sorted(fams))]), rnd)
        if r:
            r[0]["was"] = r[0]["id"]
            r[0]["id"] = "c%d" % i
            made.append(r)
    rej = judge(prop, [m[0] for m in made], 0)
    tab = collections.defaultdict(lambda: [0, 0, ""])
    for c, op, place, how in made:
        t = tab[(op, place, "list" if how in ("drop", "repeat") else "value")]
        t[0] += 1
        if c["id"] not in rej:
            t[1] += 1
            t[2] = "%s %s" % (c["was"], how)
    print("%s: %d of %d corrupted traces rejected" % (prop, len(rej), len(made)))
    judged = set(k[0] for k in tab if tab[k][1] < tab[k][0])      # operations this property speaks about
    for k in sorted(tab):
        if tab[k][1] and k[0] in judged:
            print("  accepted %d of %d: %s %s %s   eg. %s" % (tab[k][1], tab[k][0], *k, tab[k][2]))


main()
