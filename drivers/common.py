"""Shared by all drivers: recording, encoding, terrain generators."""
import contextlib, hashlib, json, math, os, random, shutil, tempfile, traceback, zlib

import numpy as np

GEN = []            # behaviours generated by TLC for this check
SENT = 1999999999   # stands for "not an exact integer in the unit of this case"


class Abort(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, name):
        return random.Random("%d:%s" % (self.seed, name))


class StepRec:
    def __init__(self, op, r, p):
        self.e = dict(op=op, r=dict(r) or {"_": "_"}, w={}, p=dict(p) or {"_": 0}, err="")

    def w(self, role, value, name=None):
        self.e["w"][role] = dict(n=name or role, v=value)
        return value

    def p(self, **kw):
        self.e["p"].update(kw)


class Rec:
    def __init__(self, name):
        self.name = name
        self.ev = []
        self._dirs = []

    def dir(self):
        odd = zlib.crc32(self.name.encode()) % 5 == 0       # names need not be plain
        d = tempfile.mkdtemp(prefix="vf \u00e6 v1.2, c_" if odd else "vfc_")
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    def put(self, **named):
        self.ev.append(dict(op="Input", r={"_": "_"}, w={k: dict(n=k, v=v) for k, v in named.items()}, p={"_": 0}, err=""))

    def error(self, text):
        self.ev.append(dict(op="Input", r={"_": "_"}, w={}, p={"_": 0}, err=text[-1500:] or "error"))

    @contextlib.contextmanager
    def step(self, op, r={}, **p):
        s = StepRec(op, r, p)
        try:
            yield s
        except Abort:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt,)):
                raise
            s.e["w"] = {}
            s.e["p"] = {"_": 0}
            s.e["err"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:] or "error"
            self.ev.append(s.e)
            raise Abort()
        self.ev.append(s.e)

    def ev_raw(self, op, r={}, w={}, **p):
        with self.step(op, r, **p) as s:
            for k, v in w.items():
                s.w(k, v)


# ----------------------------------------------------------------------------------------------- encoding
def ei(x, scale=1, tol=0.0):
    """x * scale as an exact int (or within relative tolerance tol), else the sentinel"""
    try:
        y = float(x) * scale
    except (TypeError, ValueError):
        return SENT
    if not math.isfinite(y) or abs(y) > 1.9e9:
        return SENT
    n = int(round(y))
    if y == n or abs(y - n) <= tol * max(1.0, abs(y)):
        return n
    return SENT


def er(x, scale=1):
    """x * scale rounded (halves up, also if slightly below because of float noise)"""
    try:
        y = float(x) * scale
    except (TypeError, ValueError):
        return SENT
    if not math.isfinite(y) or abs(y) > 1.9e9:
        return SENT
    return int(math.floor(y + 0.5 + 1e-6))


def gi(a, scale=1, tol=0.0):
    return [[ei(v, scale, tol) for v in row] for row in np.asarray(a).tolist()]


def gr(a, scale=1):
    return [[er(v, scale) for v in row] for row in np.asarray(a).tolist()]


def rank(*grids):
    """Order-and-equality coding of float grids (common to all)."""
    vals = sorted(set(float(v) for g in grids for v in np.asarray(g, dtype=np.float64).ravel() if not math.isnan(v)))
    ix = {v: i for i, v in enumerate(vals)}
    return [[[ix.get(float(v), SENT) for v in row] for row in np.asarray(g, dtype=np.float64)] for g in grids]


def canon(v):
    """canonical text of a number"""
    if v is None:
        return ""
    if isinstance(v, (bool, np.bool_)):
        return str(int(v))
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    v = float(v)
    if math.isnan(v):
        return "nan"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    if v == int(v) and abs(v) < 2 ** 63:
        return str(int(v))
    return v.hex()


def gc(a):
    a = np.asarray(a)
    return [[canon(v) for v in row] for row in a]


def hexa(a):
    """all values of an array, exact text (used for equality only)"""
    a = np.asarray(a)
    if a.dtype.names:
        return [[canon(r[n]) for n in a.dtype.names] for r in a]
    if a.ndim == 1:
        return [canon(v) for v in a]
    return gc(a)


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:24]


# ----------------------------------------------------------------------------------------------- terrains
def _base(rng, h, w, kind, lo, hi):
    R = rng.randint
    if kind == "rand":
        return [[R(lo, hi) for _ in range(w)] for _ in range(h)]
    if kind == "few":
        v = [R(lo, hi) for _ in range(rng.choice([2, 2, 3]))]
        return [[rng.choice(v) for _ in range(w)] for _ in range(h)]
    if kind == "const":
        v = R(lo, hi)
        return [[v] * w for _ in range(h)]
    if kind == "bowl":
        k = rng.choice([1, -1])
        g = [[lo + (hi - lo) * max(abs(2 * r - h + 1), abs(2 * c - w + 1)) // max(h, w) for c in range(w)] for r in range(h)]
        if k < 0:
            g = [[lo + hi - v for v in row] for row in g]
        for _ in range(R(0, max(1, h * w // 6))):
            r, c = R(0, h - 1), R(0, w - 1)
            g[r][c] = min(hi, max(lo, g[r][c] + R(-3, 3)))
        return g
    if kind == "slope":
        a, b = R(-2, 2), R(-2, 2)
        off = rng.choice([0, 0, 1])
        g = [[a * r + b * c for c in range(w)] for r in range(h)]
        m = min(min(x) for x in g)
        g = [[min(hi, lo + v - m + off) for v in row] for row in g]
        for _ in range(R(0, h * w // 4 + 1)):
            r, c = R(0, h - 1), R(0, w - 1)
            g[r][c] = min(hi, max(lo, g[r][c] + R(-4, 4)))
        return g
    if kind == "maze":      # serpentine channel between high walls
        g = [[hi] * w for _ in range(h)]
        flip = rng.random() < .5
        for r in range(1, h - 1):
            for c in range(1, w - 1):
                wall = r % 2 == 0 and c != (w - 2 if (r // 2) % 2 == 0 else 1)
                if not wall:
                    g[r][c] = lo
        if h > 2 and w > 2:
            e = rng.choice(["top", "bot", "none"])
            if e == "top":
                g[0][rng.choice([1, w - 2])] = lo + R(0, 1)
            elif e == "bot":
                g[h - 1][rng.choice([1, w - 2])] = lo + R(0, 1)
        for _ in range(R(0, 3)):
            r, c = R(0, h - 1), R(0, w - 1)
            g[r][c] = R(lo, hi)
        if flip:
            g = [row[::-1] for row in g][::-1]
        return g
    if kind == "spiral":
        g = [[hi] * w for _ in range(h)]
        r, c, dr, dc = 1, 0, 0, 1
        if h > 2 and w > 2:
            seen = set()
            r, c = 1, 1
            val = lo
            g[1][0] = lo + R(0, 2)
            while True:
                seen.add((r, c))
                g[r][c] = val
                nr, nc = r + dr, c + dc
                blocked = lambda y, x: not (1 <= y < h - 1 and 1 <= x < w - 1) or (y, x) in seen or (y + dr, x + dc) in seen
                if blocked(nr, nc):
                    dr, dc = dc, -dr
                    nr, nc = r + dr, c + dc
                    if blocked(nr, nc):
                        break
                r, c = nr, nc
        if h == w and rng.random() < .5:
            g = [list(x) for x in zip(*g)]
        elif rng.random() < .5:
            g = [row[::-1] for row in g]
        return g
    if kind == "nested":
        g = [[hi - 1] * w for _ in range(h)]
        for _ in range(R(1, 4)):
            r0, c0 = R(0, h - 1), R(0, w - 1)
            hh, ww = R(1, h), R(1, w)
            v = R(lo, hi)
            for r in range(r0, min(h, r0 + hh)):
                for c in range(c0, min(w, c0 + ww)):
                    g[r][c] = v
        for _ in range(R(0, 4)):
            g[R(0, h - 1)][R(0, w - 1)] = R(lo, hi)
        return g
    if kind == "pits":
        v = R(lo, hi)
        g = [[v] * w for _ in range(h)]
        for _ in range(R(1, max(2, h * w // 4))):
            g[R(0, h - 1)][R(0, w - 1)] = R(lo, hi)
        return g
    if kind == "pocked":      # hillside or plain with many hollows, some of several cells
        a, b = rng.choice([(0, 0), (1, 0), (0, 1), (1, 1), (-1, 1), (1, -1)])
        g = [[a * r + b * c for c in range(w)] for r in range(h)]
        m = min(min(x) for x in g)
        top = max(2, (hi - lo) // 2)
        g = [[min(hi, lo + (v - m) + top) for v in row] for row in g]
        p = rng.choice([.08, .12, .2, .35])
        if rng.random() < .5:      # a gully which gathers the streams
            k = R(0, w - 1)
            g = [[g[r][c] + abs(c - k) for c in range(w)] for r in range(h)]
            m = max(max(x) for x in g) - hi
            g = [[max(lo, v - max(0, m)) for v in row] for row in g]
        for r in range(h):
            for c in range(w):
                if rng.random() < p:
                    g[r][c] = max(lo, g[r][c] - R(1, max(1, min(top, 6))))
                elif rng.random() < .1:
                    g[r][c] = min(hi, g[r][c] + R(1, 3))
        return g
    if kind == "valley":      # hollows on the sides of a valley, their streams merge
        k = R(w // 3, max(w // 3, 2 * w // 3))
        side, along = R(1, 2), R(1, 2)
        g = [[lo + along * (h - 1 - r) + side * abs(c - k) + 2 for c in range(w)] for r in range(h)]
        for _ in range(R(2, max(3, h * w // 14))):
            r, c = R(0, h - 1), R(0, w - 1)
            if abs(c - k) > 1:
                g[r][c] = max(lo, g[r][c] - R(2, 5))
        r = R(h // 2, h - 1)
        if rng.random() < .7 and h > 2:
            g[max(1, r - 1)][k] = lo
        return [row[::-1] for row in g] if rng.random() < .5 else g
    raise ValueError(kind)


KINDS = ["rand", "few", "const", "bowl", "slope", "maze", "spiral", "nested", "pits", "pocked", "valley"]
RICH = ["rand", "pocked", "pocked", "valley", "valley", "pits"]      # several bluespots


def shape(rng, maxside=9, minside=1):
    s = rng.random()
    if s < .12 and minside <= 2:
        h, w = rng.randint(minside, 3), rng.randint(minside, maxside)
        return (h, w) if rng.random() < .5 else (w, h)
    return rng.randint(max(3, minside), maxside), rng.randint(max(3, minside), maxside)


def terrain(rng, lo=0, hi=12, maxside=9, minside=1, kinds=None, hw=None):
    """integer terrain (list of rows)"""
    h, w = hw or shape(rng, maxside, minside)
    kind = rng.choice(kinds or KINDS)
    if kind in ("maze", "spiral") and min(h, w) < 3:
        kind = "rand"
    if kind in ("rand", "nested", "pits") and rng.random() < .3:
        hi = lo + rng.randint(1, 3)
    return _base(rng, h, w, kind, lo, hi)


def forms(rng, a):
    """the same array in another memory layout (results must not depend on it)"""
    k = rng.choice(["c", "c", "c", "f", "slice"])
    if k == "f":
        return np.asfortranarray(a)
    if k == "slice":
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 2), dtype=a.dtype)
        b[::2, ::2] = a
        return b[::2, ::2]
    return a


@contextlib.contextmanager
def mode(native):
    """speedups enabled or disabled"""
    from malstroem.algorithms import speedups
    (speedups.enable if native else speedups.disable)()
    try:
        yield
    finally:
        speedups.enable()
