#!/usr/bin/env python3
"""tools/mutate.py: mutation sweep (a development aid, not used by any check).

  mutate.py list OUT.jsonl            enumerates small changes to /repo's sources
  mutate.py tests LIST OUT N          runs the test suite on each (N workers), keeps those which pass
  mutate.py checks SURVIVORS OUT N    runs the checks of the changed file on each survivor until one reports it
Scratch copies live in /tmp/mutw*."""
import ast, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

PY = "/opt/venv/bin/python"
REL = {
    "algorithms/fill.py": "C01 C02 C16 C03", "algorithms/speedups/_fill.pyx": "C01 C02 C16 C03",
    "algorithms/flow.py": "C03 C04 C07 C16 C19", "algorithms/speedups/_flow.pyx": "C03 C04 C07 C16",
    "algorithms/label.py": "C05 C06 C08 C13 C16 C15 C11", "algorithms/speedups/_label.pyx": "C05 C06 C08 C13 C16 C15 C11",
    "algorithms/net.py": "C09 C10", "algorithms/_raster_utils.py": "C03 C09 C10 C07", "algorithms/dtypes.py": "C01 C16",
    "algorithms/speedups/__init__.py": "C16", "bluespots.py": "C06 C08 C05 C07 C19 C22", "dem.py": "C01 C03 C19 C22", "io.py": "C17 C18 C20 C19",
    "hyps.py": "C13 C14 C19", "approx.py": "C14 C15 C19 C22", "network.py": "C12 C19 C22", "rain.py": "C11 C19 C22", "streams.py": "C09 C10 C18 C19",
    "vector.py": "C21 C18 C08", "scripts/bluespot.py": "C06 C05 C07 C08 C21 C19", "scripts/_utils.py": "C06 C17", "scripts/cli.py": "C19",
    "scripts/complete.py": "C19 C22", "scripts/dem.py": "C01 C03 C04 C17", "scripts/finalstate.py": "C12 C14 C15 C18", "scripts/hyps.py": "C13 C14",
    "scripts/initvolume.py": "C11 C18", "scripts/stream.py": "C09 C10 C18", "__init__.py": "C16",
}


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda ln, col: off[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def sub(n, text, why):
        s, e = span(n)
        out.append((n.lineno, why, (b[:s] + text.encode() + b[e:]).decode()))

    def between(l, r, table, why):
        s, e = span(l)[1], span(r)[0]
        mid = b[s:e].decode()
        for a, c in table:
            m = re.fullmatch(r"(\)*\s*)" + re.escape(a) + r"(\s*\(*)", mid)
            if m:
                out.append((l.lineno, "%s -> %s" % (a, c), (b[:s].decode() + m.group(1) + c + m.group(2) + b[e:].decode())))
    CMP = [("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), ("==", "!="), ("!=", "=="), ("is", "is not"), ("is not", "is"), ("in", "not in"),
           ("not in", "in"), ("<", ">"), (">", "<")]
    BIN = [("+", "-"), ("-", "+"), ("*", "/"), ("/", "*"), ("//", "/"), ("/", "//"), ("%", "*"), ("**", "*"), ("&", "|"), ("|", "&")]
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        txt = ast.get_source_segment(src, n) or "" if isinstance(n, (ast.Expr, ast.Assert)) else ""
        if isinstance(n, ast.Assert) or (isinstance(n, ast.Expr) and re.match(r"(self\.)?logger\.|click_log|warnings\.", txt)):
            for m in ast.walk(n):
                skip.add(m)
    for n in ast.walk(tree):
        if n in skip or n in doc or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            between(n.left, n.comparators[0], CMP, "cmp")
        elif isinstance(n, ast.BinOp):
            between(n.left, n.right, BIN, "bin")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                sub(n, str(not v), "%s -> %s" % (v, not v))
            elif isinstance(v, int):
                sub(n, str(v + 1), "%d -> %d" % (v, v + 1))
                if v:
                    sub(n, "(%d)" % (v - 1), "%d -> %d" % (v, v - 1))
            elif isinstance(v, float):
                sub(n, repr(v * 1.001 if v else 0.001), "%r *1.001" % v)
        elif isinstance(n, ast.BoolOp):
            for a, c in zip(n.values, n.values[1:]):
                between(a, c, [("and", "or"), ("or", "and")], "bool")
            for v in n.values:
                if len(n.values) == 2:
                    sub(n, ast.get_source_segment(src, v), "only " + (ast.get_source_segment(src, v) or "")[:30])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, "bool(%s)" % ast.get_source_segment(src, n.operand), "drop not")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            sub(n.test, "True", "cond True") if not isinstance(n, ast.While) else None
            sub(n.test, "False", "cond False")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)):
            sub(n, "pass", "delete " + (ast.get_source_segment(src, n) or "")[:40])
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            sub(n, "pass", "delete " + (ast.get_source_segment(src, n) or "")[:40])
        elif isinstance(n, ast.Call):
            f = ast.get_source_segment(src, n.func) or ""
            for a, c in (("min", "max"), ("max", "min"), ("np.floor", "np.ceil"), ("np.floor", "np.round"), ("int", "float"), ("abs", ""), ("sorted", "list"),
                         ("np.max", "np.min"), ("np.min", "np.max"), ("np.copy", ""), ("float", "np.float32")):
                if f == a:
                    s, e = span(n.func)
                    out.append((n.lineno, "%s -> %s" % (a, c or "id"), (b[:s] + c.encode() + b[e:]).decode()))
            for kw in n.keywords:
                if kw.arg:
                    s, e = pos(kw.lineno, kw.col_offset), pos(kw.end_lineno, kw.end_col_offset)
                    tail = b[e:].decode()
                    head = b[:s].decode()
                    h2 = re.sub(r",\s*$", "", head)
                    if h2 != head:
                        out.append((n.lineno, "drop %s=" % kw.arg, h2 + tail))
        elif isinstance(n, ast.Attribute) and n.attr in ("float32", "float64", "int32", "int64", "uint8", "float_", "intp"):
            alt = {"float32": "float64", "float64": "float32", "int32": "int16", "int64": "int16", "uint8": "int8", "intp": "int16"}.get(n.attr)
            if alt:
                t = ast.get_source_segment(src, n)
                sub(n, t[: -len(n.attr)] + alt, "%s -> %s" % (n.attr, alt))
    return out


def pyx_mutants(src):
    out = []
    lines = src.split("\n")
    indoc = False
    for i, l in enumerate(lines):
        t = l.strip()
        q = t.count('"""') + t.count("'''")
        if indoc or q:
            if q % 2:
                indoc = not indoc
            continue
        if not t or t.startswith(("#", "import", "from", "cimport", "@", "np.import_array", "def ", "cdef inline", "assert")):
            continue
        code = l.split("#")[0]
        muts = []
        for pat, rep in ((r"(?<![<>=!])<(?!=)", "<="), (r"<=", "<"), (r"(?<![<>=!-])>(?!=)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "),
                         (r" \* ", " / "), (r" / ", " * "), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot\b ", ""), (r"\+=", "-="), (r"\bfloat64\b", "float32"),
                         (r"\bfloat32\b", "float64"), (r"\bint64\b", "int32"), (r"\bdouble\b", "float"), (r"\blong long\b", "int"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True")):
            for m in re.finditer(pat, code):
                muts.append((m.start(), m.end(), rep, "%s -> %s" % (m.group(0), rep)))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            muts.append((m.start(), m.end(), str(v + 1), "%d -> %d" % (v, v + 1)))
            if v:
                muts.append((m.start(), m.end(), "(%d)" % (v - 1), "%d -> %d" % (v, v - 1)))
        for s, e, r, why in muts:
            new = lines[:]
            new[i] = l[:s] + r + l[e:]
            out.append((i + 1, why, "\n".join(new)))
        if re.match(r"[\w.\[\], ]+\s*(\+|-)?=[^=]", t) and not t.startswith("cdef") or t in ("continue", "break") or re.match(r"[\w.]+\(.*\)$", t):
            new = lines[:]
            new[i] = l[: len(l) - len(l.lstrip())] + "pass"
            out.append((i + 1, "delete " + t[:40], "\n".join(new)))
    return out


def enumerate_():
    res = []
    for f in sorted(REL):
        p = "/repo/malstroem/" + f
        src = open(p).read()
        for ln, why, new in (py_mutants if f.endswith(".py") else pyx_mutants)(src):
            if f.endswith(".py"):
                try:
                    compile(new, f, "exec")
                except SyntaxError:
                    continue
            if new != src:
                res.append(dict(file=f, line=ln, why=why, new=new))
    return res


def prepare(k):
    d = "/tmp/mutw%s" % k
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.check_call("cp -a /repo %s/repo && rm -rf %s/repo/.git" % (d, d), shell=True)
        compile_(d)
    return d


def compile_(d):
    code = ("import sys,os,shutil,glob;sys.path.insert(0,'/verif/vf');import build;build.REPO='%s/repo';shutil.rmtree('%s/b',ignore_errors=True);"
            "r=build.build('%s/b');[shutil.copy(f,'%s/repo/malstroem/algorithms/speedups/') for f in glob.glob(r+'/malstroem/algorithms/speedups/*.so')]" % (d, d, d, d))
    return subprocess.run([PY, "-c", code], capture_output=True, text=True).returncode == 0


def pool(items, n, work, out):
    lock, slots = Lock(), list(range(n))

    def go(m):
        with lock:
            k = slots.pop()
        try:
            r = work(m, k)
        except Exception as e:
            r = dict(m, error=repr(e))
        with lock:
            slots.append(k)
            if r is not None:
                with open(out, "a") as f:
                    f.write(json.dumps(r) + "\n")
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(go, items))


def with_mutant(m, k, tag, fn):
    d = prepare(tag + str(k))
    p = d + "/repo/malstroem/" + m["file"]
    old = open(p).read()
    try:
        open(p, "w").write(m["new"])
        if m["file"].endswith(".pyx") and not compile_(d):
            return None
        return fn(d)
    finally:
        open(p, "w").write(old)
        if m["file"].endswith(".pyx"):
            compile_(d)


def tests(m, k):
    def fn(d):
        env = dict(os.environ, PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=40", "--basetemp=" + d + "/t", "tests"], cwd=d + "/repo", env=env,
                               capture_output=True, text=True, timeout=150)
        except subprocess.TimeoutExpired:
            return None
        return m if r.returncode == 0 else None
    return with_mutant(m, k, "t", fn)


def checks(m, k):
    def fn(d):
        res = dict(m, caught="", detail="")
        for c in REL[m["file"]].split():
            env = dict(os.environ, VF_REPO=d + "/repo", VF_TMP=d, VF_EVIDENCE=d + "/ev", VERIF_SEED="1")
            try:
                r = subprocess.run(["/verif/bin/check", c, "quick"], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res["detail"] += " %s:timeout" % c
                continue
            if r.returncode:
                res["caught"] = "%s(%d)" % (c, r.returncode)
                x = [l for l in r.stdout.split("\n") if l.startswith("  case")]
                res["detail"] = (x or [r.stdout[-200:]])[0][:160]
                break
        return res
    return with_mutant(m, k, "c", fn)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "list":
        L = enumerate_()
        with open(sys.argv[2], "w") as f:
            for i, m in enumerate(L):
                f.write(json.dumps(dict(m, id=i)) + "\n")
        print(len(L))
    else:
        L = [json.loads(l) for l in open(sys.argv[2])]
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {json.loads(l)["id"] for l in open(sys.argv[3])}
        pool([m for m in L if m["id"] not in done], int(sys.argv[4]), tests if cmd == "tests" else checks, sys.argv[3])
