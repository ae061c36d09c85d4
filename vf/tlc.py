"""Runs TLC and parses what it says."""
import json, os, re, subprocess, time

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


class Result:
    def __init__(self):
        self.generated = self.distinct = 0
        self.depth = 0
        self.lines = []       # lines printed by the spec with PrintT (strings, unquoted)
        self.ok = False
        self.violated = None  # invariant / property name
        self.out = ""
        self.wall = 0.0
        self.rc = None


def run(module, cfg, scratch, env=None, workers=8, timeout=600, heap="6g", args=(), tag=None, constants=None):
    tag = tag or (module + "_" + os.path.basename(cfg).replace(".cfg", ""))
    meta = os.path.join(scratch, "tlc_" + tag)
    os.makedirs(meta, exist_ok=True)
    cfgpath = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
    if constants:
        text = open(cfgpath).read() + "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in constants.items()) + "\n"
        cfgpath = os.path.join(meta, "run.cfg")
        open(cfgpath, "w").write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
           "-workers", str(workers), "-metadir", meta, "-config", cfgpath] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    r = Result()
    outf = os.path.join(meta, "out.txt")
    with open(outf, "w") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout)
            r.rc = p.returncode
        except subprocess.TimeoutExpired:
            r.rc = -1
    r.wall = time.time() - t
    r.out = open(outf, errors="replace").read()
    for line in r.out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                r.lines.append(json.loads(line))
            except ValueError:
                # TLC prints strings without JSON escaping of inner quotes being guaranteed
                r.lines.append(line[1:-1].replace('\\"', '"'))
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
        if m:
            r.generated, r.distinct = (int(x.replace(",", "")) for x in m.groups())
        m = re.match(r"The number of states generated: ([\d,]+)", line)
        if m:      # simulation
            r.generated = r.distinct = int(m.group(1).replace(",", ""))
        m = re.match(r"The depth of the complete state graph search is (\d+)", line)
        if m:
            r.depth = int(m.group(1))
        m = re.match(r"Error: (Invariant|Action property|Temporal properties|Property|Evaluating invariant) ?(\S*)", line)
        if m and not r.violated:
            r.violated = m.group(2) or m.group(1)
        if line.startswith("Error: The postcondition") or line.startswith("Error: Deadlock"):
            r.violated = line
    r.ok = r.rc == 0 and "Model checking completed. No error has been found." in r.out
    return r
