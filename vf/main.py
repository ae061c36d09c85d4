"""Orchestrates one check: build, drive the code, validate the recorded traces with TLC, model check, report.

usage: main.py PROPERTY [quick|thorough] [--seed N] [--keep] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION; 2: the machinery itself failed."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as vbuild      # noqa: E402
import tlc                  # noqa: E402
import plan                 # noqa: E402

NSHARD = 8
INCOMPLETE = []


class Machinery(Exception):
    pass


def shard_run(prop, tier, seed, shard, nshards, bdir, outdir, gen, case_timeout, total_timeout, only=None):
    """Runs one driver process; restarts it behind a case that killed or hung it."""
    out = os.path.join(outdir, "shard%d.ndjson" % shard)
    prog = os.path.join(outdir, "shard%d.progress" % shard)
    start, deaths, notes = 0, 0, []
    t0 = time.time()
    while True:
        cmd = [sys.executable, "-B", os.path.join(ROOT, "drivers", "worker.py"), prop, tier, str(seed), str(shard),
               str(nshards), bdir, out, prog, str(start), str(case_timeout), gen or "-", only if only is not None else "-"]
        env = dict(os.environ)
        env["PYTHONPATH"] = bdir
        env["TMPDIR"] = outdir
        left = total_timeout - (time.time() - t0)
        if left <= 5:
            raise Machinery("drivers did not finish in %ss" % total_timeout)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=outdir,
                             text=True, errors="replace", start_new_session=True)
        try:
            txt, _ = p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            txt, _ = p.communicate()
        if p.returncode == 0:
            return out, notes
        last = open(prog).read().split() if os.path.exists(prog) else []
        if p.returncode == 3 or len(last) != 2 or last[0] == "done":
            raise Machinery("driver failed (rc %s): %s" % (p.returncode, txt[-4000:]))
        # the case in progress killed the process (crash) or exceeded its time (hang)
        idx, name = int(last[0]), last[1]
        deaths += 1
        notes.append((name, p.returncode, txt[-1500:]))
        ev = dict(op="Input", r={"_": "_"}, w={}, p={"_": 0},
                  err="process died or hung (rc %s): %s" % (p.returncode, txt[-600:]))
        with open(out, "a") as f:
            f.write("\n" + json.dumps(dict(id=name, ev=[ev])) + "\n")
        if deaths >= 3:
            return out, notes
        start = idx + 1


def clean_lines(path):
    """Complete JSON lines only (a killed process may leave half a line)."""
    res = []
    if os.path.exists(path):
        for line in open(path, errors="replace"):
            line = line.strip()
            if not line:
                continue
            try:
                res.append(json.loads(line))
            except ValueError:
                pass
    return res


def load_known():
    p = os.path.join(ROOT, "known", "findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    keep = "--keep" in args
    only = None
    for i, a in enumerate(args[1:], 1):
        if a in ("quick", "thorough"):
            tier = a
        if a == "--seed":
            seed = int(args[i + 1])
        if a == "--replay":
            d = json.load(open(args[i + 1]))
            only, tier, seed = d["case"], d["tier"], d["seed"]
    t0 = time.time()
    conf = plan.PLAN[prop]
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=os.environ.get("VF_TMP", "/tmp"))
    rc = 2
    try:
        rc = check(prop, tier, seed, conf, scratch, t0, only)
    except Machinery as e:
        print("MACHINERY-ERROR %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, conf, scratch, t0, only):
    deadline = plan.TIMEOUT[tier]
    evdir = os.environ.get("VF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(evdir, "replay")):
        if f.startswith(prop + "_"):
            os.remove(os.path.join(evdir, "replay", f))
    stage = {}

    ex = cf.ThreadPoolExecutor(16)
    # 1. design level model checking and generation of behaviours, concurrently with the build
    t = time.time()
    fb = ex.submit(vbuild.build, scratch)
    gens = [] if only is not None and False else conf.get("gen", [])
    gen_file = None
    gen_stats = []
    if gens:
        gen_file = os.path.join(scratch, "gen.ndjson")

        def one(g):
            return tlc.run(g["module"], g["cfg"][tier], scratch, workers=g.get("workers", 4), timeout=deadline,
                           heap="4g", args=[a.replace("SEED", str(seed)) for a in g.get("args", {}).get(tier, [])],
                           tag="gen_" + g["module"] + "_" + os.path.basename(g["cfg"][tier]))
        fg = [ex.submit(one, g) for g in gens]
        with open(gen_file, "w") as f:
            n = 0
            for g, fut in zip(gens, fg):
                r = fut.result()
                if not r.ok and not (g.get("simulate") and r.rc == 0):
                    raise Machinery("generator %s failed:\n%s" % (g["module"], r.out[-3000:]))
                seen = set()
                lines = [x for x in r.lines if isinstance(x, str) and x.startswith("{")]
                if g.get("simulate"):
                    # a random walk prints every alternative of its last step: some of them are enough
                    num = int([a for a in g["args"][tier] if a.startswith("num=")][0][4:])
                    lines = lines[::max(1, len(lines) // (3 * num))]
                else:
                    lines.sort()      # the order depends on the scheduling of TLC's workers
                for line in lines:
                    if line not in seen:
                        seen.add(line)
                        f.write(line + "\n")
                        n += 1
                gen_stats.append(dict(module=g["module"], cfg=g["cfg"][tier], states=r.distinct,
                                      transitions=r.generated, behaviours=len(seen)))
                if not seen:
                    raise Machinery("generator %s produced nothing" % g["module"])
    try:
        bdir = fb.result()
    except vbuild.BuildError as e:
        raise Machinery("build failed: %s" % e)
    stage["build_and_generate_s"] = round(time.time() - t, 1)

    mcs = conf.get("mc", {}).get(tier, []) if only is None else []
    t_mc = time.time()
    mex = cf.ThreadPoolExecutor(4)
    fmc = [mex.submit(tlc.run, m["module"], m["cfg"], scratch, None, m.get("workers", 3), plan.MC_TIMEOUT[tier], m.get("heap", "4g"),
                      [a.replace("SEED", str(seed)) for a in m.get("args", ())], "mc_" + m["module"] + "_" + m["cfg"]) for m in mcs]

    # 2. drive the implementation
    t = time.time()
    outdir = os.path.join(scratch, "drive")
    os.makedirs(outdir)
    n = 1 if only is not None else NSHARD
    futs = [ex.submit(shard_run, prop, tier, seed, i, n, bdir, outdir, gen_file,
                      plan.CASE_TIMEOUT, deadline, only) for i in range(n)]
    cases, notes = [], []
    for f in futs:
        path, nt = f.result()
        notes += nt
        cases += clean_lines(path)
    stage["drive_s"] = round(time.time() - t, 1)
    if not cases:
        raise Machinery("no cases were executed")

    # 3. validate the traces against the specification
    t = time.time()
    rejects, tstates, ttrans = validate(prop, cases, scratch, deadline)
    stage["validate_s"] = round(time.time() - t, 1)

    mc_stats = []
    for m, fut in zip(mcs, fmc):
        r = fut.result()
        done = r.ok or m.get("simulate") and r.rc == 0 and not r.violated
        if not done and (r.rc != -1 or r.violated):
            # the specification itself is at fault, never the code
            raise Machinery("model checking %s %s failed:\n%s" % (m["module"], m["cfg"], r.out[-4000:]))
        mc_stats.append(dict(module=m["module"], cfg=m["cfg"], states=r.distinct, transitions=r.generated,
                             depth=r.depth, wall_s=round(r.wall, 1), what=m.get("what", ""),
                             mode="random walks" if m.get("simulate") else "every state" if done else "stopped at the time limit"))

    # 4. verdict
    known = [k for k in load_known() if k["property"] == prop and k["kind"] == "finding"]
    found_known, violations = {}, []
    byid = {c["id"]: c for c in cases}
    for rj in rejects:
        hit = None
        for k in known:
            if all(rj.get(a) == b if not isinstance(b, list) else rj.get(a) in b for a, b in k["match"].items()
                   if a in ("op", "case")) and set(rj["clauses"]) <= set(k["match"]["clauses"]):
                hit = k
                break
        if hit:
            found_known.setdefault(hit["id"], []).append(rj)
        else:
            violations.append(rj)
    for k in known:
        if k["id"] in found_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if INCOMPLETE and not violations:
        raise Machinery(INCOMPLETE[0])
    counts = {}
    for c in cases:
        for e in c["ev"]:
            counts[e["op"]] = counts.get(e["op"], 0) + 1
    shown = 0
    for rj in violations:
        if shown >= 5:
            break
        shown += 1
        path = os.path.join(evdir, "replay", "%s_%d.json" % (prop, shown))
        c = byid.get(rj["case"], {})
        json.dump(dict(property=prop, case=rj["case"], tier=tier, seed=seed, clauses=rj["clauses"], op=rj["op"],
                       event_index=rj["at"], err=(c.get("ev") or [{}] * rj["at"])[rj["at"] - 1].get("err", "") if c else "",
                       how="bin/check %s --replay %s" % (prop, path), events=c.get("ev")), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case %s, step %d (%s): %s" % (rj["case"], rj["at"], rj["op"], ", ".join(rj["clauses"])))
    digest = set(hashlib.sha256(json.dumps(c["ev"], sort_keys=True).encode()).hexdigest() for c in cases)
    cov = dict(
        states=tstates + sum(m["states"] for m in mc_stats),
        transitions=ttrans + sum(m["transitions"] for m in mc_stats),
        traces_validated_against_impl=len(cases),
        distinct_traces=len(digest),
        events=sum(counts.values()), events_by_operation=counts,
        model_checking=mc_stats, generated_behaviours=gen_stats,
        exhaustive=False,
        rejected_steps=len(rejects), known_findings_seen=sorted(found_known),
        families=family_counts(cases),
        samples=samples(cases), stages=stage)
    ev = dict(property=prop, tier=tier, seed=seed, level=conf.get("level", "model_checking"), coverage=cov,
              assumptions=conf.get("assumptions", []) + plan.ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if only is None:
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d traces (%d events), %d trace states, model states %d, %d rejected steps, %.1fs" % (
        prop, tier, seed, len(cases), sum(counts.values()), tstates, sum(m["states"] for m in mc_stats), len(rejects),
        time.time() - t0))
    return 1 if violations else 0


def family_counts(cases):
    r = {}
    for c in cases:
        f = re.split(r"[:#]", c["id"])[0]
        r[f] = r.get(f, 0) + 1
    return r


def samples(cases):
    seen, res = set(), []
    for c in sorted(cases, key=lambda c: c["id"]):
        f = re.split(r"[:#]", c["id"])[0]
        if f not in seen and len(res) < 6:
            seen.add(f)
            s = json.dumps(c)
            res.append(c if len(s) < 2500 else dict(id=c["id"], events=[e["op"] for e in c["ev"]], excerpt=s[:1200]))
    return res


def validate(prop, cases, scratch, timeout):
    """TLC over the recorded cases. Returns rejections and the state/transition counts."""
    trace = os.path.join(scratch, "trace.ndjson")
    with open(trace, "w") as f:
        for c in cases:
            f.write(json.dumps(dict(id=c["id"], ev=c["ev"])) + "\n")
    r = tlc.run("Trace", "Trace.cfg", scratch, env={"VF_TRACE": trace}, workers=8, timeout=timeout, heap="10g",
                constants={"PROP": '"%s"' % prop}, tag="trace")
    want = sum(len(c["ev"]) + 1 for c in cases)
    rej = []
    for line in r.lines:
        if isinstance(line, str) and line.startswith('{"reject"'):
            rej.append(json.loads(line)["reject"])
    if not r.ok or r.distinct != want:
        # A step whose recorded values lie outside of the types of the specification (wrong shape, not an exact
        # number in the unit of the case) cannot be evaluated; it is not a step of the specification either.
        m = [re.findall(r"/\\ %s = (\d+)" % v, r.out) for v in ("ci", "l")]
        if "The error occurred when TLC was evaluating" in r.out and m[0] and m[1] and "StackOverflow" not in r.out:
            c = cases[int(m[0][-1]) - 1]
            at = int(m[1][-1])
            if 1 <= at <= len(c["ev"]):
                rej.append(dict(case=c["id"], at=at, op=c["ev"][at - 1]["op"], clauses=[prop + ".values_outside_the_types_of_the_specification"]))
        if not rej:
            raise Machinery("trace validation incomplete: %d of %d states\n%s" % (r.distinct, want, r.out[-5000:]))
        INCOMPLETE.append("trace validation incomplete: %d of %d states" % (r.distinct, want))
    rej.sort(key=lambda x: (x["case"], x["at"]))
    return rej, r.distinct, r.generated


if __name__ == "__main__":
    main()
