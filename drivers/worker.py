"""Runs the cases of one shard and records their traces (one JSON line per case)."""
import faulthandler, importlib, json, os, sys, traceback

prop, tier, seed, shard, nshards, bdir, out, prog, start, case_timeout, gen, only = sys.argv[1:13]
seed, shard, nshards, start, case_timeout = int(seed), int(shard), int(nshards), int(start), int(case_timeout)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, bdir)
import warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
import common
try:
    import malstroem
    ok = os.path.abspath(malstroem.__file__).startswith(os.path.abspath(bdir))
except Exception:
    # the package does not even import: every use of it fails
    traceback.print_exc()
    ok = None
if ok is False:
    print("wrong malstroem imported: " + malstroem.__file__)
    sys.exit(3)
try:
    mod = importlib.import_module("p_" + prop.lower())
    common.GEN[:] = [json.loads(x) for x in open(gen)] if gen != "-" else []
    cases = mod.cases(common.Ctx(prop, tier, seed))
except Exception:
    traceback.print_exc()
    sys.exit(3)
f = open(out, "a")
for i, (name, fn) in enumerate(cases):
    if only != "-" and name != only:
        continue
    if i % nshards != shard or i < start:
        continue
    with open(prog, "w") as pf:
        pf.write("%d %s" % (i, name))
    faulthandler.dump_traceback_later(case_timeout, exit=True)
    rec = common.Rec(name)
    try:
        fn(rec)
    except common.Abort:
        pass
    except Exception:
        rec.error(traceback.format_exc())
    finally:
        rec.cleanup()
    faulthandler.cancel_dump_traceback_later()
    f.write(json.dumps(dict(id=name, ev=rec.ev)) + "\n")
    f.flush()
f.close()
with open(prog, "w") as pf:
    pf.write("done 0")
