"""What each check runs besides its driver: model checking configurations and generators of behaviours."""
TIMEOUT = {"quick": 700, "thorough": 6000}
CASE_TIMEOUT = 60
ASSUMPTIONS = [
    "numpy, scipy.ndimage.label, GDAL/OGR and the C compiler behave as documented",
    "recorded values are exact integers in the unit of the case (a value that is not is logged as a sentinel and rejected)",
]
PLAN = {}
for _i in range(1, 24):
    PLAN["C%02d" % _i] = {}
PLAN["ALL"] = {}

MC_TIMEOUT = {"quick": 420, "thorough": 5400}


def gen(prop, module, quick=None, thorough=None, sim=None):
    """exhaustive generation with configuration quick / thorough, then random larger behaviours: sim = (cfg, number quick, number thorough, depth)"""
    l = PLAN[prop].setdefault("gen", [])
    if quick:
        l.append(dict(module=module, cfg=dict(quick="%s_%s.cfg" % (module, quick), thorough="%s_%s.cfg" % (module, thorough or quick))))
    if sim:
        cfg, nq, nt, depth = sim
        a = lambda n: ["-simulate", "num=%d" % n, "-seed", "SEED", "-depth", str(depth)]
        l.append(dict(module=module, cfg={t: "%s_%s.cfg" % (module, cfg) for t in ("quick", "thorough")}, simulate=True, workers=1,
                      args=dict(quick=a(nq), thorough=a(nt))))


def mc(prop, module, what, quick=(), thorough=(), sim=None):
    """design level model checking; sim = (cfg, number quick, number thorough, depth)"""
    d = PLAN[prop].setdefault("mc", dict(quick=[], thorough=[]))
    for tier, cfgs in (("quick", quick), ("thorough", tuple(quick) + tuple(thorough))):
        for c in cfgs:
            d[tier].append(dict(module=module, cfg="%s_%s.cfg" % (module, c), what=what))
    if sim:
        cfg, nq, nt, depth = sim
        for tier, n in (("quick", nq), ("thorough", nt)):
            if n:
                d[tier].append(dict(module=module, cfg="%s_%s.cfg" % (module, cfg), what=what + " (random walks)", simulate=True, workers=1,
                                    args=["-simulate", "num=%d" % n, "-seed", "SEED", "-depth", str(depth)]))


# behaviours generated by TLC from the specification and replayed into the code
for _p in ("C01", "C02", "C03"):
    gen(_p, "GenGrid", "dem_q", "dem_t", ("dem_s", 40, 1500, 60))
gen("C05", "GenGrid", "wet_q", "wet_t", ("wet_s", 40, 1500, 60))
gen("C21", "GenGrid", "ids_q", "ids_t", ("ids_s", 40, 1500, 60))
gen("C04", "GenForest", "q", "t", ("s", 60, 2000, 60))
gen("C07", "GenForest", "lq", "lt", ("ls", 80, 2000, 90))
gen("C09", "GenStreams", "q", "t", ("s", 60, 2000, 90))
gen("C10", "GenStreams", "q", "t", ("s", 60, 2000, 90))
gen("C12", "GenNet", "q", "t", ("s", 120, 4000, 60))
gen("C06", "GenFilter", "q", "t")
gen("C16", "GenToggle", "q", "t")
gen("C23", "GenOptions", "q", "t", ("s", 120, 1500, 8))
gen("C20", "GenCommands", "q", "t", ("sim", 70, 900, 18))

# design level models
mc("C01", "MC_Fill", "priority flood in any order ends at the one fill that meets the requirements", ["a"], ["c"])
mc("C02", "MC_Fill", "the same with steps 2 and 3", ["b"], ["d"])
mc("C04", "MC_Forest", "accumulation in any order", ["a"], ["c"])
mc("C07", "MC_Forest", "labels spread upstream in any order", ["e"], ["b", "d"])
mc("C05", "MC_Labels", "scan order labelling, filters, relabelling", ["d"], ["a", "b"])
mc("C06", "MC_Labels", "scan order labelling, filters, relabelling", ["d"], ["a", "b"])
mc("C09", "MC_Streams", "network construction in any order of pour points", [], ["a", "b"], ("s", 40, 400, 60))
mc("C10", "MC_Streams", "network construction in any order of pour points", [], ["a"], ("s", 40, 400, 60))
mc("C12", "MC_Spill", "spilling in any order ends at the one state that meets the requirements", ["a", "u"], ["b", "c", "d"])
mc("C13", "MC_Levels", "histograms, curves and levels on all small bluespots", ["a"], ["b"])
mc("C14", "MC_Levels", "histograms, curves and levels on all small bluespots", ["a"], ["b"])
mc("C21", "MC_Polys", "boundaries traced ring by ring", ["a"], ["b", "c"])
mc("C20", "MC_Commands", "histories of commands on symbolic contents, with and without faults", ["a"], ["b"])
mc("C23", "MC_Output", "datasources written with options, with and without faults", ["a"], ["b"])
for _p in ("C03", "C08", "C11", "C15", "C22"):
    mc(_p, "MC_Pipeline", "a whole calculation, step by step, every clause", [], ["a"], ("s", 15, 300, 60))
