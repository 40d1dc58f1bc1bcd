"""L04: AgeGenerate."""

INV = ["FaithfulI", "ReportedI", "SilentI", "WarnedI", "FreshI"]


def model(weak=(), expect=None, runs=0, perms="all", workers=1):
    return dict(module="MCAgeGenerate", consts=dict(Weak=frozenset(weak), MaxRuns=runs, Perms=perms),
                inv=INV, props=[] if weak else ["Ends"], expect=expect, workers=workers)


def run(c):
    c.mc_all([model(workers=2), model(runs=c.pick(1, 2), perms="few", workers=3)] +
             [model([w], e) for w, e in [
                 ("anyType", ["WarnedI"]), ("sockets", ["WarnedI"]), ("readOnly", ["WarnedI"]), ("groupOnly", ["WarnedI"]), ("both", ["WarnedI"]),
                 ("named", ["WarnedI"]), ("owner", ["WarnedI"]), ("otherComment", ["FaithfulI"]), ("reportSecret", ["SilentI", "FaithfulI"]),
                 ("ignoreFull", ["FaithfulI"]), ("errToOut", ["FaithfulI"])]] + [model(["repeat"], ["FreshI"], runs=1, perms="few")])
    scen = c.generate("GenAgeGenerate", spec="GenSpec", consts=dict(Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "L04-%d" % i
    cases = c.drive("generate_driver.py", scen)
    numbers = {}
    history = dict(k="history", id="L04-history", keys=[numbers.setdefault(x["secret"], len(numbers) + 1) for x in cases if x["secret"]])
    c.validate("TraceAgeGenerate", [history] + cases, consts=dict(Weak=frozenset()))
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample({k: v for k, v in x.items() if k != "secret"})
    c.cover["keys_compared"] = len(history["keys"])
    c.cover["own_interpreter"] = sum(1 for x in cases if x["real"])
    c.assumptions = ["a warning is a line on standard error that says warning or permission",
                     "most runs are forked from one interpreter; some are complete runs of the command"]
