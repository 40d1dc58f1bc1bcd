"""L01, L02, L03, L05: AgeCommand."""

INV = {"enc": ["Refusals", "NeverUnasked", "ZeroIsComplete", "NeverTruncated", "Inverse"], "dec": ["Nothing", "ZeroIsExact"]}


def model(mode, weak=(), expect=None, workers=1, plain=2, names=2):
    return dict(module="MCAgeCommand", consts=dict(Weak=frozenset(weak), Mode=mode, MaxPlain=plain, MaxNames=names),
                inv=INV[mode], props=[] if weak else ["Ends"], expect=expect, workers=workers)


def run(c, mode, weak):
    c.mc_all([model(mode, plain=c.pick(2, 4), names=c.pick(2, 3), workers=4)] +
             [model(mode, [w], e, plain=2, names=1) for w, e in weak])
    scen = c.generate("GenAgeCommand", spec="GenSpec", env={"PROP": c.prop}, consts=dict(Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "%s-%d" % (c.prop, i)
    cases = c.drive("cli_driver.py", scen)
    c.validate("TraceAgeCommand", cases, consts=dict(Weak=frozenset()))
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample({k: v for k, v in x.items() if k not in ("aliases", "files", "urls")})
    c.cover["exit_zero"] = sum(1 for x in cases if x["rc"] == 0)
    c.cover["own_interpreter"] = sum(1 for x in cases if x["real"])
    c.assumptions = ["most runs are forked from one interpreter with a cheap scrypt stand-in; some are complete runs of the installed command",
                     "the network is a local server behind the requests library's adapter"]
