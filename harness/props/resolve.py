"""R01, R02: AgeResolve."""


def model(weak=(), expect=None, alias=1, other=1, lines=1, workers=1, props=()):
    return dict(module="MCAgeResolve", consts=dict(Weak=frozenset(weak), AliasLen=alias, OtherLen=other, ListLen=lines),
                inv=["Exact", "NeverMore", "Bounded"], props=list(props), expect=expect, workers=workers)


def run(c, weak):
    c.mc_all([model(alias=2, other=c.pick(0, 1), lines=c.pick(1, 1), workers=4),
              model(alias=1, other=c.pick(0, 1), lines=1, props=["Ends"], workers=2)] +
             [model([w], e, other=0) for w, e in weak])
    scen = c.generate("GenAgeResolve", spec="GenSpec", consts=dict(Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "%s-%d" % (c.prop, i)
    cases = c.drive("resolve_driver.py", scen)
    c.validate("TraceAgeResolve", cases, consts=dict(Weak=frozenset(), Prop=c.prop))
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample(x)
    c.cover["errors"] = sum(1 for x in cases if x["r"] == "error")
    c.cover["fetches"] = sum(1 for x in cases for t in x["touched"] if t.startswith("http"))
    c.cover["files_read"] = sum(1 for x in cases for t in x["touched"] if t.startswith("file:"))
    c.assumptions = ["the network is a local server behind the requests library's adapter: names are not looked up, TLS is not spoken"]
