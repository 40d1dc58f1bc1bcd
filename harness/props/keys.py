"""K01, K02: AgeKeys."""


def model(mode, weak=(), expect=None, workers=1, alter=1, lines=4, code=20, inv=None, mem="2g"):
    inv = inv or {"text": ["NeverOther", "RoundTrip"], "file": ["FileOK"], "code": ["Distance"]}[mode]
    return dict(module="MCAgeKeys",
                consts=dict(Weak=frozenset(weak), Mode=mode, MaxLines=lines, CodeLen=code, Alterations=alter),
                inv=inv, expect=expect, workers=workers, mem=mem)


def run(c, jobs):
    c.mc_all(jobs)
    scen = c.generate("GenAgeKeys", spec="GenSpec", env={"PROP": c.prop}, consts=dict(Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "%s-%d" % (c.prop, i)
    cases = c.drive("key_driver.py", scen)
    c.validate("TraceAgeKeys", cases, consts=dict(Weak=frozenset()))
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample(x)
    c.cover["accepted"] = sum(1 for x in cases if x["r"] == "ok")
