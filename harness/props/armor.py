"""A01, A02: AgeArmor."""
INV = ["GrammarOK", "NoPrefix", "SameRun"]
WEAK = ["eofEnds", "anyEnd", "anyLabel", "shortLines", "longLines", "firstWins", "restart"]


def model(lines, weak=(), expect=None, workers=1):
    return dict(module="MCAgeArmor",
                consts=dict(Columns=4, Weak=frozenset(weak), MaxLines=lines, MaxData=12),
                inv=INV, expect=expect, workers=workers)


def run(c, prop):
    lines = c.pick(3, 5) if prop == "A01" else c.pick(4, 5)
    c.mc_all([model(lines, workers=4)] + [model(4, weak=[w], expect=INV) for w in WEAK])
    scen = c.generate("GenAgeArmor", spec="GenSpec", env={"PROP": c.prop},
                      consts=dict(Columns=64, Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "%s-%d" % (c.prop, i)
    cases = c.drive("armor_driver.py", scen)
    c.validate("TraceAgeArmor", cases)
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample(x)
    c.cover["accepted"] = sum(1 for x in cases if x.get("r") == "ok")
    c.assumptions = ["base64 itself is Python's; where age implementations differ (white space around lines, unused "
                     "bits of the last digit, content of sections with other labels) either answer is allowed"]
