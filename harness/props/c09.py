"""C09: AgePassword."""
INV = ["OnlyRightPassword", "BoundedWork", "ValidHonoured"]
WEAK = [("noUpper", ["OnlyRightPassword", "BoundedWork"]), ("noLower", ["OnlyRightPassword", "BoundedWork"]),
        ("checkAfter", ["BoundedWork"]), ("clamp", ["OnlyRightPassword", "BoundedWork"]),
        ("prefix", ["OnlyRightPassword"]), ("rejectTop", ["ValidHonoured"])]


def model(c, weak=(), expect=None, stanzas=1, ids=2, workers=1):
    return dict(module="MCAgePassword",
                consts=dict(Lo=1, Hi=22, Weak=frozenset(weak), MaxStanzas=stanzas, MaxIds=ids),
                inv=INV, props=[] if expect else ["Terminates"], expect=expect, workers=workers)


def run(c):
    c.mc_all([model(c, stanzas=c.pick(1, 2), ids=c.pick(2, 1), workers=4)] +
             [model(c, weak=[w], expect=e) for w, e in WEAK])
    scen = c.generate("GenAgePassword", spec="GenSpec", consts=dict(Lo=1, Hi=22, Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "C09-%d" % i
    cases = c.drive("password_driver.py", scen)
    c.validate("TraceAgePassword", cases)
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample(x)
    c.cover["kdf_calls_recorded"] = sum(len(x["work"]) + len(x["wwork"]) for x in cases)
    c.cover["real_kdf_cases"] = sum(1 for x in cases if x["real"])
    c.assumptions = ["most cases replace scrypt by a cheap function of the same inputs and record N, r and p; the cases "
                     "with real=true run the real function",
                     "trailing zero bytes and >64-byte passwords equal to the hash of another are beyond scrypt"]
