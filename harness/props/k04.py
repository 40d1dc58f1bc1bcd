"""K04: AgeSshDir."""


def model(weak=(), expect=None, files=3, workers=1):
    return dict(module="MCAgeSshDir", consts=dict(Weak=frozenset(weak), MaxFiles=files),
                inv=["NeverFails", "Complete", "Sufficient"], props=["Ends"] if not weak else [], expect=expect, workers=workers)


def run(c):
    c.mc_all([model(files=c.pick(3, 4), workers=4)] +
             [model([w], [e], files=2) for w, e in (("raise", "NeverFails"), ("stop", "Complete"), ("anyName", "Complete"),
                                                    ("stopAtNothing", "Complete"))])
    scen = c.generate("GenAgeSshDir", spec="GenSpec", consts=dict(Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "K04-%d" % i
    cases = c.drive("dir_driver.py", scen)
    c.validate("TraceAgeSshDir", cases, consts=dict(Weak=frozenset()))
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample(x)
    c.cover["decryptions"] = sum(1 for x in cases if x["d"] != "skip")
    c.assumptions = ["files with two keys, with CRLF line endings or with text that resembles a begin line may be used or ignored"]
