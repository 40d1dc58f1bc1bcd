"""C05, C06: AgeWire."""


def model(c, weak=(), expect=None, workers=2, stanzas=2, body=5, length=9):
    return dict(module="MCAgeWire",
                consts=dict(Columns=2, ChunkSize=2, MaxLen=length, MaxBody=body,
                            MaxStanzas=stanzas, Weak=frozenset(weak)),
                inv=["LayoutOK", "LastExactlyAtEnd", "TextOK", "RoundTrip"],
                props=[] if expect else ["Terminates"], expect=expect, workers=workers)


def run(c, weak):
    c.mc_all([model(c, workers=4, stanzas=c.pick(2, 3), body=c.pick(5, 4), length=c.pick(9, 40))]
             + [model(c, weak=[w], expect=e, stanzas=1) for w, e in weak])
    scen = c.generate("GenAgeWire", spec="GenSpec", env={"PROP": c.prop},
                      consts=dict(Columns=64, ChunkSize=65536))
    for i, s in enumerate(scen):
        s["id"] = "%s-%d" % (c.prop, i)
    cases = c.drive("wire_driver.py", scen)
    c.validate("TraceAgeWire", cases)
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample(x)
    c.assumptions = [
        "the reference reader/writer in harness/drivers/refage.py implements the age v1 primitives",
        "the ssh-ed25519 key derivation is the one of the age document pyage follows",
        "scrypt is replaced by a cheap function of the same inputs"]
