"""C01..C04: AgeReader (design), AgeFile (conformance)."""

INV = ["ResultAllowed", "RoundTrip", "OnlyHolders", "NoIdError", "Integrity", "WholePlaintext"]


def model(c, ids, lists, lens, edits, n, weak=(), expect=None, live=False, workers=2):
    return dict(module="MCAgeReader", consts=dict(MaxEdits=n, Weak=frozenset(weak)),
                defs=dict(Ids=ids, RcptLists=lists, LenChoices=lens, EditSet=edits),
                inv=INV, props=["Termination"] if live else [], expect=expect, workers=workers)


def run(c, jobs):
    c.mc_all(jobs)
    scen = c.generate("GenAgeFile", spec="GenSpec", env={"PROP": c.prop})
    for i, s in enumerate(scen):
        s["id"] = "%s-%d" % (c.prop, i)
    events = c.drive("age_driver.py", scen)
    c.validate("TraceAgeFile", events)
    for e in events[::max(1, len(events) // 5)]:
        c.sample(e)
    by = {}
    for e in events:
        by[e["r"]] = by.get(e["r"], 0) + 1
    c.cover["reactions"] = by
    c.cover["edits_applied"] = sum(len(e["edits"]) for e in events)
    c.assumptions = [
        "cryptographic primitives (ChaCha20-Poly1305, HMAC, HKDF, X25519, RSA-OAEP) are ideal",
        "scrypt is replaced by a cheap function of the same inputs (C09 runs the real one)",
        "the driver's byte-level edits realise the specification's edit operations",
    ]
