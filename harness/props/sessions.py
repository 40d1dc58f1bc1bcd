"""C07, C08: AgeSessions."""

INV = ["InvOwnBytes", "InvAccepted", "InvAbort", "InvOnce", "InvReads", "InvFresh"]


def model(c, n, handles=2, readers=1, weak=(), expect=None, workers=2):
    hs, rs = frozenset(range(1, handles + 1)), frozenset(range(1, readers + 1))
    return dict(module="MCAgeSessions",
                consts=dict(Handles=hs, Readers=rs, Weak=frozenset(weak), MaxOps=n,
                            Sizes=frozenset([0, 2])),
                inv=INV, expect=expect, workers=workers)


def run(c, weak, secrets):
    c.mc_all([model(c, c.pick(6, 8), workers=4)] +
             [model(c, 6, weak=[w], expect=e) for w, e in weak])
    scen = c.generate("GenAgeSessions", spec="GenSpec", env={"PROP": c.prop},
                      defs=dict(Handles="MCHandles", Readers="MCReaders"),
                      consts=dict(Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "%s-%d" % (c.prop, i)
    cases = c.drive("session_driver.py", scen)
    if not secrets:
        for x in cases:
            x["secrets"] = []
    import os
    os.environ["SECRETS"] = "yes" if secrets else "no"
    c.validate("TraceAgeSessions", cases, shards=1 if secrets else 8, mem="6g")
    for x in cases[::max(1, len(cases) // 3)]:
        c.sample(x)
    c.cover["calls_replayed"] = sum(len(x["ops"]) for x in cases)
    c.cover["secrets_compared"] = sum(len(x["secrets"]) for x in cases)
    c.assumptions = ["scrypt is replaced by a cheap function of the same inputs",
                     "file contents are read back with the code's own Decryptor (bound by C01..C05)"]
