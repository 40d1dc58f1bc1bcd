from props.agefile import model, run as run_


def run(c):
    run_(c, JOBS(c))


def JOBS(c):
    m = lambda n, **k: model(c, "MCIds", "MCRcptLists", "MCLens", "MCMixedEdits", n, **k)
    return [m(c.pick(1, 3), workers=4, live=True),
            m(0, weak=["openAny"], expect=["ResultAllowed", "OnlyHolders", "Integrity", "NoIdError"]),
            m(0, weak=["stopAtMismatch"], expect=["ResultAllowed", "NoIdError", "RoundTrip"])]
