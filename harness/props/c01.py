from props.agefile import model, run as run_


def run(c):
    run_(c, JOBS(c))


def JOBS(c):
    m = lambda **k: model(c, "MCIds", "MCRcptLists", "MCLens", "MCNone", 0, **k)
    return [m(live=True),
            m(weak=["stopAtMismatch"], expect=["ResultAllowed", "RoundTrip"]),
            m(weak=["noLast", "noCtr", "openAny"], expect=["ResultAllowed", "OnlyHolders"])]
