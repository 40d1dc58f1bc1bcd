from props.agefile import model, run as run_


def run(c):
    run_(c, JOBS(c))


def JOBS(c):
    m = lambda n, **k: model(c, "MCIds", "MCRcptLists", "MCLens1", "MCHeaderEdits", n, **k)
    bad = ["ResultAllowed", "Integrity"]
    return [m(c.pick(1, 2), workers=4, live=True)] + [
        m(1, weak=[w], expect=bad) for w in ("noMac", "macReserialised")]
