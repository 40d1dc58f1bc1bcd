from props.agefile import model, run as run_


def run(c):
    run_(c, JOBS(c))


def JOBS(c):
    m = lambda n, **k: model(c, "MCIds1", "MCRcptLists1", "MCLens", "MCPayloadEdits", n, **k)
    bad = ["ResultAllowed", "Integrity", "WholePlaintext"]
    return [m(c.pick(1, 3), workers=4, live=True)] + [
        m(2, weak=[w], expect=bad) for w in ("noKey", "noNonce", "noCtr", "noLast", "emptyOk")]
