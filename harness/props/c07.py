from props.sessions import run as run_


def run(c):
    run_(c, [("fixedFileKey", ["InvFresh"]), ("fixedNonce", ["InvFresh"]),
             ("shareAcrossStanzas", ["InvFresh"])], secrets=True)
