from props.sessions import run as run_


def run(c):
    run_(c, [("sharedBuffer", ["InvOwnBytes", "InvAccepted"]),
             ("sealOnAbort", ["InvAbort"]), ("sealFailedCreation", ["InvAbort", "InvOwnBytes"]),
             ("closeTwice", ["InvOnce"]), ("writeAfterClose", ["InvAccepted"]),
             ("rereads", ["InvReads"])], secrets=False)
