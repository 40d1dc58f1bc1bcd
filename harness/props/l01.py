from props.command import run as run_


def run(c):
    run_(c, "enc", [("skipUnresolved", ["NeverUnasked"]), ("openFirst", ["Refusals", "NeverUnasked"]), ("noRecipientOk", ["NeverUnasked"]),
                    ("ttyOk", ["NeverUnasked"]), ("errToOut", ["ZeroIsComplete", "Inverse"])])
