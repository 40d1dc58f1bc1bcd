from props.command import run as run_


def run(c):
    run_(c, "dec", [("openFirst", ["Nothing"]), ("streaming", ["Nothing"]), ("ignoreWriteError", ["ZeroIsExact"]),
                 ("errToOut", ["ZeroIsExact"])])
