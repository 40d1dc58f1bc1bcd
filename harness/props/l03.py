from props.command import run as run_


def run(c):
    run_(c, "enc", [("sealOnError", ["NeverTruncated", "ZeroIsComplete"]), ("openBeforeRead", ["NeverTruncated", "ZeroIsComplete"]),
                    ("ignoreWriteError", ["ZeroIsComplete"]), ("ignoreLast", ["ZeroIsComplete"])])
