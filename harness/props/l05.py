from props.command import run as run_


def run(c):
    run_(c, "enc", [("openBeforeRead", ["Inverse", "NeverTruncated", "ZeroIsComplete"]), ("ignoreLast", ["Inverse", "ZeroIsComplete"]),
                 ("errToOut", ["ZeroIsComplete", "Inverse"])])
